"""C16: the sample-based distribution calculator, with a scripted strategy."""

import itertools

import numpy as np

from .. import domain, oracle
from ..harness import canon, config

BOUNDS = {
    "quick": "all sample sequences of length 1..5 (4) over all outcomes of 1-2 modes and up to 2 particles (plus lossy ones), 4 sample containers, 3 outcome orders; all outcomes of up to 260 particles or 130 modes drawn 0..3 times; all pairs of successive queries (ordered lists of up to 3 (4) out of 5 outcomes, 3 ways of asking); all histories of 4 out of 17 operations (setters, queries); front end: all pairs of calls (5 inputs, 5 sample numbers, 2 front ends)",
    "thorough": "sequences up to length 6; histories of 5",
}


class Strategy:
    """Answers with scripted samples and records what it was asked."""

    def __init__(self, script, form=tuple):
        self.script = [form(x) for x in script]
        self.pos = 0
        self.asked = []

    def simulate(self, input_state, samples_number=1):
        n = int(samples_number)
        self.asked.append((canon(input_state), n))
        out = [self.script[(self.pos + i) % len(self.script)] for i in range(n)]
        self.pos += n
        return out


def build(cfg, st, **kw):
    from theboss.distribution_calculators.bs_sample_based_distribution_calculator import (
        BSSampleBasedDistributionCalculator as D,
    )

    return D(cfg, st, **kw)


FORMS = dict(tuple=tuple, list=list, array=lambda x: np.array(x, dtype=int), float=lambda x: tuple(float(v) for v in x))


def judge(res, st, s, N, outs, got, start, what):
    """The answer of one query against the samples it consumed."""
    res.point()
    asked = st.asked
    st.asked = []
    if sum(n for _, n in asked) != N:
        return fail(res, "%s: asked for %d samples instead of %d" % (what, sum(n for _, n in asked), N))
    if any(i != tuple(s) for i, _ in asked):
        return fail(res, "%s: sampled input %s instead of %s" % (what, asked[0][0], tuple(s)))
    used = [tuple(int(v) for v in st.script[(start + i) % len(st.script)]) for i in range(N)]
    if len(got) != len(outs):
        return fail(res, "%s: %d probabilities for %d outcomes" % (what, len(got), len(outs)))
    for o, p in zip(outs, got):
        want = used.count(tuple(int(v) for v in o)) / N
        if not abs(float(p) - want) <= 1e-12:
            return fail(res, "%s: outcome %s has frequency %r, should be %r (samples %s)" % (what, o, p, want, used[:6]))
    return True


def fail(res, what):
    res.violate(what)
    return False


def front(item, res):
    """The simulator front end: all sequences of calls on two front ends over
    (possibly shared) strategies."""
    from theboss.boson_sampling_simulator import BosonSamplingSimulator

    inputs = ((1, 0), (0, 1, 1), (0, 0), (2,), (3, 1, 0, 2))
    ops = [(w, i, n) for w in (0, 1) for i in range(len(inputs)) for n in (None, 0, 1, 2, 5)]
    for rest in itertools.product(ops, repeat=item["len"] - 1):
        seq = (tuple(item["first"]),) + rest
        a = Strategy([(1, 0), (0, 1), (1, 1), (0, 0), (2, 0), (0, 2), (3, 0)], FORMS[item["form"]])
        b = a if item["shared"] else Strategy([(0, 7), (7, 0)], FORMS[item["form"]])
        sims = (BosonSamplingSimulator(a), BosonSamplingSimulator(b))
        kept = []
        for w, i, n in seq:
            st = (a, b)[w]
            start = st.pos
            x = domain.contain(inputs[i], item["ck"])
            got = sims[w].get_classical_simulation_results(x) if n is None else sims[w].get_classical_simulation_results(x, n)
            res.point()
            N = 1 if n is None else n
            what = "front end, calls %s" % (seq,)
            if sum(k for _, k in st.asked) != N or any(y != inputs[i] for y, k in st.asked if k):
                return fail(res, "%s: asked the strategy for %s instead of %d samples of %s" % (what, st.asked, N, inputs[i]))
            st.asked = []
            want = [tuple(int(v) for v in st.script[(start + j) % len(st.script)]) for j in range(N)]
            if [canon(g) for g in got] != want:
                return fail(res, "%s: returned %s for the samples %s" % (what, got, want))
            kept.append((got, want))
        for got, want in kept:
            if [canon(g) for g in got] != want:
                return fail(res, "front end, calls %s: samples returned earlier changed" % (seq,))


def run(item, res):
    if item["type"] == "front":
        return front(item, res)
    if item["type"] == "freq":
        s = tuple(item["s"])
        m, n = len(s), sum(s)
        space = oracle.states(n, m)
        lossy = [t for k in range(n) for t in oracle.states(k, m)][:2]
        form = FORMS[item["form"]]
        for L in range(1, item["len"] + 1):
            for script in itertools.product(space + lossy, repeat=L):
                for mode in ("default", "rev", "part", "arr"):
                    st = Strategy(script, form)
                    cfg = config(np.eye(m), domain.contain(s, item["ck"]))
                    outs = {"rev": space[::-1], "part": [list(t) for t in lossy + space[:1]], "arr": [np.array(t) for t in space]}.get(mode)
                    via = item["via"]
                    if via == "ctor":
                        d = build(cfg, st, samples_number=L, outcomes=outs)
                        got = d.calculate_distribution()
                    elif via == "setter":
                        d = build(cfg, st)
                        d.samples_number = L
                        d.outcomes = outs
                        got = d.calculate_distribution()
                    elif via == "call":
                        d = build(cfg, st, outcomes=outs)
                        got = d.calculate_approximate_distribution(samples_number=L)
                    else:
                        d = build(cfg, st, samples_number=L)
                        got = d.calculate_probabilities_of_outcomes(space if outs is None else outs)
                    rep = d.get_outcomes_in_proper_order()
                    want_set = space if outs is None else outs
                    if sorted(map(canon, rep)) != sorted(map(canon, want_set)):
                        return fail(res, "%s: reports outcomes %s" % (via, rep))
                    if outs is not None and [canon(o) for o in rep] != [canon(o) for o in outs]:
                        return fail(res, "%s: reports outcomes in another order" % via)
                    if not judge(res, st, s, L, rep, got, 0, "%s, input %s, script %s" % (via, s, script)):
                        return
        return
    if item["type"] == "space":
        # crowded or wide outcomes: every outcome drawn, the k-th one k % 4 times
        n, m = item["n"], item["m"]
        space = oracle.states(n, m)
        lossy = oracle.states(n - 1, m)[:40]
        s = (n,) + (0,) * (m - 1)
        for turn in range(4):
            script = [t for k, t in enumerate(space + lossy) for _ in range((k + turn) % 4)]
            for outs in (None, space[::-1], space[1::2] + lossy):
                if not script:
                    continue
                st = Strategy(script, FORMS[item["form"]])
                d = build(config(np.eye(m), s), st, samples_number=len(script), outcomes=outs)
                got = d.calculate_distribution()
                if not judge(res, st, s, len(script), d.get_outcomes_in_proper_order(), got, 0, "all outcomes of %d particles in %d modes" % (n, m)):
                    return
        return
    if item["type"] == "many":
        s = (1, 1)
        script = [(1, 1), (2, 0), (1, 1), (0, 2), (1, 0), (2, 0), (2, 0)]
        N = item["N"]
        st = Strategy(script)
        kw = {} if item["via"] == "default" else dict(samples_number=N)
        d = build(config(np.eye(2), [1, 1]), st, **kw)
        for rep in range(2):
            start = st.pos
            got = d.calculate_distribution()
            if not judge(res, st, s, N, d.get_outcomes_in_proper_order(), got, start, "%d samples" % N):
                return
        return
    if item["type"] == "query":
        # two queries in a row on one calculator, each judged on its own samples
        s = (1, 1)
        pool = [(2, 0), (1, 1), (0, 2), (1, 0), (0, 1)]
        lists = [q for k in range(1, item["len"] + 1) for q in itertools.permutations(pool, k)]
        first = tuple(pool[i] for i in item["first"])
        for second in lists:
            st = Strategy([(1, 1), (2, 0), (1, 1), (0, 2), (1, 0)])
            d = build(config(np.eye(2), [1, 1]), st, samples_number=4)
            own = []
            for q in (first, second):
                start = st.pos
                if item["via"] == "refill":
                    own[:] = [list(o) for o in q]
                else:
                    own = [list(o) for o in q]
                if item["via"] == "setter":
                    d.outcomes = own
                    got = d.calculate_distribution()
                else:
                    got = d.calculate_probabilities_of_outcomes(own)
                if not judge(res, st, s, 4, q, got, start, "query of %s then %s (%s)" % (first, second, item["via"])):
                    return
        return
    # histories
    cfgs = {0: ((1, 1), None), 1: ((0, 1), None), 2: ((1, 0, 1), 1), 3: ((2, 0), 1)}
    scripts = {0: [(1, 1), (2, 0), (1, 1), (0, 2)], 1: [(0, 1), (1, 0), (0, 0)], 2: [(1, 0, 0), (1, 0, 1), (0, 0, 1), (0, 1, 0), (0, 0, 1)]}
    given = {0: None, 1: [(0, 2), (1, 1)], 2: [(0, 1), (1, 0), (2, 0)], 3: [(0, 0, 1), (1, 0, 0)]}
    ops = (
        [("cfg", i) for i in cfgs] + [("str", i) for i in scripts] + [("out", i) for i in given] + [("num", n) for n in (1, 3)]
        + [("dist",), ("probs", 1), ("probs", 2), ("approx", 4)]
    )
    for rest in itertools.product(ops, repeat=item["len"] - 1):
        hist = (tuple(item["first"]),) + rest
        state = dict(cfg=0, str=Strategy(scripts[0]), out=None, num=2)
        strs = {0: state["str"]}
        mk = lambda i: config(np.eye(len(cfgs[i][0])), list(cfgs[i][0]), left=cfgs[i][1])
        d = build(mk(0), state["str"], samples_number=2)
        optional = None
        kept = []
        for op in hist + (("dist",),):
            what = "history %s" % (hist,)
            if op[0] == "cfg":
                d.configuration = mk(op[1])
                state["cfg"] = op[1]
            elif op[0] == "str":
                strs.setdefault(op[1], Strategy(scripts[op[1]]))
                d.strategy = strs[op[1]]
                state["str"] = strs[op[1]]
            elif op[0] == "out":
                g = given[op[1]]
                d.outcomes = None if g is None else list(g)
                state["out"] = g
                optional = None
            elif op[0] == "num":
                d.samples_number = op[1]
                state["num"] = op[1]
            else:
                st = state["str"]
                s, left = cfgs[state["cfg"]]
                left = sum(s) if left is None else left
                start, N = st.pos, state["num"]
                if op[0] == "probs":
                    q = [list(x) for x in given[op[1]]]
                    if len(q[0]) != len(s) or len(st.script[0]) != len(s):
                        break
                    got = d.calculate_probabilities_of_outcomes(q)
                    rep = given[op[1]]
                    optional = rep  # the calculator may go on with these outcomes
                else:
                    rep = d.get_outcomes_in_proper_order()
                    if rep is None:
                        fail(res, "%s: reports no outcomes" % what)
                        return
                    rep = [canon(o) for o in rep]
                    legal = [state["out"] if state["out"] is not None else None, optional]
                    default = sorted(oracle.states(left, len(s)))
                    if not any(
                        (sorted(rep) == default if l is None else rep == [tuple(x) for x in l])
                        for i, l in enumerate(legal) if i == 0 or l is not None
                    ):
                        fail(res, "%s: reports outcomes %s" % (what, rep))
                        return
                    if rep and len(rep[0]) != len(st.script[0]):
                        break
                    if op[0] == "approx":
                        N = op[1]
                        got = d.calculate_approximate_distribution(samples_number=N)
                    else:
                        got = d.calculate_distribution()
                if not judge(res, st, s, N, rep, got, start, what):
                    return
                for g, c in kept:
                    if list(g) != c:
                        fail(res, "%s: an answer changed later" % what)
                        return
                kept.append((got, list(got)))


def items(tier):
    deep = tier == "thorough"
    out = []
    for s in ((1,), (2,), (1, 0), (0, 1), (1, 1), (0, 2), (0, 0)):
        for via in ("ctor", "setter", "call", "probs"):
            for form in FORMS:
                big = len(s) > 1 and sum(s) > 1
                out.append(dict(type="freq", s=list(s), via=via, form=form, ck="list" if form != "array" else "ro", len=(4 if big else 5) + deep))
    for shared in (False, True):
        for form in FORMS:
            for ck in ("list", "tuple", "ro"):
                for w in (0, 1):
                    for i in range(5):
                        for n in (None, 0, 1, 2, 5):
                            out.append(dict(type="front", first=[w, i, n], shared=shared, form=form, ck=ck, len=3 if deep else 2))
    for n, m in ((9, 2), (10, 2), (11, 2), (12, 2), (20, 2), (40, 2), (130, 2), (260, 2), (11, 3), (12, 3), (1, 12), (2, 12), (1, 33), (1, 65), (1, 130), (3, 4), (2, 6)):
        for form in FORMS:
            if form == "tuple" or n * m < 70:
                out.append(dict(type="space", n=n, m=m, form=form))
    for k in range(1, 4 + deep):
        for first in itertools.permutations(range(5), k):
            for via in ("probs", "setter", "refill"):
                out.append(dict(type="query", first=list(first), via=via, len=4 if deep else 3))
    out.append(dict(type="many", N=5000, via="default"))
    for N in (7, 64, 100, 999, 1000, 1001, 4096, 5001, 10007):
        out.append(dict(type="many", N=N, via="ctor"))
    for first in (
        [("cfg", i) for i in range(4)] + [("str", i) for i in range(3)] + [("out", i) for i in range(4)]
        + [("num", 1), ("num", 3), ("dist",), ("probs", 1), ("probs", 2), ("approx", 4)]
    ):
        out.append(dict(type="hist", first=first, len=5 if deep else 4))
    return out
