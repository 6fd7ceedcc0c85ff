"""C22: failures surface, and leave no trace.  Every random draw, permanent
computation and worker task of a call fails once; the object is used again."""

import itertools

import numpy as np

from .. import domain, faults, oracle
from ..engine import EngineLimit, Explorer
from ..harness import BadSample, calculator, canon, canon_all, config, oracle_law, short_tb, strategy

BOUNDS = {
    "quick": "10 samplers (m=2, n<=2, 1-2 samples per call), fixed-loss, uniform-loss and sample-based distributions, accuracy-bounded distributions: a failure (error, interrupt, dead worker) at every random draw, permanent computation and worker task of every execution of the first call (up to 60 points), then every execution of further calls on the same object",
    "thorough": "also (1,1) inputs for all samplers, 3 processors, two failed calls in a row",
}
U = ("gcc", "gcc_ma", "gccb", "gcc_ul", "gccb_ul", "ubobs")
KINDS = ("error", "interrupt")
CATCH = (Exception, KeyboardInterrupt)


def matrix(kind, name, m):
    return domain.unitary(name, m) if kind in U else domain.lossy(name, m)


class Swallowed(Exception):
    pass


def failing(at, how, call, valid):
    """The call with its at-th point failing: ("failed",) or ("ok", result)."""
    faults.arm(at, how)
    try:
        r = call()
    except CATCH as e:
        if faults.FIRED is None:
            raise
        return ("failed",)
    finally:
        faults.disarm()
    if faults.FIRED is not None:
        why = valid(r)
        if why:
            raise Swallowed("a failing %s is swallowed: %s" % (faults.FIRED, why))
    return ("ok", r)


def explore(res, item, what, program, expected, grid=1, cpu=1, sched=4, limit=60, fair=None):
    """program(at) -> (label of the failed call, later answers); later answers
    follow `expected` whatever the label is."""
    for at in range(limit):
        fired = [False]

        def fn():
            try:
                return program(at)
            finally:
                fired[0] = fired[0] or faults.FIRED is not None
                faults.disarm()

        ex = Explorer(grid=grid, cpu_count=cpu, max_executions=60000)
        n = 0
        try:
            for vec in ex.schedules(sched):
                n += 1
                ex.truncated_mass = 0.0
                joint = {}
                for w, kind, v in ex.executions_of(fn):
                    if kind == "exc":
                        res.violate("%s, failure at point %d: %s" % (what, at, short_tb(v)), schedule=vec)
                        res.add(ex, n)
                        return
                    a, b = v
                    joint.setdefault(a, {})
                    joint[a][b] = joint[a].get(b, 0.0) + w
                for a, law in joint.items():
                    tot = sum(law.values())
                    d, where = oracle.compare(law, {k: tot * p for k, p in expected.items()})
                    if d > 1e-9 + 2 * ex.truncated_mass:
                        res.violate(
                            "%s, failure at point %d (first call: %s): later answer %s has probability %.9g, should be %.9g"
                            % (what, at, a, where, law.get(where, 0.0) / tot, expected.get(where, 0.0)), schedule=vec)
                        res.add(ex, n)
                        return
        except EngineLimit as e:
            res.limits.append("%s: %s" % (what, e))
            res.add(ex, n)
            return
        res.add(ex, n)
        if not fired[0]:
            return


def run(item, res):
    faults.install()
    how = item["how"]
    t = item["type"]
    if t == "sampler":
        kind, p, m = item["kind"], item["p"], len(item["s"])
        mat = matrix(kind, item["mat"], m)
        s, N, s2 = tuple(item["s"]), item["N"], tuple(item["s2"])
        first = oracle_law(kind, mat, s, **p)

        def valid(r):
            try:
                x = canon_all(r, m)
            except BadSample as e:
                return str(e)
            if len(x) != N:
                return "%d samples instead of %d" % (len(x), N)
            bad = [y for y in x if not first.get(y, 0.0) > 1e-12]
            return "impossible sample %s" % (bad[0],) if bad else None

        def program(at):
            st = strategy(kind, mat.copy(), list(s), item.get("calc", "ryser"), **p)
            a = ()
            for _ in range(item.get("times", 1)):
                r = failing(at, how, lambda: st.simulate(list(s), N), valid)
                a += (r[0],)
            x = st.simulate(list(s2), 1)
            if len(x) != 1:
                raise BadSample("%d samples instead of 1" % len(x))
            return a, canon_all(x, m)

        exp = {(k,): v for k, v in oracle_law(kind, mat, s2, **p).items()}
        explore(res, item, "%s, input %s, %d samples, then input %s" % (kind, s, N, s2), program, exp,
                grid=item.get("grid", max(sum(s), sum(s2)) + 1), cpu=item.get("cpu", 1), sched=item.get("sched", 4))
    elif t == "dist":
        s, m = tuple(item["s"]), len(item["s"])
        mat = domain.unitary(item["mat"], m)
        eta = 0.6
        if item["which"] == "fixed":
            from .c03 import build

            law = oracle.fixed_loss_law(mat, s, item["left"])
        else:
            from .c04 import build

            law = oracle.uniform_loss_law(mat, s, eta)
        keys = sorted(law)

        def agrees(outs, probs):
            outs, probs = [canon(o) for o in outs], list(probs)
            if len(outs) != len(probs):
                return "%d probabilities for %d outcomes" % (len(probs), len(outs))
            for o, q in zip(outs, probs):
                if not abs(float(np.real(q)) - law.get(o, 0.0)) <= 1e-9:
                    return "outcome %s has %.9g instead of %.9g" % (o, float(np.real(q)), law.get(o, 0.0))

        def program(at):
            cfg = config(mat.copy(), list(s), left=item.get("left"), eta=eta)
            d = build(cfg, calculator(item["calc"], mat.copy(), list(s), list(s)))
            if item["call"] == "full":
                r = failing(at, how, d.calculate_distribution, lambda r: agrees(d.get_outcomes_in_proper_order(), r))
            else:
                r = failing(at, how, lambda: d.calculate_probabilities_of_outcomes(list(keys)), lambda r: agrees(keys, r))
            outs = d.get_outcomes_in_proper_order()
            for o, q in ((outs, d.calculate_distribution()), (keys[::-1], d.calculate_probabilities_of_outcomes(keys[::-1]))):
                why = agrees(o, q)
                if why:
                    raise Swallowed("later query: " + why)
            if sorted(canon(o) for o in outs) != keys:
                raise Swallowed("later outcomes: %s" % (outs,))
            return (r[0],), "right"

        explore(res, item, "%s-loss distribution of %s, %s" % (item["which"], s, item["call"]), program, {"right": 1.0},
                cpu=item.get("cpu", 1), sched=item.get("sched", 4))
    elif t == "accuracy":
        s, m, eta = tuple(item["s"]), len(item["s"]), item["eta"]
        mat = domain.unitary("gen", m)
        states = [x for k in range(sum(s) + 1) for x in oracle.states(k, m)]
        law = oracle.uniform_loss_law(mat, s, eta)
        unweighted = {}
        for l in range(sum(s) + 1):
            unweighted.update(oracle.fixed_loss_law(mat, s, l))

        def agrees(r, w):
            want = law if w else unweighted
            if len(r) != len(states):
                return "%d values for %d outcomes" % (len(r), len(states))
            for x, q in zip(states, r):
                if q != -1 and not abs(q - want[x]) <= 1e-9:
                    return "outcome %s has %.9g instead of %.9g" % (x, q, want[x])

        def program(at):
            st = strategy("gcc_ul", mat.copy(), list(s), eta=eta)
            st.missing_values_in_distribution = True
            f = {True: st.compute_distribution_up_to_accuracy, False: st.compute_unweighted_distribution_up_to_accuracy}
            w = item["w"]
            r = failing(at, how, lambda: f[w](list(s), item["acc"]), lambda r: agrees(r, w))
            if item["then"] == "sim":
                return (r[0],), canon(st.simulate(list(s), 1)[0], m)
            why = agrees(f[item["then"]](list(s), 0.0), item["then"])
            if why:
                raise Swallowed("later computation: " + why)
            return (r[0],), "right"

        explore(res, item, "gcc_ul %s distribution of %s up to %g, then %s" % ("weighted" if item["w"] else "unweighted", s, item["acc"], item["then"]),
                program, law if item["then"] == "sim" else {"right": 1.0}, limit=8)
    elif t == "estimate":
        from .c16 import Strategy, build

        s = (1, 0)
        script = [tuple(x) for x in item["script"]]

        class Flaky(Strategy):
            def simulate(self, input_state, samples_number=1):
                faults.point("simulation")
                return super().simulate(input_state, samples_number)

        def freq(r, used, outs):
            if len(r) != len(outs):
                return "%d values" % len(r)
            for o, q in zip(outs, r):
                if not abs(q - used.count(canon(o)) / len(used)) <= 1e-12:
                    return "outcome %s has frequency %r for samples %s" % (o, q, used)

        def program(at):
            st = Flaky(script)
            N = len(script)
            d = build(config(np.eye(2), list(s)), st, samples_number=N) if item["ctor"] else build(config(np.eye(2), list(s)), st)
            d.samples_number = N
            outs = [tuple(x) for x in oracle.states(1, 2)]
            d.outcomes = list(outs)
            some = outs[::-1][: item.get("some", 2)]
            asked = outs if item["call"] == "full" else some
            call = d.calculate_distribution if item["call"] == "full" else (lambda: d.calculate_probabilities_of_outcomes(list(some)))
            r = failing(at, how, call, lambda r: freq(r, script, asked))
            if r[0] == "failed" and [canon(o) for o in d.get_outcomes_in_proper_order()] != outs:
                raise Swallowed("the outcomes of the failed query stay: %s" % (d.get_outcomes_in_proper_order(),))
            st.pos = 0
            now = [canon(o) for o in d.get_outcomes_in_proper_order()]
            why = freq(d.calculate_distribution(), script, now)
            st.pos = 0
            why = why or freq(d.calculate_probabilities_of_outcomes(outs[::-1]), script, outs[::-1])
            if why:
                raise Swallowed("later query: " + why)
            return (r[0],), "right"

        explore(res, item, "estimate from %s, %s" % (script, item["call"]), program, {"right": 1.0})


def items(tier):
    deep = tier == "thorough"
    out = []
    P = dict(gcc_ul=dict(eta=0.6), gccb_ul=dict(eta=0.6), fixed=dict(left=1), uniform=dict(eta=0.6))
    M = dict(lossynet="mid", fixed="mid", uniform="mid")
    for how in KINDS:
        for kind in ("gcc", "gcc_ma", "gccb", "gcc_ul", "gccb_ul", "lossynet", "fixed", "uniform"):
            mf = kind in ("fixed", "uniform")
            pairs = [((1, 0), 2, (1, 0))] if mf else [((1, 0), 2, (0, 1)), ((0, 1), 1, (0, 1))]
            if not mf and kind != "lossynet":
                pairs += [((1, 1), 1, (1, 1)), ((2, 0), 1, (1, 1)), ((1, 1), 1, (0, 2))]
            if mf or kind == "lossynet":
                pairs += [((1, 1), 1, (1, 0))] if kind != "uniform" or deep else []
            if deep and kind == "lossynet":
                pairs += [((1, 0), 1, (1, 1))]
            for s, N, s2 in pairs:
                for times in (1, 2) if deep else (1,):
                    out.append(dict(type="sampler", kind=kind, p=P.get(kind, {}), mat=M.get(kind, "gen"), s=list(s), N=N, s2=list(s2), how=how, times=times))
        for k in (0, 1, 2):
            for s, s2 in (((1, 0), (0, 1)), ((0, 1), (0, 1)), ((1, 0), (1, 0))):
                for N, threads, cpu in ((1, 1, 1), (2, 1, 1), (2, 2, 2)) + (((3, 3, 3),) if deep else ()):
                    for kind, smeared in (("bobs", k), ("ubobs", 2 - k)):
                        if smeared and N > 2 or smeared == 2 and (N > 1 or s != s2):
                            continue
                        if smeared == 1 and N == 2 and not deep and s2 != s:
                            continue
                        p = dict(k=k, threads=threads)
                        if kind == "ubobs":
                            p["eta"] = 0.5
                        mat = "gen" if kind == "ubobs" else "uni:0.5:gen" if k else "mid"
                        out.append(dict(type="sampler", kind=kind, p=p, mat=mat, s=list(s), N=N, s2=list(s2), how=how, cpu=cpu, sched=3))
        for calc in ("ryser", "glynn", "chin_huh", "classic"):
            for call in ("full", "some"):
                for s in ((1, 1), (2, 0), (1, 0, 1)):
                    for left in range(sum(s) + 1):
                        out.append(dict(type="dist", which="fixed", s=list(s), left=left, mat="gen", calc=calc, call=call, how=how))
                for s in ((1, 0), (1, 1), (2, 0)):
                    for cpu in (1, 2, 3):
                        out.append(dict(type="dist", which="uniform", s=list(s), mat="gen", calc=calc, call=call, how=how, cpu=cpu, sched=4))
        for s in ((1, 0), (0, 1), (1, 1)):
            for eta in (0.0, 0.6, 1.0):
                for w in (True, False):
                    for acc in (0.3, 0.9) if sum(s) == 1 else (0.3,):
                        for then in ("sim", True, False):
                            if eta == 0.0 and w and acc > 0.5:
                                pass
                            out.append(dict(type="accuracy", s=list(s), eta=eta, w=w, acc=acc, then=then, how=how))
        for n in (1, 2, 3):
            for script in itertools.product(((1, 0), (0, 1)), repeat=n):
                for call in ("full", "some"):
                    for some in (1, 2) if call == "some" else (2,):
                        out.append(dict(type="estimate", script=[list(x) for x in script], call=call, some=some, ctor=False, how=how))
    return out
