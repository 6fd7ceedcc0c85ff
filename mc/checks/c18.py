"""C18: distributions computed up to an accuracy (uniform-loss Clifford A)."""

import itertools
import random as _random

import numpy as np

from .. import domain, oracle
from ..engine import EngineLimit, Explorer
from ..harness import short_tb, strategy
from ..rng import REAL

BOUNDS = {
    "quick": "m<=3, n<=3, all occupations (plus 8 crowded inputs of up to 7 particles, 4 free choices); eta in {0, 0.4, 1}; accuracies {0, 0.3, 0.7, 0.95, 1} and 2e-6 above the weight of any 1 or 2 outcomes, or of all but them; weighted and unweighted; missing-value marker on and off; the first 7 random choices exhaustively, then a fair continuation that must finish; 15 histories before",
    "thorough": "m<=3, n<=4; first 11 choices exhaustively; all accuracies; all histories of 2",
}
ASSUMPTIONS = ["reachability of the accuracy: every exhaustively enumerated prefix is continued by one fair sequence of draws"]


def order(n, m):
    return [t for k in range(n + 1) for t in oracle.states(k, m)]


def expected(u, s, eta, weighted):
    if weighted:
        return oracle.uniform_loss_law(u, s, eta)
    out = {}
    for l in range(int(sum(s)) + 1):
        out.update(oracle.fixed_loss_law(u, s, l))
    return out


def run(item, res):
    s = tuple(item["s"])
    m, n = len(s), sum(s)
    mat = domain.unitary(item["mat"], m)
    eta, acc, weighted, missing = item["eta"], item.get("acc"), item["w"], item["missing"]
    exact = expected(mat, s, eta, weighted)
    if "only" in item:
        # just above the weight of these outcomes (or of all the others): one more has to be found
        acc = sum(exact[tuple(t)] for t in item["only"]) / (1 if weighted else n + 1)
        acc = (1 - acc if item["rest"] else acc) + 2e-6
        if not 0 <= acc <= 1 - 1e-6:
            return
    states = order(n, m)
    what = "input %s, matrix %s, eta %g, accuracy %g, %s%s%s" % (
        s, item["mat"], eta, acc, "weighted" if weighted else "unweighted", ", markers" if missing else "",
        ", after %s" % item["pre"] if item.get("pre") else "",
    )

    def fn():
        st = strategy("gcc_ul", domain.contain_matrix(domain.unitary("gen9", m) if item.get("first") else mat, item.get("mk", "array")), list(s), item.get("calc", "ryser"), eta=eta)
        if missing or not item.get("default"):
            st.missing_values_in_distribution = missing
        kept = []
        for op in item.get("pre", []):
            if op == "sim":
                st.simulate([0] * (m - 1) + [1], 1)
            elif op == "sim2":
                st.simulate(list(s), 2)
            elif op == "sim_big":
                st.simulate([2] + [0] * (m - 1), 1)
            elif op == "dist":
                st.compute_distribution_up_to_accuracy([1] + [0] * (m - 1), 0.5)
            elif op == "same":
                kept = st.compute_distribution_up_to_accuracy(list(s), 0.6)
            elif op == "usame":
                kept = st.compute_unweighted_distribution_up_to_accuracy(list(s), 0.5)
            elif op == "udist":
                st.compute_unweighted_distribution_up_to_accuracy([1] + [0] * (m - 1), 0.4)
            elif op == "spoil":
                for i in range(len(kept)):
                    kept[i] = 7.0
            elif op == "mark":
                st.missing_values_in_distribution = not missing
                st.compute_distribution_up_to_accuracy([1] + [0] * (m - 1), 0.4)
                st.missing_values_in_distribution = missing
            elif op == "mat":
                st.set_new_matrix(domain.unitary("gen8", m))
                st.simulate(list(s), 1)
            elif op in ("wide", "narrow"):
                # as many particles in another number of modes
                k = m + 1 if op == "wide" else m - 1
                st.set_new_matrix(domain.unitary("gen8", k))
                st.compute_distribution_up_to_accuracy([n] + [0] * (k - 1), 0.5)
        if item.get("first") or {"mat", "wide", "narrow"} & set(item.get("pre", [])):
            st.set_new_matrix(domain.contain_matrix(mat, item.get("mk", "array")))
        f = st.compute_distribution_up_to_accuracy if weighted else st.compute_unweighted_distribution_up_to_accuracy
        x = domain.contain(s, item.get("ck", "list"))
        got = f(x) if item.get("default") else f(x, acc)
        return tuple(float(v) for v in got)

    ex = Explorer(grid=2, min_weight=0.0, horizon=item.get("horizon", 6000), max_executions=60000)
    ex.fair_after = item["depth"]
    ex.fair = _random.Random(5)
    ex.fair.random = REAL["RandomState"](12345).random_sample
    cut = 0
    try:
        before = ex.executions
        for w, kind, v in ex.executions_of(fn):
            if kind == "exc":
                return res.violate("%s: raised %s" % (what, short_tb(v)))
            if len(v) != len(states):
                return res.violate("%s: %d values for %d outcomes" % (what, len(v), len(states)))
            marker = -1 if missing else 0
            filled = 0.0
            for t, p in zip(states, v):
                if p == marker and abs(exact[t] - p) > 1e-9:
                    continue
                if not abs(p - exact[t]) <= 1e-9:
                    return res.violate("%s: outcome %s has %.12g, should be %.12g or %d" % (what, t, p, exact[t], marker))
                filled += max(p, 0.0)
            if not weighted:
                filled /= n + 1
            if filled < acc - 1e-7:
                return res.violate("%s: returned with filled weight %.9g" % (what, filled))
        if ex.truncated_mass > 0 or ex.cut:
            return res.violate("%s: the accuracy is not reached in %d random draws" % (what, ex.horizon))
    except EngineLimit as e:
        res.limits.append("%s: %s" % (what, e))
    finally:
        res.add(ex)


def items(tier):
    deep = tier == "thorough"
    out = []
    D = 11 if deep else 7
    for m in (1, 2, 3):
        for n in range(0, (5 if deep else 4) if m < 3 else (4 if deep else 3)):
            for s in oracle.states(n, m):
                for mat in ("gen", "id", "bs"):
                    for eta in (0.0, 0.4, 1.0):
                        for acc in (1.0, 0.95, 0.7, 0.3, 0.0) if deep or mat == "gen" and n <= 2 else (1.0, 0.7):
                            for w in (True, False):
                                for missing in (False, True):
                                    if mat != "gen" and not deep and eta == 1.0:
                                        continue
                                    out.append(dict(s=list(s), mat=mat, eta=eta, acc=acc, w=w, missing=missing, depth=D if n <= 2 else D - 2))
    PRE = ("sim", "sim2", "sim_big", "dist", "same", "usame", "udist", "mark", "mat")
    hists = [[a] for a in PRE] + [["same", "spoil"], ["usame", "spoil"], ["mat", "sim"], ["wide"], ["narrow"], ["wide", "narrow"]]
    if deep:
        hists += [list(x) for x in itertools.product(PRE, repeat=2)]
    for pre in hists:
        for s in ((1, 1), (2, 0), (0, 1)):
            for w in (True, False):
                for missing in (False, True):
                    for acc, eta in ((1.0, 0.4), (0.6, 0.4), (1.0, 0.0), (1.0, 1.0)):
                        if eta == 0.4 or s != (2, 0) and not missing:
                            out.append(dict(s=list(s), mat="gen", eta=eta, acc=acc, w=w, missing=missing, depth=D + 1, pre=pre))
    for s in ((1, 1), (2, 0), (1, 0), (0, 2)) + (((1, 1, 0), (2, 1)) if deep else ()):
        m, n = len(s), sum(s)
        for k in (1, 2):
            for only in itertools.combinations(order(n, m), k):
                for rest in (False, True):
                    for w in (True, False):
                        out.append(dict(s=list(s), mat="gen", eta=0.4, only=[list(t) for t in only], rest=rest, w=w, missing=rest, depth=D))
    # crowded modes
    for s in ((4,), (5,), (7,), (4, 1), (1, 5), (0, 6), (6, 1), (0, 4, 0)):
        for eta in (0.8, 1.0) if sum(s) <= 5 else (1.0,):
            for w in (True, False):
                out.append(dict(s=list(s), mat="qft", eta=eta, acc=1.0, w=w, missing=False, depth=5 if deep else 4, horizon=20000))
    for calc in ("glynn", "chin_huh", "classic"):
        for w in (True, False):
            out.append(dict(s=[1, 1], mat="gen", eta=0.4, acc=1.0, w=w, missing=True, depth=D, calc=calc, default=True))
            out.append(dict(s=[1, 1], mat="gen", eta=0.4, acc=1.0, w=w, missing=False, depth=D, calc=calc, default=True))
    for ck in ("tuple", "array", "ro"):
        for mk in ("list", "tuple", "ro"):
            for w in (True, False):
                out.append(dict(s=[1, 1], mat="gen", eta=0.4, acc=1.0, w=w, missing=True, depth=5, ck=ck, mk=mk, first=True))
    return out
