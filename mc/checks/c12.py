"""C12: all short histories of simulations and matrix changes on one sampler."""

import itertools

import numpy as np

from .. import domain, oracle
from ..harness import BadSample, canon_all, decide_law, oracle_law, strategy

BOUNDS = {
    "quick": "10 samplers; all histories of up to 3 operations (simulate one of 3-4 inputs with 0..2 samples, set one of 2-3 matrices, also of another size, use another sampler object, query a distribution) followed by a simulation; joint law of all samples; m<=3, n<=2; matrices alike (moduli, conjugated, transposed, columns exchanged, 1e-4 and 1e-6 apart), set anew or refilled in place; all pairs of inputs of n<=3 particles on permutations, given anew or as the caller's own list or array refilled between the calls",
    "thorough": "histories of 4 operations; further inputs",
}
U = ("gcc", "gcc_ma", "gccb", "gcc_ul", "gccb_ul")
LOSSY = ("lossynet", "bobs", "fixed", "uniform")
P = dict(
    gcc_ul=dict(eta=0.6), gccb_ul=dict(eta=0.6), fixed=dict(left=1), uniform=dict(eta=0.6),
    bobs=dict(k=0, threads=1), ubobs=dict(k=2, eta=0.6, threads=1),
)


def matrix(kind, name, m):
    return domain.lossy(name, m) if kind in LOSSY else domain.unitary(name, m)


def array_or_list(how, values):
    return np.array(values, dtype=int) if how == "array" else list(values)


def run(item, res):
    kind, p = item["kind"], item["p"]
    for hist in itertools.product(item["ops"], repeat=item["len"]):
        hist = [tuple(x) for x in item["prefix"]] + [tuple(h) for h in hist]
        # keep only well-typed histories: the input must fit the current matrix
        m = item["m"]
        mat = item["mat"]
        laws = []
        size = 1
        ok = True
        for op in hist + [tuple(item["last"])]:
            if op[0] == "sim":
                if len(op[1]) != m:
                    ok = False
                    break
                law = oracle_law(kind, matrix(kind, mat, m), op[1], **p)
                laws += [law] * op[2]
            elif op[0] in ("mat", "refill"):
                mat, m = op[1], op[2]
        if not ok:
            continue
        if sum(len(l) for l in laws) > item.get("cap", 24):
            continue

        def fn():
            array = matrix(kind, item["mat"], item["m"]) + 0j
            st = strategy(kind, array, [1] + [0] * (item["m"] - 1), **p)
            other = None
            got = []
            buffers = {}  # the caller's own input, one per size, filled anew for every call
            for op in hist + [tuple(item["last"])]:
                if op[0] == "sim":
                    given = list(op[1])
                    if item.get("reuse"):
                        given = buffers.setdefault(len(op[1]), array_or_list(item["reuse"], op[1]))
                        given[:] = op[1]
                    x = st.simulate(given, op[2])
                    if len(x) != op[2]:
                        raise BadSample("%d samples instead of %d" % (len(x), op[2]))
                    got += canon_all(x, len(op[1]))
                elif op[0] == "mat":
                    st.set_new_matrix(matrix(kind, op[1], op[2]))
                elif op[0] == "refill":  # the caller's array filled anew and set again
                    array[:] = matrix(kind, op[1], op[2])
                    st.set_new_matrix(array)
                elif op[0] == "other":
                    other = strategy(kind, matrix(kind, op[1], op[2]), op[3], **p)
                    other.simulate(list(op[3]), 1)
                elif op[0] == "dist":
                    st.compute_distribution_up_to_accuracy(list(op[1]), 0.0)
                elif op[0] == "udist":
                    st.compute_unweighted_distribution_up_to_accuracy(list(op[1]), 0.0)
            return tuple(got)

        decide_law(
            res, fn, oracle.product_law(*laws), "%s history %s then %s" % (kind, hist, item["last"]),
            grid=item.get("grid", 3), cpu=1, schedule_limit=4, max_executions=60000,
        )
        if res.violations:
            return


def items(tier):
    deep = tier == "thorough"
    out = []
    L = 2
    for kind in U:
        mats = [("mat", "gen2", 2), ("mat", "gen", 3), ("mat", "gen^T", 2), ("mat", "gen~", 2)]
        sims = [("sim", (1, 1), 1), ("sim", (0, 2), 1), ("sim", (1, 0), 2), ("sim", (2, 0), 0), ("sim", (1, 0, 1), 1), ("sim", (0, 0), 1)]
        others = [("other", "gen3", 2, (1, 0))]
        if kind == "gcc_ul":
            others += [("dist", (1, 1)), ("udist", (1, 0))]
        ops = mats + sims + others
        lasts = [("sim", (1, 1), 1), ("sim", (1, 0), 1), ("sim", (0, 1), 2), ("sim", (0, 1, 1), 1)]
        if deep:
            lasts += [("sim", (2, 0), 1), ("sim", (2, 1), 1)]
        for first in ops:
            for last in lasts:
                out.append(dict(kind=kind, m=2, mat="gen", p=P.get(kind, {}), ops=ops, prefix=[first], len=L if deep else 1, last=last, cap=24 if deep else 16))
                out.append(dict(kind=kind, m=3, mat="gen", p=P.get(kind, {}), ops=[("sim", (1, 0, 1), 1), ("mat", "gen2", 3), ("mat", "gen", 2), ("sim", (0, 1, 0), 1), ("sim", (1, 0), 1)], prefix=[("sim", (0, 1, 0), 1)], len=2, last=last, cap=16)) if first == ops[0] else None
    # more particles: cached intermediate results differ in more ways
    for kind in ("gcc", "gcc_ma"):
        sims = [("sim", (2, 1), 1), ("sim", (1, 2), 1), ("sim", (3, 0), 1), ("sim", (2, 2), 1), ("sim", (1, 3), 1)]
        for first in sims:
            for last in sims:
                for mid in ([], [("mat", "gen2", 2)], [("mat", "gen^T", 2)]):
                    out.append(dict(kind=kind, m=2, mat="gen", p={}, ops=[], prefix=[first] + mid, len=0, last=last, cap=40))
    for kind in ("gccb", "gcc_ul", "gccb_ul"):
        sims = [("sim", (2, 1), 1), ("sim", (1, 2), 1), ("sim", (3, 0), 1)]
        for first in sims:
            for last in sims[:2]:
                for mid in ([], [("mat", "perm", 2)]):
                    out.append(dict(kind=kind, m=2, mat="id", p=P.get(kind, {}), ops=[], prefix=[first] + mid, len=0, last=last, cap=40))
    # matrices alike in moduli, transposed, conjugated, with equal entries, almost equal
    for kind in U:
        p = P.get(kind, {})
        for a, b in (("gen", "gen^T"), ("gen", "gen*"), ("gen", "gen|"), ("gen", "gen-"), ("gen", "gen="), ("gen=", "gen"), ("gen~", "gen"), ("id", "rev"), ("perm", "perm^T"), ("bs", "bs*"), ("gen", "gen1")):
            for m in (2, 3):
                if m == 3 and (a, b) not in (("gen", "gen^T"), ("gen", "gen*"), ("gen", "gen|"), ("perm", "perm^T")):
                    continue
                for s in ((1, 1), (2, 0), (1, 0)) if m == 2 else ((1, 0, 1),):
                    for op in ("mat", "refill"):
                        out.append(dict(kind=kind, m=m, mat=a, p=p, ops=[], prefix=[("sim", s, 1), (op, b, m)], len=0, last=("sim", s, 1), cap=40))
                        if op == "refill" and m == 2:  # and back again
                            out.append(dict(kind=kind, m=m, mat=a, p=p, ops=[], prefix=[("sim", s, 1), (op, b, m), (op, a, m)], len=0, last=("sim", s, 1), cap=40))
        for a, b in (("had", "qft"), ("qft", "had"), ("qft", "qft|"), ("had", "had|")):
            for s in ((1, 1, 0, 0), (0, 1, 0, 1)):
                out.append(dict(kind=kind, m=4, mat=a, p=p if kind[-3:] != "_ul" else dict(eta=1.0), ops=[], prefix=[("sim", s, 1), ("mat", b, 4)], len=0, last=("sim", s, 1), cap=40))
    # all pairs of inputs on networks which only permute
    for kind in ("gcc", "gcc_ma", "gccb", "gcc_ul", "gccb_ul", "lossynet", "bobs", "ubobs", "fixed", "uniform"):
        lossy = kind in LOSSY
        for p in [P.get(kind, {})] if kind not in ("bobs", "ubobs") else [dict(k=k, eta=0.6, threads=1) for k in (0, 1, 2)]:
            if kind == "bobs":
                p = dict(k=p["k"], threads=1)
            smear = p["k"] if kind == "bobs" else 2 - p["k"] if kind == "ubobs" else 2 if kind in ("fixed", "uniform") else 0
            top = 3 if smear == 0 else 2 if smear == 1 else 1
            for a, b in itertools.product(domain.all_states(2, top, min_m=2), repeat=2):
                if kind in ("fixed", "uniform") and (not sum(a) * sum(b) or max(a + b) > 1 or a[0] < a[1] or b[0] < b[1]):
                    continue
                it = dict(kind=kind, m=2, mat="uni:0.6:perm" if kind == "lossynet" else "u:perm" if lossy else "perm", p=p, ops=[], prefix=[("sim", a, 1)], len=0, last=("sim", b, 1), cap=60, grid=2)
                out.append(it)
                if a != b:
                    out += [dict(it, reuse=r) for r in ("list", "array")]
    # and with losses spread evenly, kept or extracted
    for k, top in ((0, 3), (1, 2)):
        for a, b in itertools.product(domain.all_states(2, top, min_m=2), repeat=2):
            if sum(a) + sum(b) <= 4:
                out.append(dict(kind="bobs", m=2, mat="uni:0.6:perm", p=dict(k=k, threads=1), ops=[], prefix=[("sim", a, 1)], len=0, last=("sim", b, 1), cap=60, grid=3 if k else 2))
    for kind in ("lossynet",):
        for a, b in itertools.permutations(("mid", "mid^T", "in", "out", "uni:0.5:gen", "u:gen", "even:0.5:1e-3:gen2", "even:0.5:2e-3:gen2"), 2):
            for s in ((1, 0), (0, 1), (1, 1)):
                if s == (1, 1) and not deep and not a.startswith("mid"):
                    continue
                for op in ("mat", "refill"):
                    out.append(dict(kind=kind, m=2, mat=a, p={}, ops=[], prefix=[("sim", s, 1), (op, b, 2)], len=0, last=("sim", s, 1), cap=24))
        ops = [("mat", "mid", 2), ("mat", "u:gen", 2), ("mat", "in", 1), ("sim", (1, 0), 1), ("sim", (0, 1), 1), ("sim", (2,), 1), ("sim", (1, 0), 0), ("other", "part", 2, (1, 0))]
        for first in ops:
            for last in [("sim", (1, 0), 1), ("sim", (0, 1), 2), ("sim", (1, 1), 1), ("sim", (2,), 1)]:
                out.append(dict(kind=kind, m=2, mat="part", p={}, ops=ops, prefix=[first], len=L if deep else 1, last=last, cap=12))
    for k in (0, 1, 2):
        ops = [("sim", (1, 0), 1), ("sim", (0, 1), 1), ("sim", (1, 0), 0), ("sim", (0, 0), 1), ("other", "u:gen", 2, (1, 0))]
        for first in ops:
            for last in [("sim", (1, 0), 1), ("sim", (0, 1), 1), ("sim", (0, 0), 1)]:
                lb, lu = (1 if deep or k != 2 else 0), (1 if deep or k != 0 else 0)
                out.append(dict(kind="bobs", m=2, mat="uni:0.5:gen", p=dict(k=k, threads=1), ops=ops, prefix=[first], len=lb, last=last, cap=9 if k == 0 else 6, grid=2))
                out.append(dict(kind="bobs", m=2, mat="mid", p=dict(k=k, threads=1), ops=ops, prefix=[first], len=0, last=last, cap=9, grid=2))
                out.append(dict(kind="ubobs", m=2, mat="gen", p=dict(k=k, eta=0.5, threads=1), ops=ops_u(ops), prefix=[_u(first)], len=lu, last=last, cap=9 if k == 2 else 6, grid=2))
        # several particles gathered in earlier calls
        for first in [("sim", (1, 1), 1), ("sim", (2, 0), 1), ("sim", (0, 2), 1)]:
            for last in [("sim", (1, 0), 1), ("sim", (0, 1), 1), ("sim", (1, 1), 1)]:
                if not deep and last[1] == (1, 1) and k != 1:
                    continue
                few = not deep and (first[1], last[1]) not in (((2, 0), (0, 1)), ((1, 1), (1, 0)))
                if not (few and k == 2):  # everything smeared: many phases
                    out.append(dict(kind="bobs", m=2, mat="u:gen", p=dict(k=k, threads=1), ops=[], prefix=[first], len=0, last=last, cap=12, grid=3))
                if not (few and k == 0):
                    out.append(dict(kind="ubobs", m=2, mat="gen", p=dict(k=k, eta=0.5, threads=1), ops=[], prefix=[first], len=0, last=last, cap=12, grid=3))
    for kind in ("fixed", "uniform"):
        ops = [("sim", (1, 0), 1), ("sim", (1, 1), 1), ("sim", (1, 0), 0), ("other", "u:gen", 2, (1, 0))]
        lasts = [("sim", (1, 0), 1), ("sim", (1, 1), 1)]
        for mat in ("u:gen", "mid"):
            for last in lasts:
                for first in ops:
                    if kind == "fixed" or deep:
                        for p in (dict(left=1), dict(left=0)) if kind == "fixed" else (P[kind],):
                            out.append(dict(kind=kind, m=2, mat=mat, p=p, ops=ops, prefix=[first], len=1, last=last, cap=9, grid=2 if kind == "fixed" else 3))
                    else:
                        out.append(dict(kind=kind, m=2, mat=mat, p=P[kind], ops=[], prefix=[first], len=0, last=last, cap=12))
        out.append(dict(kind=kind, m=2, mat="mid", p=P[kind], ops=[], prefix=[("sim", (1, 0), 1), ("sim", (1, 0), 1)], len=0, last=("sim", (1, 0), 1), cap=12, grid=2))
        out.append(dict(kind=kind, m=2, mat="mid", p=P[kind], ops=[], prefix=[("sim", (1, 0), 2)], len=0, last=("sim", (1, 0), 1), cap=12, grid=2))
    return [o for o in out if o]


def _u(op):
    return ("other", "gen3", 2, op[3]) if op[0] == "other" else op


def ops_u(ops):
    return [_u(o) for o in ops]
