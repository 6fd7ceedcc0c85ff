"""C02: submatrix permanents, all inputs and histories in bounds."""

import itertools

import numpy as np

from .. import domain, oracle
from .c01 import LARGE, LARGE_MATS, crowded, scale, terms

MATS = ("cplx", "int", "imag", "zrow", "ones", "zeros", "big", "tiny", "nano", "giga", "canc", "qft", "id", "tri")
CALCS = ("ryser", "chin_huh")
BOUNDS = {
    "quick": "all s with 1<=n particles and t with n-1: n<=12/9/6/5/4/3/3 for m=1..7 (m=7 and the last n of m=4: 2-3 families); also n<=20 (m=1), 16 (m=2), 7, 6, m<=12 with n=2; 14 matrix families; 2 calculators; all histories of 3 configurations out of 11; refilled arrays",
    "thorough": "n<=14/10/7/5/4/4/3 for m=1..7; histories of 4",
}


def build(calc, mat, s=None, t=None):
    P = "theboss.boson_sampling_utilities.permanent_calculators."
    import importlib

    if calc == "ryser":
        c = importlib.import_module(P + "bs_cc_ryser_submatrices_permanent_calculator").BSCCRyserSubmatricesPermanentCalculator
    else:
        c = importlib.import_module(P + "bs_cc_ch_submatrices_permanent_calculator").BSCCCHSubmatricesPermanentCalculator
    return c(mat) if s is None else c(mat, s, t)


def compare(res, got, mat, s, t, what, name=None):
    try:
        g = [complex(x) for x in got]
    except Exception:
        res.violate("%s: returned %r" % (what, got))
        return False
    if len(g) != len(s):
        res.violate("%s: %d permanents instead of %d" % (what, len(g), len(s)))
        return False
    for i in range(len(s)):
        if s[i] == 0:
            want, sc = 0.0, 1.0
        else:
            r = list(s)
            r[i] -= 1
            want = oracle.perm_st(mat, r, t)
            if name == "tri":
                sc = 1e-5 * max(terms(mat, s, t), terms(mat, r, t))
            elif name == "large" or sum(s) >= 2:
                sc = max(1e9 * crowded(mat, s, t), scale(mat, r, t))
            else:
                sc = scale(mat, r, t)
        if not abs(g[i] - want) <= 1e-9 * sc:
            res.violate("%s: permanent without column %d is %s, should be %s" % (what, i, g[i], want))
            return False
    return True


def ops():
    return [
        ("cplx", (1, 1, 0), (0, 1, 0)),
        ("cplx", (2, 0, 1), (1, 1, 0)),
        ("cplx2", (1, 1, 0), (0, 1, 0)),
        ("cplx", (0, 1, 0), (0, 0, 0)),
        ("cplx2", (0, 0, 3), (2, 0, 0)),
        ("int", (1, 1), (0, 1)),
        ("zrow", (1, 0, 1), (0, 1, 0)),
        ("cplx", (0, 4), (3, 0)),
        ("cplx^T", (2, 0, 1), (1, 1, 0)),
        ("cplx~", (2, 0, 1), (1, 1, 0)),
        ("cplx", (1, 0, 2), (1, 1, 0)),
    ]


def run(item, res):
    if item["type"] == "large":
        m, n = item["m"], item["n"]
        mat = domain.square(item["mat"], m)
        for s in oracle.states(n, m):
            for t in oracle.states(n - 1, m):
                c = build(item["calc"], mat.copy(), list(s), list(t))
                res.point()
                if not compare(res, c.compute_permanents(), mat, s, t, "%s, matrix %s, input %s, output %s" % (item["calc"], item["mat"], s, t), "large"):
                    return
    elif item["type"] == "all":
        m, n = item["m"], item["n"]
        mat = domain.square(item["mat"], m)
        for s in oracle.states(n, m):
            for t in oracle.states(n - 1, m):
                c = build(item["calc"], mat.copy(), list(s), list(t))
                what = "%s, matrix %s, input %s, output %s" % (item["calc"], item["mat"], s, t)
                res.point()
                if not compare(res, c.compute_permanents(), mat, s, t, what, item["mat"]):
                    return
                if not compare(res, c.compute_permanents(), mat, s, t, what + ", second call", item["mat"]):
                    return
    elif item["type"] == "hist":
        O = ops()
        for seq in itertools.product(range(len(O)), repeat=item["len"] - 1):
            seq = (item["first"],) + seq
            c, prev, hist = None, (None, None, None), []
            kept = []
            for k in seq:
                name, s, t = O[k]
                mat = domain.square(name, len(s))
                if c is None or item["how"] == "fresh":
                    if item["how"] == "late":
                        c = build(item["calc"], mat.copy())
                        c.input_state, c.output_state = list(s), list(t)
                    else:
                        c = build(item["calc"], mat.copy(), list(s), list(t))
                else:
                    if (name, len(s)) != prev[0]:
                        c.matrix = mat.copy()
                    if s != prev[1]:
                        c.input_state = tuple(s)
                    if t != prev[2]:
                        c.output_state = np.array(t)
                prev = ((name, len(s)), s, t)
                hist.append(O[k])
                res.point()
                got = c.compute_permanents()
                if not compare(res, got, mat, s, t, "%s after history %s" % (item["calc"], hist)):
                    return
                kept.append((got, [complex(x) for x in got], hist[-1]))
            for got, was, h in kept:
                if [complex(x) for x in got] != was:
                    res.violate("%s: result of %s changed by later computations %s" % (item["calc"], h, hist))
                    return
    elif item["type"] == "inplace":
        for n in (2, 3):
            si, so = oracle.states(n, 3), oracle.states(n - 1, 3)
            a = domain.square("cplx", 3).astype(complex)
            c = build(item["calc"], a, list(si[0]), list(so[0]))
            bi, bo = np.array(si[0]), np.array(so[0])
            for s in si:
                for t in so:
                    for name in ("cplx", "cplx2", "cplx~", "cplx^T"):
                        a[:] = domain.square(name, 3)
                        bi[:], bo[:] = s, t
                        c.matrix, c.input_state, c.output_state = a, bi, bo
                        res.point()
                        if not compare(res, c.compute_permanents(), a, s, t, "%s with refilled arrays, matrix %s, input %s, output %s" % (item["calc"], name, s, t)):
                            return
    elif item["type"] == "cont":
        for mm in (domain.square("cplx", 3), domain.square("int", 3)):
            for s in oracle.states(item["n"], 3):
                for t in oracle.states(item["n"] - 1, 3):
                    c = build(
                        item["calc"],
                        domain.contain_matrix(mm, item["mk"]),
                        domain.contain(s, item["ck"]),
                        domain.contain(t, item["ok"]),
                    )
                    res.point()
                    if not compare(
                        res, c.compute_permanents(), mm, s, t,
                        "%s with %s matrix, %s input %s, %s output %s" % (item["calc"], item["mk"], item["ck"], s, item["ok"], t),
                    ):
                        return


def items(tier):
    deep = tier == "thorough"
    out = []
    lim = {1: 14, 2: 10, 3: 7, 4: 5, 5: 4, 6: 4, 7: 3} if deep else {1: 12, 2: 9, 3: 6, 4: 4, 5: 4, 6: 3}
    for calc in CALCS:
        for m in lim:
            for n in range(1, lim[m] + 1):
                for mat in MATS if n <= 4 else MATS[:2] + ("qft", "canc", "tri"):
                    out.append(dict(type="all", calc=calc, m=m, n=n, mat=mat))
        for m, n in ((4, 5), (7, 3)):
            for mat in MATS[:2] + (("qft",) if m == 4 else ()):
                if not deep:
                    out.append(dict(type="all", calc=calc, m=m, n=n, mat=mat))
        for m, n in LARGE + (((2, 20), (3, 9), (5, 5), (8, 3)) if deep else ()):
            for mat in LARGE_MATS:
                out.append(dict(type="large", calc=calc, m=m, n=n, mat=mat))
        for first in range(len(ops())):
            for how in ("early", "late", "fresh"):
                out.append(dict(type="hist", calc=calc, first=first, how=how, len=4 if deep and how == "early" else 3))
        out.append(dict(type="inplace", calc=calc))
        for ck in ("list", "tuple", "array", "ro", "i4", "view", "npint"):
            for ok in ("list", "tuple", "array", "i4", "npint"):
                for mk in ("array", "list", "tuple", "fortran", "ro"):
                    for n in (1, 2, 3):
                        out.append(dict(type="cont", calc=calc, ck=ck, ok=ok, mk=mk, n=n))
    return out
