"""C01: permanents.  Enumerates matrices x (input, output) pairs x calculators,
and all short histories of setting and computing on one calculator."""

import itertools

import numpy as np

from .. import domain, oracle
from ..harness import calculator, short_tb

CALCS = ("ryser", "glynn", "chin_huh", "classic")
MATS = ("cplx", "int", "imag", "zrow", "ones", "zeros", "big", "tiny", "nano", "giga", "canc", "qft", "id", "tri")
BOUNDS = {
    "quick": "all (s, t) with equal particle numbers: n<=12/9/6/5/4/3/3 for m=1..7 (m=7 and the last n of m=4: 2-3 families); also n<=20 (m=1), 16 (m=2), 7, 6, m<=12 with n=2; 14 matrix families; 4 calculators (classic: n<=7); all histories of 3 configurations out of 12; refilled arrays; 5x4 container kinds",
    "thorough": "n<=14/10/7/5/4/4/3 for m=1..7; histories of 4 configurations",
}


def scale(mat, s, t):
    return abs(oracle.perm_st(np.abs(np.asarray(mat)), s, t)) or 1.0


def terms(mat, s, t):
    """Size of the terms of the permanent formulas (over rows or columns)."""
    a = np.abs(np.asarray(mat)) + 1e-300
    r = np.prod([float(a[i] @ np.array(s)) ** k for i, k in enumerate(t)])
    c = np.prod([float(a[:, j] @ np.array(t)) ** k for j, k in enumerate(s)])
    return 4.0 ** sum(s) * max(r, c)


# Crowded experiments: (modes, particles).  Larger than the accumulated rounding
# errors of inclusion-exclusion formulas (below 1e-12 of the largest term).
LARGE = ((1, 11), (1, 12), (1, 13), (1, 14), (1, 16), (1, 18), (1, 20), (2, 8), (2, 10), (2, 12), (2, 14), (2, 16), (3, 7), (4, 6), (6, 3), (8, 2), (12, 2))
LARGE_MATS = ("cplx", "int", "qft", "id", "iperm", "canc")


def crowded(mat, s, t):
    return 1e-11 * terms(mat, s, t) / 4.0 ** sum(s)


def compare(res, got, mat, s, t, what, tol=1e-9, name=None):
    want = oracle.perm_st(mat, s, t)
    try:
        g = complex(got)
    except Exception:
        res.violate("%s: returned %r" % (what, got))
        return False
    if name == "tri":  # the permanent may be far smaller than the terms of the formulas
        bound = 1e-14 * terms(mat, s, t)
    elif name == "large" or sum(s) >= 2:
        bound = max(crowded(mat, s, t), tol * scale(mat, s, t))
    else:
        bound = tol * scale(mat, s, t)
    if not abs(g - want) <= bound:
        res.violate("%s: returned %.12g%+.12gj, the permanent is %.12g%+.12gj" % (what, g.real, g.imag, want.real, want.imag))
        return False
    return True


def ops():
    """Configurations of the histories: (matrix, input, output), 2 and 3 modes."""
    return [
        ("cplx", (1, 1, 0), (0, 1, 1)),
        ("cplx", (2, 0, 1), (1, 1, 1)),
        ("cplx2", (1, 1, 0), (0, 1, 1)),
        ("cplx", (0, 0, 0), (0, 0, 0)),
        ("cplx2", (0, 0, 2), (2, 0, 0)),
        ("cplx", (1, 0), (0, 1)),
        ("int", (1, 2), (2, 1)),
        ("zrow", (1, 0, 1), (0, 2, 0)),
        ("cplx", (0, 3), (3, 0)),
        ("cplx^T", (2, 0, 1), (1, 1, 1)),
        ("cplx~", (2, 0, 1), (1, 1, 1)),
        ("cplx", (1, 0, 2), (1, 1, 1)),
    ]


def run(item, res):
    t = item["type"]
    if t == "all":
        mat = domain.square(item["mat"], item["m"])
        for s in oracle.states(item["n"], item["m"]):
            for o in oracle.states(item["n"], item["m"]):
                c = calculator(item["calc"], mat.copy(), list(s), list(o))
                got = c.compute_permanent()
                res.point()
                what = "%s, matrix %s, input %s, output %s" % (item["calc"], item["mat"], s, o)
                if not compare(res, got, mat, s, o, what, name=item["mat"]):
                    return
                # again, same object
                if not compare(res, c.compute_permanent(), mat, s, o, what + ", second call", name=item["mat"]):
                    return
    elif t == "large":
        mat = domain.square(item["mat"], item["m"])
        for s in oracle.states(item["n"], item["m"]):
            for o in oracle.states(item["n"], item["m"]):
                c = calculator(item["calc"], mat.copy(), list(s), list(o))
                res.point()
                what = "%s, matrix %s, input %s, output %s" % (item["calc"], item["mat"], s, o)
                if not compare(res, c.compute_permanent(), mat, s, o, what, name="large"):
                    return
    elif t == "hist":
        O = ops()
        for seq in itertools.product(range(len(O)), repeat=item["len"] - 1):
            seq = (item["first"],) + seq
            c = None
            prev = (None, None, None)
            hist = []
            for k in seq:
                name, s, o = O[k]
                mat = domain.square(name, len(s))
                if c is None:
                    if item["how"] == "late":
                        c = calculator(item["calc"], mat.copy())
                        c.input_state, c.output_state = list(s), list(o)
                    else:
                        c = calculator(item["calc"], mat.copy(), list(s), list(o))
                elif item["how"] == "fresh":  # another object in the same process
                    c = calculator(item["calc"], mat.copy(), list(s), list(o))
                else:
                    # set only what differs
                    if (name, len(s)) != prev[0]:
                        c.matrix = mat.copy()
                    if s != prev[1]:
                        c.input_state = tuple(s)
                    if o != prev[2]:
                        c.output_state = np.array(o)
                prev = ((name, len(s)), s, o)
                hist.append(O[k])
                res.point()
                if not compare(res, c.compute_permanent(), mat, s, o, "%s after history %s" % (item["calc"], hist)):
                    return
    elif t == "inplace":
        # the caller's arrays filled anew and set again; results of other objects
        for n in (2, 3):
            sts = oracle.states(n, 3)
            a = domain.square("cplx", 3).astype(complex)
            c = calculator(item["calc"], a, list(sts[0]), list(sts[1]))
            for s in sts:
                for o in sts:
                    for name in ("cplx", "cplx2", "cplx~", "cplx^T"):
                        a[:] = domain.square(name, 3)
                        c.matrix = a
                        if item["how"] == "states":
                            si, so = np.array(sts[0]), np.array(sts[1])
                            c.input_state, c.output_state = si, so
                            c.compute_permanent()
                            si[:], so[:] = s, o
                            c.input_state, c.output_state = si, so
                        else:
                            c.input_state, c.output_state = list(s), list(o)
                        res.point()
                        if not compare(res, c.compute_permanent(), a, s, o, "%s with a refilled array, matrix %s, input %s, output %s" % (item["calc"], name, s, o)):
                            return
    elif t == "cont":
        mat = domain.square("cplx", 3)
        imat = domain.square("int", 3)
        for s in oracle.states(item["n"], 3):
            for o in oracle.states(item["n"], 3):
                for mm in (mat, imat):
                    c = calculator(
                        item["calc"],
                        domain.contain_matrix(mm, item["mk"]),
                        domain.contain(s, item["ck"]),
                        domain.contain(o, item["ok"]),
                    )
                    res.point()
                    if not compare(
                        res, c.compute_permanent(), mm, s, o,
                        "%s with %s matrix, %s input %s, %s output %s"
                        % (item["calc"], item["mk"], item["ck"], s, item["ok"], o),
                    ):
                        return
    elif t == "scat":
        from theboss.boson_sampling_utilities.boson_sampling_utilities import (
            EffectiveScatteringMatrixCalculator as E,
        )

        for name in ("cplx", "int"):
            mat = domain.square(name, item["m"])
            e = None
            for n in range(1, item["n"] + 1):
                for s in oracle.states(n, item["m"]):
                    for o in oracle.states(n, item["m"]):
                        if e is None or (sum(i * k for i, k in enumerate(s)) % 2):
                            e = E(domain.contain_matrix(mat, item["mk"]), list(s), tuple(o))
                        else:
                            e.matrix, e.input_state, e.output_state = mat, np.array(s), list(o)
                        got = np.array(e.calculate(), dtype=complex)
                        cols = [j for j, k in enumerate(s) for _ in range(k)]
                        rows = [i for i, k in enumerate(o) for _ in range(k)]
                        want = mat[np.ix_(rows, cols)]
                        res.point()
                        if got.shape != want.shape or np.max(abs(got - want)) > 1e-12:
                            res.violate("effective scattering matrix of %s, input %s, output %s" % (name, s, o))
                            return


def items(tier):
    deep = tier == "thorough"
    out = []
    lim = {1: 14, 2: 10, 3: 7, 4: 5, 5: 4, 6: 4, 7: 3} if deep else {1: 12, 2: 9, 3: 6, 4: 4, 5: 4, 6: 3}
    for calc in CALCS:
        for m in lim:
            for n in range(min(lim[m], (8 if deep or m == 1 else 7) if calc == "classic" else 99) + 1):
                for mat in MATS if n <= 4 else MATS[:2] + ("qft", "canc", "tri"):
                    out.append(dict(type="all", calc=calc, m=m, n=n, mat=mat))
        for m, n in ((4, 5), (7, 3)):
            for mat in MATS[:2] + (("qft",) if m == 4 else ()):
                if not deep:
                    out.append(dict(type="all", calc=calc, m=m, n=n, mat=mat))
        for m, n in LARGE + (((2, 20), (3, 9), (5, 5), (8, 3)) if deep else ()):
            if n > {"classic": 6, "glynn": 13}.get(calc, 99) or (m, n) == (2, 12) and calc == "glynn":
                continue
            for mat in LARGE_MATS:
                out.append(dict(type="large", calc=calc, m=m, n=n, mat=mat))
        for first in range(len(ops())):
            for how in ("early", "late", "fresh"):
                out.append(dict(type="hist", calc=calc, first=first, how=how, len=4 if deep and how == "early" else 3))
        for how in ("matrix", "states"):
            out.append(dict(type="inplace", calc=calc, how=how))
        for ck in ("list", "tuple", "array", "ro", "i4", "view", "npint"):
            for ok in ("list", "tuple", "array", "i4", "npint"):
                for mk in ("array", "list", "tuple", "fortran", "ro"):
                    for n in (0, 2, 3):
                        out.append(dict(type="cont", calc=calc, ck=ck, ok=ok, mk=mk, n=n))
    for m in (1, 2, 3):
        for mk in ("array", "list", "tuple"):
            out.append(dict(type="scat", m=m, n=3, mk=mk))
    return out
