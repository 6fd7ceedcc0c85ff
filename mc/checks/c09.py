"""C09: uniform-loss BOBS."""

from .. import domain, oracle
from ..harness import run_law_item

BOUNDS = {
    "quick": "m<=3; n<=3 (m=2), n<=2 (m=3, plus (1,1,1)); every level k in 0..m; eta in {0, 1e-7, 1e-3, .414..., .754..., .999, 1-1e-5, 1-1e-7, 1}; m=4,5 with n=1, m=4 with n=2 and k>=2; all occupations; n<=5 in 1-2 modes and m<=12 for permutations; phases: exact quadrature",
    "thorough": "n<=4 (m=2), n<=3 (m=3), m=4 n<=1",
}
ETAS = (0.41415926, 1.0, 0.75432167, 0.0)


def run(item, res):
    run_law_item(item, res)


def _add(out, mat, s, k, eta, **kw):
    kw.setdefault("cpu", 1)
    out.append(
        dict(kind="ubobs", mat=mat, s=list(s), p=dict(k=k, eta=eta, threads=kw.pop("threads", 1)), **kw)
    )


def items(tier):
    out = []
    deep = tier == "thorough"
    lim = {1: 3, 2: 4, 3: 3, 4: 1} if deep else {1: 3, 2: 3, 3: 2}
    for m in lim:
        for n in range(lim[m] + 1):
            for s in oracle.states(n, m):
                for k in range(0, m + 1):
                    for eta in ETAS:
                        if n + m >= 5 and eta in (0.0, 0.75) and not deep:
                            continue
                        _add(out, "gen", s, k, eta)
                    if n + m < 5 or deep:
                        for mat in ("id", "perm", "qft", "bs", "real"):
                            _add(out, mat, s, k, 0.6)
    for k in range(0 if deep else 1, 4):
        _add(out, "gen", (1, 1, 1), k, 0.5)
        _add(out, "gen", (2, 0, 1), k, 0.5)
    for s in oracle.states(1, 4) + oracle.states(1, 5):
        for k in range(len(s) + 1):
            for eta in (0.3, 1.0) if len(s) == 4 and k else (0.6,):
                if len(s) == 5 and k < 2:
                    continue
                _add(out, "gen", s, k, eta)
    for s in oracle.states(2, 4):
        for k in (2, 3, 4):
            _add(out, "gen", s, k, 0.5 if k == 3 else 1.0)
            _add(out, "rev", s, k, 0.6)
    # crowded and wide
    for s in ((4,), (5,), (4, 0), (2, 2), (4, 1)):
        for k in range(len(s) + 1):
            if k or len(s) == 1:
                _add(out, "perm", s, k, 0.5)
                _add(out, "perm", s, k, 1.0)
    for m in (6, 7, 8, 12):
        for k in (m, m - 1, m - 2):
            _add(out, "rev", (1,) + (0,) * (m - 2) + (1,), k, 0.7)
            _add(out, "rev", (3,) + (0,) * (m - 1), k, 0.6)
            _add(out, "gen", (0,) * (m - 1) + (1,), k, 0.7)
            _add(out, "gen", (0, 1) + (0,) * (m - 2), k, 1.0)
    for s in ((1, 0), (0, 1), (1, 1), (0, 2), (2, 1)):
        for k in (0, 1, 2):
            for eta in (0.999, 0.001, 1 - 1e-5, 1 - 1e-7, 1e-7):
                _add(out, "gen", s, k, eta)
            for j in (2, 3, 4):
                _add(out, "wk%d" % j, s, k, 0.7)
    for s in ((1, 1, 0), (1, 0, 1)):
        for k in (2, 3):
            for j in (4, 5, 6, 7, 8):
                _add(out, "dip%d" % j, s, k, 0.9)
    for calc in ("glynn", "chin_huh", "classic"):
        for s in ((1, 1), (2, 0), (0, 1)):
            for k in range(3):
                _add(out, "gen2", s, k, 0.7, calc=calc, default_n=True)
    for s in ((1, 1), (2, 0)):
        for ck in ("tuple", "array", "ro", "i4", "view", "npint"):
            for mk in ("list", "tuple", "fortran", "ro"):
                _add(out, "gen", s, 1, 0.8, ck=ck, mk=mk)
    return out


def conform(tier):
    return []
