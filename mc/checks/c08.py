"""C08: general BOBS with approximated modes."""

from .. import domain, oracle
from ..harness import run_law_item

MATS = ("mid", "part", "uni:0.5:gen", "u:gen", "rank", "uni:0.36:bs", "blk", "u:qft")
BOUNDS = {
    "quick": "m<=3; n<=3 (m=2), n<=2 (m=3, plus (1,1,1) with k=3); every k in -1..m+1; all occupations; 8 matrix families; m=4,5 with n=1, m=4 with n=2 and k<=2; losses within 1e-5 of 0 and 1; n<=5 in 1-2 modes and m<=12 for permutations; phases: exact quadrature",
    "thorough": "as quick with n<=4 (m=2), n<=3 (m=3), m=4 n<=1",
}


def run(item, res):
    run_law_item(item, res)


def _add(out, mat, s, k, **kw):
    kw.setdefault("cpu", 1)
    out.append(dict(kind="bobs", mat=mat, s=list(s), p=dict(k=k, threads=kw.pop("threads", 1)), **kw))


def items(tier):
    out = []
    deep = tier == "thorough"
    lim = {1: 3, 2: 4, 3: 3, 4: 1} if deep else {1: 3, 2: 3, 3: 2}
    for m in lim:
        for n in range(lim[m] + 1):
            for s in oracle.states(n, m):
                for k in range(-1 if m == 2 else 1, m + 2):
                    if k > m and m != 2:
                        continue
                    if n == 0 and not (m == 2 and k in (1, 2)):
                        continue
                    for mat in MATS:
                        if n + m >= 5 and not deep and mat in ("blk", "u:qft", "uni:0.36:bs"):
                            continue
                        _add(out, mat, s, k)
    for s in oracle.states(1, 4) + oracle.states(1, 5):
        for k in range(1, len(s) + 1):
            for mat in ("u:gen", "mid", "uni:0.5:gen") if len(s) == 4 else ("u:gen",):
                _add(out, mat, s, k)
    for s in oracle.states(2, 4):
        for k in (1, 2):
            _add(out, "u:gen", s, k)
            _add(out, "u:rev", s, k)
    # crowded and wide
    for s in ((4,), (5,), (0, 4), (2, 2), (1, 4)):
        for k in (0, 1):
            for mat in ("u:perm", "uni:0.5:id") if len(s) == 1 or sum(s) == 4 and k == 1 else ("u:perm",):
                _add(out, mat, s, k)
    for m in (6, 7, 8, 12):
        for k in (0, 1, 2):
            _add(out, "u:rev", (1,) + (0,) * (m - 2) + (1,), k)
            _add(out, "u:rev", (0,) * (m - 1) + (3,), k)
            _add(out, "uni:0.7:perm", (0,) * (m - 1) + (1,), k)
            _add(out, "mid", (1,) + (0,) * (m - 1), k)
    # three particles and three phases: the least that distinguishes phases of half a turn
    if not deep:
        _add(out, "u:gen", (1, 1, 1), 3)
    for s in ((1, 0), (0, 1), (1, 1), (2, 0)):
        for k in (1, 2):
            for mat in ("near", "near7", "uni:0.9999999:gen", "uni:0.0000001:gen", "uni:0.999:gen", "uni:0.001:qft", "uni:0.99999:gen", "even:1:1e-2:gen2", "even:1:1e-4:gen2", "even:0.5:1e-3:id", "even:0.5:1e-6:gen2", "u:wk2", "u:wk4", "uni:0.7:wk3"):
                _add(out, mat, s, k)
    for s in ((0, 1, 1), (1, 1, 0)):
        for j in (4, 7):
            _add(out, "u:dip%d" % j, s, 1)
    for calc in ("glynn", "chin_huh", "classic"):
        for s in ((1, 1), (2, 0), (0, 1)):
            _add(out, "mid", s, 1, calc=calc, default_n=True)
            _add(out, "mid", s, 2, calc=calc)
    for s in ((1, 1), (2, 0)):
        for ck in ("tuple", "array", "ro", "i4", "view", "npint"):
            for mk in ("list", "tuple", "fortran", "ro"):
                _add(out, "part", s, 1, ck=ck, mk=mk)
    return out


def conform(tier):
    return []
