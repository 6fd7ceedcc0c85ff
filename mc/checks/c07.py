"""C07: exact law of lossy networks: lossy-network sampler, BOBS with k = 0."""

from .. import domain, oracle
from ..harness import run_law_item

MATS = (
    "mid", "in", "out", "part", "rank", "diag", "blk",
    "uni:0.5:gen", "uni:0.81:id", "u:gen", "u:perm", "zero",
)
EVEN = tuple("even:%s:%s:%s" % (e, d, u) for e in ("1", "0.5") for d in ("1e-2", "1e-3", "1e-5", "1e-7") for u in ("gen2", "id"))
BOUNDS = {
    "quick": "n<=4/3/3/2 for m=1..4; all occupations; uniform, input, output, middle, partial, total losses, lossless, losses within 1e-5 of 0 and 1; losses uneven by 1e-2 .. 1e-7; permutations and diagonal losses up to m=5; n<=5 in 1-2 modes, m<=12 with n<=3 for permutations, n=1 for lossy networks",
    "thorough": "n<=5/4/3/2 for m=1..4",
}


def run(item, res):
    run_law_item(item, res)


def _add(out, kind, mat, s, **k):
    p = dict(k=k.pop("k", 0), threads=1) if kind == "bobs" else {}
    out.append(dict(kind=kind, mat=mat, s=list(s), p=p, **k))


def items(tier):
    out = []
    deep = tier == "thorough"
    lim = {1: 5, 2: 4, 3: 3, 4: 2} if deep else {1: 4, 2: 3, 3: 3, 4: 2}
    for m in lim:
        for n in range(lim[m] + 1):
            for s in oracle.states(n, m):
                for mat in MATS:
                    if n >= 3 and m >= 2 and not deep and mat in ("diag", "out", "u:perm", "uni:0.81:id"):
                        continue
                    _add(out, "lossynet", mat, s, newmat=(sum(s) + len(mat)) % 2 == 0)
                    if mat == "rank" and m == 1 or mat == "zero":
                        if n == 0:
                            continue
                    _add(out, "bobs", mat, s, cpu=1)
    for m, n in ((1, 1), (1, 3), (2, 1), (2, 2), (3, 1)):
        for s in oracle.states(n, m):
            for mat in ("near", "near7", "uni:0.9999999:gen", "uni:0.0000001:gen", "uni:0.999:gen", "uni:0.001:gen", "uni:0.99999:id", "uni:0.00001:rev", "u:wk2", "u:wk4", "uni:0.7:wk3"):
                _add(out, "lossynet", mat, s, newmat=True)
                _add(out, "bobs", mat, s, cpu=1)
    for s in ((1, 1, 0), (1, 0, 1)):
        for k in (4, 5, 6, 7, 8):
            for mat in ("u:dip%d" % k, "uni:0.8:dip%d" % k):
                _add(out, "lossynet", mat, s, newmat=True)
                if k in (4, 7):
                    _add(out, "bobs", mat, s, cpu=1)
    for m, n in ((2, 1), (2, 2), (3, 1)):
        for s in oracle.states(n, m):
            for mat in EVEN:
                _add(out, "lossynet", mat, s, newmat=True)
                _add(out, "bobs", mat, s, cpu=1)
    for s in ((1, 0, 1, 1), (0, 2, 0, 1), (0, 0, 0, 0, 2), (1, 0, 0, 0, 1)):
        for mat in ("u:rev", "diag", "uni:0.6:perm"):
            if sum(s) == 3 and mat != "u:rev":
                continue
            _add(out, "lossynet", mat, s)
            _add(out, "bobs", mat, s, cpu=1)
    # crowded and wide
    for s in ((4,), (5,), (2, 2), (0, 4), (3, 2)):
        for mat in ("u:perm", "uni:0.5:id") if len(s) == 1 else ("u:perm",):
            _add(out, "lossynet", mat, s, newmat=True)
            _add(out, "bobs", mat, s, cpu=1)
    for m in (6, 7, 8, 9, 12):
        for s in ((1,) + (0,) * (m - 2) + (1,), (0,) * (m - 1) + (3,), (0, 1, 1) + (0,) * (m - 4) + (1,)):
            _add(out, "lossynet", "u:rev", s, newmat=m == 7)
            _add(out, "bobs", "u:perm", s, cpu=1)
        for s in ((1,) + (0,) * (m - 1), (0,) * (m - 1) + (1,)):
            for mat in ("mid", "diag", "part"):
                _add(out, "lossynet", mat, s, newmat=m == 7)
                _add(out, "bobs", mat, s, cpu=1)
    for s in ((1, 1), (0, 2), (2, 0)):
        for mat in ("u:gen", "diag"):
            _add(out, "lossynet", mat, s, calls=[2])
    # matrix set later; the first matrix must leave no trace
    for s in ((1, 1), (2, 0), (0, 1), (1, 0, 1)):
        for a in ("u:gen", "mid", "zero"):
            for b in ("part", "uni:0.5:gen", "u:real"):
                _add(out, "lossynet", b, s, first=a)
    for kind in ("lossynet", "bobs"):
        for calc in ("glynn", "chin_huh", "classic"):
            for s in domain.all_states(2, 2, min_m=2):
                _add(out, kind, "mid", s, calc=calc, default_n=True, cpu=1)
        for s in ((1, 1), (0, 2), (1, 0, 1)):
            for ck in ("tuple", "array", "ro", "i4", "view", "npint"):
                for mk in ("list", "tuple", "fortran", "ro"):
                    _add(out, kind, "part", s, ck=ck, mk=mk, cpu=1)
    for k in (-1, -3):
        for s in ((1, 1), (2, 1)):
            _add(out, "bobs", "mid", s, k=k, cpu=1)
    return out


def conform(tier):
    out = []
    for s in ((1, 1), (2, 1), (1, 0, 1)):
        for mat in ("mid", "part", "uni:0.5:gen", "u:gen"):
            _add(out, "lossynet", mat, s)
    return out
