"""C05: laws of GCC (A), its mode-assignment variant and GCC (B)."""

from .. import domain, oracle
from ..harness import run_law_item

BIG = (
    (1, 1, 1, 1, 1), (2, 0, 3, 0, 1, 0), (0, 0, 0, 0, 4, 0, 1), (1, 0, 1, 0, 1, 0, 1, 0),
    (0, 1, 1, 0, 0, 1, 0, 1), (5, 1), (0, 2, 4), (3, 3), (1, 2, 3), (0, 0, 0, 0, 0, 0, 0, 1),
    (1, 1, 1, 1, 1, 1), (0,) * 9 + (2, 1), (7, 1), (0, 1, 7),
)
KINDS = ("gcc", "gcc_ma", "gccb")
CALCS = ("ryser", "glynn", "chin_huh", "classic")
BOUNDS = {
    "quick": "m<=4; n<=3 (A: m=2 n<=7, m=3 n<=4; B: m=2 n<=4); all occupations; unitaries id, perm, qft, bs, real, gen; 4 calculators; joint laws of 2 samples for n<=5 (m=2), n<=3 (m=3); permutations and single beam splitters up to m=11, n=20; couplings of 1e-1 .. 1e-4; one entry of 1e-3 .. 1e-8",
    "thorough": "m<=5; A: n<=9/6/4/3 for m=2/3/4/5, B: n<=6/4/4/3",
}


def run(item, res):
    run_law_item(item, res)


def _add(out, kind, mat, s, **k):
    out.append(dict(kind=kind, mat=mat, s=list(s), **k))


def items(tier):
    out = []
    deep = tier == "thorough"
    mats = ["gen", "id", "perm", "qft", "bs", "real"]
    for kind in KINDS:
        for m in (1, 2, 3, 4) + ((5,) if deep else ()):
            if kind == "gccb":
                lim = {1: 5, 2: 4, 3: 3, 4: 3, 5: 2}[m]
                if deep:
                    lim = {1: 6, 2: 6, 3: 4, 4: 4, 5: 3}[m]
            else:
                lim = {1: 6, 2: 7, 3: 4, 4: 3, 5: 2}[m]
                if deep:
                    lim = {1: 8, 2: 9, 3: 6, 4: 4, 5: 3}[m]
            for n in range(lim + 1):
                for s in oracle.states(n, m):
                    names = mats if (n <= 3 or deep) and m <= 3 else mats[:1] + ["bs"]
                    for mat in names:
                        _add(out, kind, mat, s)
    # wide and crowded experiments whose outcome is certain or nearly so
    for kind in KINDS:
        for s in BIG:
            for mat in ("perm", "rev", "bs2") if sum(s) <= 4 or kind != "gccb" else ("rev",):
                if kind == "gccb" and sum(s) > 6 or kind != "gccb" and s == (1,) * 6 and not deep:
                    continue
                _add(out, kind, mat, s)
        for n in (8, 9, 10, 12, 15, 20):
            if kind != "gccb":
                _add(out, kind, "gen", (n,))
                _add(out, kind, "rev", (0, n))
                _add(out, kind, "id", (n - 1, 1))
    # improbable outcomes
    for kind in KINDS:
        for s in ((1, 0), (1, 1), (2, 0), (2, 1), (0, 1, 1), (1, 0, 1), (1, 1, 1)):
            for k in (1, 2, 3, 4):
                _add(out, kind, "wk%d" % k, s)
        for s in ((1, 1, 0), (1, 0, 1), (2, 1, 0), (1, 1, 1)):
            for k in (3, 4, 5, 6, 7, 8):
                if sum(s) < 3 or k in (4, 7):
                    _add(out, kind, "dip%d" % k, s)
    # several samples of one call share what the sampler has computed
    for kind in ("gcc", "gcc_ma"):
        for s in [t for n in (3, 4, 5) for t in oracle.states(n, 2)] + [(1, 1, 1), (2, 0, 1), (0, 1, 2), (3, 0, 0)]:
            _add(out, kind, "gen", s, calls=[2])
            if kind == "gcc_ma" or sum(s) == 4:
                _add(out, kind, "real", s, calls=[2])
        for s in ((1, 2), (3, 0), (2, 1)):
            _add(out, kind, "gen", s, calls=[3])
            _add(out, kind, "gen", s, calls=[1, 2])
        for occ in ((0, 1, 10), (1, 2, 11), (0, 1, 11), (0, 10, 11)):
            s = [0] * 12
            for i in occ:
                s[i] = 1
            _add(out, kind, "id", s, calls=[2])
    for s in ((1, 2), (3, 0), (2, 1), (1, 1, 1)):
        _add(out, "gccb", "bs", s, calls=[2])
        _add(out, "gccb", "id", s, calls=[1, 2])
    # permanent calculators, containers, default sample number, new matrix
    for kind in KINDS:
        for calc in CALCS[1:]:
            for s in domain.all_states(3, 3, min_m=2, min_n=0):
                if kind != "gccb" or sum(s) < 3:
                    _add(out, kind, "gen2", s, calc=calc, default_n=True)
        for s in ((2, 0, 1), (0, 1, 1), (1, 1), (0, 0), (3,)):
            for ck in ("tuple", "array", "ro", "i4", "view", "npint"):
                for mk in ("list", "tuple", "fortran", "ro"):
                    _add(out, kind, "gen", s, ck=ck, mk=mk, newmat=(mk == "list"))
            _add(out, kind, "iperm", s)
        # two calls and two samples: constant seeds or shared state show here
        for s in ((1, 1), (2, 0), (0, 1)):
            _add(out, kind, "gen", s, calls=[1, 1])
            _add(out, kind, "gen", s, calls=[2])
    return out


def conform(tier):
    out = []
    for kind in KINDS:
        for s in ((1, 1), (2, 1), (1, 0, 1), (0, 2, 1), (1, 1, 1, 0)):
            _add(out, kind, "gen1", s)
    return out
