"""C06: laws of the uniform-loss Clifford & Clifford samplers (A and B)."""

from .. import domain, oracle
from ..harness import run_law_item

KINDS = ("gcc_ul", "gccb_ul")
ETAS = (0.0, 0.31415926, 0.5, 0.85432167, 1.0)
BOUNDS = {
    "quick": "m<=4; A: n<=6/4/3/2 for m=1/2/3/4, B: n<=5/4/3/2; all occupations; eta in {0, .314..., .5, .854..., 1}; unitaries gen, id, perm, qft, bs, real; 4 calculators; eta within 1e-6 of 0 and 1; joint laws of 2 samples for n<=3; permutations up to m=6, n=12",
    "thorough": "m<=4; A: n<=7/6/4/3, B: n<=6/5/3/3",
}


def run(item, res):
    run_law_item(item, res)


def _add(out, kind, mat, s, eta, **k):
    out.append(dict(kind=kind, mat=mat, s=list(s), p=dict(eta=eta), **k))


def items(tier):
    out = []
    deep = tier == "thorough"
    for kind in KINDS:
        for m in (1, 2, 3, 4):
            lim = {1: 6, 2: 4, 3: 3, 4: 2} if kind == "gcc_ul" else {1: 5, 2: 4, 3: 3, 4: 2}
            if deep:
                lim = {1: 7, 2: 6, 3: 4, 4: 3} if kind == "gcc_ul" else {1: 6, 2: 5, 3: 3, 4: 3}
            for n in range(lim[m] + 1):
                for s in oracle.states(n, m):
                    for eta in ETAS:
                        if n == 3 and m == 3 and eta in (0.0, 1.0) and not deep:
                            if max(s) == 3:
                                continue
                        _add(out, kind, "gen", s, eta)
    for kind in KINDS:
        for s in ((1, 1), (2, 0), (3,), (0, 1), (1, 0, 1)):
            for eta in (0.999, 0.001, 1 - 1e-6, 1e-6, 1 - 1e-7, 1e-7):
                _add(out, kind, "gen", s, eta)
            for k in (1, 2, 3, 4):
                _add(out, kind, "wk%d" % k, s, 0.6)
                _add(out, kind, "wk%d" % k, s, 0.99)
        for s in ((1, 1, 0), (1, 0, 1), (2, 1, 0)):
            for k in (4, 5, 6, 7, 8):
                if sum(s) < 3 or k == 7:
                    _add(out, kind, "dip%d" % k, s, 0.9)
        for s in ((1, 1, 1, 1), (2, 0, 3, 0), (0, 0, 0, 0, 3), (0, 1, 0, 1, 0, 1), (4, 1), (0, 5)):
            for mat in ("rev", "perm"):
                if kind == "gcc_ul" or sum(s) <= 4:
                    _add(out, kind, mat, s, 0.7)
        for s in ((6, 1), (1, 6), (7, 0)):
            if kind == "gcc_ul":
                _add(out, kind, "bs", s, 0.8)
        for n in (8, 9, 10, 12):
            if kind == "gcc_ul":
                _add(out, kind, "gen", (n,), 0.6)
                if n < 11:
                    _add(out, kind, "rev", (0, n), 0.35)
        for s in ((2, 1), (1, 2), (3, 0), (1, 1, 1)):
            if kind == "gcc_ul":
                _add(out, kind, "gen", s, 0.45, calls=[2])
            _add(out, kind, "id", s, 0.45, calls=[2])
        for s in domain.all_states(3, 2, min_m=2) + [(2, 1), (1, 2), (0, 3), (1, 1, 1)]:
            for mat in ("id", "perm", "qft", "bs", "real"):
                _add(out, kind, mat, s, 0.4)
        for calc in ("glynn", "chin_huh", "classic"):
            for s in domain.all_states(3, 2, min_m=2) + [(2, 1), (3, 0)]:
                _add(out, kind, "gen2", s, 0.65, calc=calc, default_n=True)
        for s in ((2, 0, 1), (0, 1, 1), (1, 1), (0, 0), (3,)):
            for ck in ("tuple", "array", "ro", "i4", "view", "npint"):
                for mk in ("list", "tuple", "fortran", "ro"):
                    _add(out, kind, "gen", s, 0.7, ck=ck, mk=mk, newmat=(mk == "list"))
        for s in ((1, 1), (2, 0), (0, 1), (0, 2)):
            for eta in (0.35, 1.0):
                _add(out, kind, "gen", s, eta, calls=[1, 1])
                _add(out, kind, "gen", s, eta, calls=[2])
    return out


def conform(tier):
    out = []
    for kind in KINDS:
        for s in ((1, 1), (2, 1), (1, 0, 1), (0, 2)):
            for eta in (0.4, 1.0):
                _add(out, kind, "gen1", s, eta)
    return out
