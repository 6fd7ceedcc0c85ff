"""C11: exactly N independent samples, in every pool and schedule."""

import itertools

from .. import domain, oracle
from ..engine import EngineLimit, Explorer
from ..harness import BadSample, canon_all, run_law_item, short_tb, strategy

BOUNDS = {
    "quick": "10 samplers; N<=3 with joint laws (m=2, n<=2), N<=10 for two-outcome experiments, N=2 with 3 and 4 particles in 12 modes, 1..3 processors, requested threads -1..4, all worker assignments (up to 60 schedules); counts: N<=9, threads -1..5, processors 1..4, all worker assignments; N<=130 (sequential: 200) and up to 1025 for every number of workers 1..16, 61, 100",
    "thorough": "N<=4, up to 500 schedules; counts N<=16 over assignments, N<=400 for every number of workers up to 32",
}
SEQ = ("gcc", "gcc_ma", "gccb", "gcc_ul", "gccb_ul", "lossynet", "fixed", "uniform")
P = dict(gcc_ul=dict(eta=0.6), gccb_ul=dict(eta=0.6), fixed=dict(left=1), uniform=dict(eta=0.6))


def mats(kind):
    return {"lossynet": ("uni:0.5:gen", "mid"), "fixed": ("u:gen", "mid"), "uniform": ("u:gen", "mid"),
            "bobs": ("uni:0.5:gen", "mid", "u:gen")}.get(kind, ("gen",))


def run(item, res):
    if item.get("type") == "count":
        count(item, res)
    else:
        run_law_item(item, res)


# Experiments with a certain outcome, for large N: (input, parameters, outcome)
SURE = dict(
    gcc=((0,), {}, (0,)), gcc_ma=((0,), {}, (0,)), gccb=((0,), {}, (0,)), gcc_ul=((0,), dict(eta=0.6), (0,)),
    gccb_ul=((0,), dict(eta=0.6), (0,)), lossynet=((0,), {}, (0,)), fixed=((1,), dict(left=0), (0,)),
    uniform=((1,), dict(eta=0.0), (0,)), bobs=((0,), dict(k=0), (0,)), ubobs=((0,), dict(k=1, eta=1.0), (0,)),
)


def count(item, res):
    """simulate(state, N) for every N of the list, on one object."""
    kind = item["kind"]
    s, p, sure = SURE[kind]
    p = dict(p, **({"threads": item["threads"]} if kind in ("bobs", "ubobs") else {}))
    name = "u:id" if kind in ("lossynet", "fixed", "uniform", "bobs") else "id"
    mat = domain.lossy(name, 1) if ":" in name else domain.unitary(name, 1)
    ns = list(range(item["to"] + 1)) + item["more"]

    def fn():
        st = strategy(kind, mat.copy(), list(s), "ryser", **p)
        for N in ns:
            x = canon_all(st.simulate(list(s), N), 1)
            if len(x) != N:
                raise BadSample("simulate(%s, %d) returns %d samples" % (s, N, len(x)))
            if any(y != sure for y in x):
                raise BadSample("impossible sample")
            res.point()
        return True

    ex = Explorer(grid=1, cpu_count=item["cpu"], max_executions=50)
    n = 0
    try:
        for vec in ex.schedules(item.get("sched", 1)):
            n += 1
            for w, k, v in ex.executions_of(fn):
                if k == "exc":
                    res.violate("%s, %s processors, %s: %s" % (kind, item["cpu"], p, short_tb(v)), schedule=vec)
                    res.add(ex, n)
                    return
    except EngineLimit as e:
        res.limits.append("%s: %s" % (kind, e))
    res.add(ex, n)


def _add(out, kind, mat, s, N, p=None, **kw):
    out.append(dict(kind=kind, mat=mat, s=list(s), calls=[N], p=dict(P.get(kind, {}), **(p or {})), **kw))


def items(tier):
    deep = tier == "thorough"
    out = []
    sched = 500 if deep else 60
    top = 4 if deep else 3
    # sequential samplers: joint laws
    for kind in SEQ:
        for mat in mats(kind):
            for N in range(top + 1):
                for s in ((1, 0), (0, 1)) if kind not in ("fixed", "uniform") else ((1, 0),):
                    _add(out, kind, mat, s, N)
            if kind != "lossynet":
                for s in ((1, 1), (2, 0), (0, 2)) if kind not in ("fixed", "uniform") else ((1, 1),):
                    _add(out, kind, mat, s, 2)
    # more samples, two outcomes each
    for N in (4, 5, 6, 7, 8, 10):
        for kind in SEQ:
            if kind in ("gcc", "gcc_ma", "gccb"):
                _add(out, kind, "bs", (1, 0), N)
            elif kind in ("gcc_ul", "gccb_ul"):
                _add(out, kind, "id", (1,), N)
            elif kind == "uniform":
                _add(out, kind, "u:id", (1,), N, grid=1)
            else:
                _add(out, kind, "uni:0.5:id", (1,), N, grid=1)
        for threads in (1, 2, 3, 8):
            if N * threads <= 24 or N == 10 and threads == 8:
                _add(out, "bobs", "uni:0.5:id", (1,), N, dict(k=0, threads=threads), cpu=threads, sched=2)
                _add(out, "ubobs", "id", (1,), N, dict(k=1, eta=0.6, threads=threads), cpu=threads, sched=2)
    # certain outcomes reached in every order of the particles, many modes
    for kind in ("gcc", "gcc_ma", "gccb"):
        for k in (3, 4):
            for occ in itertools.combinations((0, 1, 10, 11), k):
                s = [0] * 12
                for i in occ:
                    s[i] += 1
                _add(out, kind, "id", s, 2)
        for s in ((1, 1, 1), (2, 1, 0), (0, 3, 1), (2, 2)):
            _add(out, kind, "perm", s, 2)
            _add(out, kind, "id", s, 3 if sum(s) < 4 else 2)
    # pooled samplers: joint laws over processors, threads, schedules
    for cpu in (1, 2, 3):
        for threads in (-1, 0, 1, 2, 3, 4):
            for N in range(0, top + 1):
                if N == 4 and cpu > 2:
                    continue
                _add(out, "bobs", "uni:0.5:gen", (1, 0), N, dict(k=0, threads=threads), cpu=cpu, sched=sched)
                _add(out, "ubobs", "gen", (1, 0), N, dict(k=2, eta=0.6, threads=threads), cpu=cpu, sched=sched)
                if N <= 2:
                    _add(out, "bobs", "u:gen", (0, 1), N, dict(k=1, threads=threads), cpu=cpu, sched=sched)
                    _add(out, "ubobs", "gen", (1, 0), N, dict(k=1, eta=0.5, threads=threads), cpu=cpu, sched=sched)
    # phases, symmetrisation and losses drawn anew for every sample
    for mat, s, k in (("u:qft", (2, 0), 2), ("u:qft", (1, 1), 2), ("uni:0.5:id", (1, 1), 0), ("diag", (1, 1), 0), ("u:id", (1, 1), 1)):
        _add(out, "bobs", mat, s, 2, dict(k=k, threads=1), cpu=1, sched=1)
    for mat, s, k in (("qft", (2, 0), 0), ("qft", (1, 1), 0), ("id", (1, 1), 2), ("id", (1, 1), 1)):
        for eta in (1.0, 0.5):
            if eta == 1.0 or k:
                _add(out, "ubobs", mat, s, 2, dict(k=k, eta=eta, threads=1), cpu=1, sched=1)
    for mat in ("u:qft", "uni:0.5:qft"):
        _add(out, "fixed", mat, (1, 1), 2, dict(left=2))
        _add(out, "fixed", mat, (1, 1, 1), 2, dict(left=1), grid=2)
    for N in (1, 2):
        for threads in (1, 2):
            _add(out, "bobs", "u:gen", (1, 0), N, dict(k=1, threads=threads), cpu=2, sched=sched)
            _add(out, "ubobs", "gen", (0, 1), N, dict(k=1, eta=0.5, threads=threads), cpu=2, sched=sched)
            _add(out, "ubobs", "gen", (0, 1), N, dict(k=0, eta=0.5, threads=threads), cpu=2, sched=sched)
    # counts: outcomes are certain here
    many = range(0, 17 if deep else 10)
    for N in list(many) + [25]:
        for kind in SEQ:
            if kind in ("fixed", "uniform") and N > 8:  # their phases branch
                continue
            _add(out, kind, "u:id" if kind in ("lossynet", "fixed", "uniform") else "id", (1,), N, dict(eta=1.0) if "eta" in P.get(kind, {}) else None)
        for cpu in (1, 2, 3, 4):
            for threads in (-1, 1, 2, 3, 5):
                _add(out, "bobs", "u:id", (1,), N, dict(k=0, threads=threads), cpu=cpu, sched=2)
                _add(out, "ubobs", "id", (1,), N, dict(k=1, eta=1.0, threads=threads), cpu=cpu, sched=2)
    more = [255, 256, 257, 500, 511, 513, 1000, 1024, 1025]
    for kind in SEQ:
        out.append(dict(type="count", kind=kind, cpu=2, to=200, more=more))
    for kind in ("bobs", "ubobs"):
        for threads in range(1, 33 if deep else 17):
            out.append(dict(type="count", kind=kind, cpu=threads, threads=threads, to=400 if deep else 130, more=more if threads in (1, 2, 3, 7, 8) or deep else []))
        out.append(dict(type="count", kind=kind, cpu=61, threads=-1, to=130, more=[]))
        out.append(dict(type="count", kind=kind, cpu=128, threads=100, to=130, more=[]))
    return out
