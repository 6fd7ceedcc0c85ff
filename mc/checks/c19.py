"""C19: boundary values of the random generators.

Every uniform draw may be exactly 0, the largest float below 1 or an ordinary
value (which then splits as usual); all placements of up to two (three) boundary
draws on every execution are enumerated.
"""

from .. import domain
from ..engine import EngineLimit, Explorer
from ..harness import law_item_fn, oracle_law, short_tb

BOUNDS = {
    "quick": "10 samplers; all inputs m<=3, n<=3 (n<=2 for the costly ones), permutation-like, generic, lossy and totally lossy matrices, transmissivities 0, 0.5, 1; up to 2 boundary draws (0 or 1-2^-53) at all places of every execution",
    "thorough": "m<=4, n<=4, up to 3 boundary draws, two samples per call",
}
EXACT = ("id", "perm", "iperm", "u:id", "u:perm", "u:iperm", "zero")


def run(item, res):
    fn, mat, p = law_item_fn(item)
    law = oracle_law(item["kind"], mat, item["s"], **p)
    n, m = int(sum(item["s"])), len(item["s"])
    possible = {k for k, v in law.items() if v > 1e-12}
    totals = {sum(k) for k in possible}
    exact = item["exact"]
    if item["kind"] in ("lossynet", "bobs") and not exact:
        # The decomposition of a lossless matrix leaves losses of the order of the
        # rounding errors; a boundary draw may hit them.
        totals |= set(range(max(totals)))
    what = "%s %s s=%s %s with boundary draws" % (item["kind"], item["mat"], tuple(item["s"]), p)
    ex = Explorer(
        grid=1, cpu_count=item.get("cpu", 1), boundary_budget=item["budget"],
        min_weight=1e-15, max_executions=item.get("maxex", 200000),
    )
    nsched = 0
    try:
        for vec in ex.schedules(2):
            nsched += 1
            for w, kind, v in ex.executions_of(fn):
                tape = [l for l in zip(ex.labels, ex.path) if l[1] and l[0] == "boundary"]
                path = [str(x) for x in zip(ex.labels, ex.path)]
                if kind == "exc":
                    return res.violate("%s: raised %s" % (what, short_tb(v)), path=path)
                for x in v:
                    bad = x not in possible if exact else sum(x) not in totals
                    if bad:
                        return res.violate("%s: impossible sample %s (boundary draws %s)" % (what, x, tape), path=path)
            if ex.endless > 0:
                return res.violate("%s: does not terminate" % what)
            if len(res.samples) < 1:
                res.samples.append(dict(what=what, executions=ex.executions))
    except EngineLimit as e:
        res.limits.append("%s: %s" % (what, e))
    res.add(ex, nsched)


def items(tier):
    deep = tier == "thorough"
    out = []
    budget = 3 if deep else 2

    def add(kind, mat, s, exact=None, calls=(1,), **p):
        out.append(dict(kind=kind, mat=mat, s=list(s), p=p, budget=budget, calls=list(calls),
                        exact=(mat in EXACT) if exact is None else exact))

    top_m, top_n = (4, 4) if deep else (3, 3)
    for s in domain.all_states(top_m, top_n):
        n, m = sum(s), len(s)
        small = n <= (3 if deep else 2) and m <= (3 if deep else 2)
        for mat in ("id", "perm", "iperm", "gen", "bs"):
            if mat in ("gen", "bs") and n > 2 and not deep:
                continue
            for kind in ("gcc", "gcc_ma", "gccb"):
                if kind == "gccb" and n * m > 9 and mat in ("gen", "bs"):
                    continue
                add(kind, mat, s)
            for kind in ("gcc_ul", "gccb_ul"):
                for eta in (0.0, 0.5, 1.0):
                    if n > 2 and mat in ("gen", "bs"):
                        continue
                    add(kind, mat, s, eta=eta)
        if n <= (3 if deep else 2):
            for mat in ("u:id", "u:perm", "u:iperm", "zero", "u:gen", "uni:0.5:gen", "mid", "rank"):
                if mat not in EXACT and not small:
                    continue
                add("lossynet", mat, s)
                for k in range(m + 1):
                    if k > 1 and not small:
                        continue
                    add("bobs", mat, s, exact=(mat in EXACT and k <= 1) or mat == "zero", k=k)
            for mat in ("id", "perm", "iperm", "gen"):
                if mat == "gen" and not small:
                    continue
                for eta in (0.0, 0.5, 1.0):
                    for k in range(m + 1):
                        if m - k > 1 and not small:
                            continue
                        add("ubobs", mat, s, exact=(mat in EXACT and m - k <= 1) or eta == 0, eta=eta, k=k)
        collision_free = s == (1,) * n + (0,) * (m - n)
        if collision_free and n <= 3:
            for mat in ("u:id", "u:perm", "zero", "u:gen", "uni:0.5:gen", "mid", "rank"):
                for left in range(n + 1):
                    add("fixed", mat, s, left=left)
                for eta in (0.0, 0.5, 1.0):
                    add("uniform", mat, s, eta=eta)
    # rounding of the loss probabilities: many transmissivities and particle numbers
    for i in range(1, 20):
        eta = round(0.05 * i, 2)
        for n in range(1, 6 if deep else 5):
            s = (n,)
            if n <= 3 or i % 2 == 0:
                add("gcc_ul", "id", s, eta=eta)
                add("gccb_ul", "id", s, eta=eta)
                add("ubobs", "id", s, eta=eta, k=1)
                add("bobs", "uni:%s:id" % eta, s, exact=True, k=0)
                add("uniform", "u:id", (1,) * n, exact=False, eta=eta) if n <= 2 else None
    for kind, mat, p in (
        ("gcc", "perm", {}), ("gcc_ma", "perm", {}), ("gccb", "perm", {}), ("gcc_ul", "perm", dict(eta=0.5)),
        ("gccb_ul", "perm", dict(eta=0.5)), ("lossynet", "u:perm", {}), ("bobs", "u:perm", dict(k=1)),
        ("ubobs", "perm", dict(eta=0.5, k=1)), ("fixed", "u:perm", dict(left=1)), ("uniform", "u:perm", dict(eta=0.5)),
    ):
        add(kind, mat, (1, 1), calls=(2,), **p)
        add(kind, mat, (1, 0), calls=(1, 1), **p)
    return out
