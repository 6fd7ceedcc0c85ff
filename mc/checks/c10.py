"""C10: the mean-field samplers (fixed and uniform loss)."""

import itertools

import numpy as np

from .. import domain, oracle
from ..engine import EngineLimit, Explorer
from ..harness import run_law_item

MATS = ("u:gen", "u:id", "u:perm", "u:qft", "u:bs", "u:real", "mid", "in", "out", "part", "rank", "uni:0.5:gen", "diag", "zero")
BOUNDS = {
    "quick": "m<=4; collision-free inputs of n<=3 particles in the first n modes; l<=n (l<=8 for n=1,2); 17 matrix families; n<=6, m<=7 with l<=2; network models default, lossless, lossy; phases: exact quadrature",
    "thorough": "m<=5, n<=4",
}
ETAS = (0.0, 0.31415926, 0.5, 0.85432167, 1.0)


def run(item, res):
    if item.get("type") == "phi":
        return run_phi(item, res)
    run_law_item(item, res)


def run_phi(item, res):
    """The one-particle states handed to a network model of the caller: equal moduli on
    the first n modes, and all moments of the relative phases vanish."""
    from theboss.network_simulation_strategy.network_simulation_strategy import NetworkSimulationStrategy
    from theboss.simulation_strategies.fixed_loss_simulation_strategy import FixedLossSimulationStrategy

    m, n, top = item["m"], item["n"], item["top"]
    what = "one-particle state of %d particles in %d modes" % (n, m)
    seen = []

    class Recorder(NetworkSimulationStrategy):
        def simulate(self, input_state):
            seen.append(np.array(input_state, dtype=complex).reshape(-1))
            return np.asarray(input_state)

    def fn():
        seen.clear()
        st = FixedLossSimulationStrategy(np.eye(m), 0, m, Recorder())
        st.simulate([1] * n + [0] * (m - n), item["N"])
        return [x.copy() for x in seen]

    exps = [a for a in itertools.product(range(-top, top + 1), repeat=n) if any(a) and sum(a) == 0]
    if item["N"] == 2:
        exps = [a + b for a in exps + [(0,) * n] for b in exps + [(0,) * n] if any(a + b)]
    bad = {}
    for g in (2 * top + 3, 2 * top + 5):
        ex = Explorer(grid=g, max_executions=300000)
        mom = {}
        try:
            for w, kind, states in ex.executions_of(fn):
                if kind == "exc":
                    return res.violate("%s: raised %r" % (what, states))
                if len(states) != item["N"]:
                    return res.violate("%s: network asked %d times for %d samples" % (what, len(states), item["N"]))
                z = []
                for x in states:
                    want = np.array([1 / np.sqrt(n)] * n + [0] * (m - n))
                    if x.shape != (m,) or np.max(np.abs(np.abs(x) - want)) > 1e-9:
                        return res.violate("%s: moduli %s" % (what, np.abs(x)))
                    z += list(x[:n] * np.sqrt(n))
                for a in exps:
                    mom[a] = mom.get(a, 0) + w * np.prod([x ** e for x, e in zip(z, a)])
        except EngineLimit as e:
            res.limits.append("%s: %s" % (what, e))
            return
        finally:
            res.add(ex)
        bad[g] = {a for a, v in mom.items() if abs(v) > 1e-9}
    common = set.intersection(*bad.values())
    if common:
        res.violate("%s: phases are not independent and uniform (moment %s does not vanish)" % (what, sorted(common)[0]))


def _add(out, kind, mat, m, n, p, **kw):
    out.append(dict(kind=kind, mat=mat, s=[1] * n + [0] * (m - n), p=p, **kw))


def items(tier):
    out = []
    deep = tier == "thorough"
    top = 4 if deep else 3
    for m in range(1, 6 if deep else 5):
        for n in range(1, min(m, top) + 1):
            for mat in MATS:
                for l in range(n + 1):
                    if l == 3 and m == 4 and not deep and mat not in ("u:gen", "mid", "part"):
                        continue
                    _add(out, "fixed", mat, m, n, dict(left=l))
                for eta in ETAS:
                    if n == 3 and not deep and (mat not in ("u:gen", "mid") or m == 4 and eta != 0.5):
                        continue
                    _add(out, "uniform", mat, m, n, dict(eta=eta))
            for net in ("lossless", "lossy"):
                for mat in ("u:gen", "u:perm") + (("mid", "rank") if net == "lossy" else ()):
                    _add(out, "fixed", mat, m, n, dict(left=n, net=net))
    for n, m, mat in ((1, 2, "u:gen"), (2, 2, "mid"), (2, 3, "part")):
        for l in range(n + 1, 5):
            if n == 1 or l < 4:
                _add(out, "fixed", mat, m, n, dict(left=l), grid=l + 1)
    for l in range(4, 9):  # the higher moments of the phases
        _add(out, "fixed", "u:gen", 2, 2, dict(left=l), grid=l + 1)
        if l < 6:
            _add(out, "fixed", "mid", 2, 2, dict(left=l), grid=l + 1)
    # wide: the quadrature needs l + 1 nodes per phase
    for n, m in ((4, 4), (4, 6), (5, 5), (5, 7), (6, 6)):
        for mat in ("u:gen", "mid", "u:rev") if m < 7 else ("u:gen",):
            _add(out, "fixed", mat, m, n, dict(left=1), grid=2)
            if n == 4:
                _add(out, "fixed", mat, m, n, dict(left=2), grid=3)
    for mat in ("near", "near7", "uni:0.9999999:gen", "uni:0.0000001:gen", "uni:0.999:gen", "uni:0.001:gen", "even:1:1e-2:gen2", "even:1:1e-4:gen2", "even:0.5:1e-3:id", "even:0.5:1e-6:gen2", "u:wk2", "u:wk4", "uni:0.7:wk3", "u:dip4", "u:dip6", "uni:0.7:dip8"):
        for m, n in ((1, 1), (2, 1), (2, 2), (3, 2)):
            _add(out, "fixed", mat, m, n, dict(left=n))
            _add(out, "uniform", mat, m, n, dict(eta=0.999))
            _add(out, "uniform", mat, m, n, dict(eta=1 - 1e-6))
            _add(out, "uniform", mat, m, n, dict(eta=1e-7))
    for l in list(range(5, 12)) + [130, 300]:  # many particles in one mode
        _add(out, "fixed", "u:id", 1, 1, dict(left=l), grid=1)
        if l < 12:
            _add(out, "fixed", "uni:0.5:id", 1, 1, dict(left=l), grid=1)
    for n, m, top, N in ((2, 2, 24, 1), (2, 3, 3, 1), (3, 3, 3, 1), (3, 4, 1, 1), (2, 2, 1, 2)):
        out.append(dict(type="phi", n=n, m=m, top=top, N=N))
    for kind, p in (("fixed", dict(left=2)), ("uniform", dict(eta=0.6))):
        for ck in ("tuple", "array", "ro", "i4", "view", "npint"):
            for mk in ("list", "tuple", "fortran", "ro"):
                _add(out, kind, "mid", 3, 2, p, ck=ck, mk=mk, default_n=(ck == "ro"))
        _add(out, kind, "u:gen", 2, 1, p, calls=[1, 1])
        _add(out, kind, "mid", 2, 1, p, calls=[2])
    return out


def conform(tier):
    out = []
    for mat in ("u:gen", "mid"):
        for m, n in ((2, 1), (2, 2), (3, 2)):
            _add(out, "fixed", mat, m, n, dict(left=n))
            _add(out, "uniform", mat, m, n, dict(eta=0.5))
    return out
