"""C13: arguments stay as they were, results are the caller's own."""

import copy
import itertools

import numpy as np

from .. import domain, oracle
from ..harness import BadSample, calculator, canon_all, config, decide_law, oracle_law, strategy

BOUNDS = {
    "quick": "10 samplers, 7 strategy types of the factory, 6 permanent calculators, 3 distribution calculators, network models and all utilities; states as list, tuple, array, read-only array; matrices as array, Fortran array, list, tuple, read-only array; m<=3, n<=3; every call repeated after its result was overwritten; samplers over all random choices",
    "thorough": "m<=4, n<=3 for the deterministic operations, more inputs for the samplers",
}
SK = ("list", "tuple", "array", "ro")
MK = ("array", "list", "ro", "fortran", "tuple")


class Modified(Exception):
    pass


def snap(x):
    """A structural snapshot that notices changes of content, type or shape."""
    if isinstance(x, np.ndarray):
        return ("arr", x.shape, str(x.dtype), x.flags.writeable, x.tobytes())
    if isinstance(x, (list, tuple)):
        return (type(x).__name__,) + tuple(snap(y) for y in x)
    if isinstance(x, dict):
        return ("dict",) + tuple((repr(k), snap(v)) for k, v in x.items())
    if isinstance(x, (int, float, complex, str, type(None), np.generic)):
        return (type(x).__name__, repr(x))
    if hasattr(x, "__dict__"):
        return (type(x).__name__, tuple((k, snap(v)) for k, v in sorted(vars(x).items())))
    return repr(x)


def scramble(x):
    """Overwrites everything mutable in a result."""
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            for y in x.ravel():
                scramble(y)
        if x.flags.writeable and x.size:
            x[...] = np.ones_like(x) * 3
    elif isinstance(x, list):
        for y in x:
            scramble(y)
        x[:] = [7] * (len(x) + 1)
    elif isinstance(x, tuple):
        for y in x:
            scramble(y)
    elif isinstance(x, dict):
        for y in x.values():
            scramble(y)
        x.clear()


def plain(x):
    """A result as comparable plain data."""
    if isinstance(x, np.ndarray):
        return plain(x.tolist())
    if isinstance(x, (list, tuple)):
        return [plain(y) for y in x]
    if isinstance(x, (int, np.integer)):
        return int(x)
    return complex(x)


def same(a, b):
    if isinstance(a, list) or isinstance(b, list):
        return isinstance(a, list) and isinstance(b, list) and len(a) == len(b) and all(same(p, q) for p, q in zip(a, b))
    return abs(complex(a) - complex(b)) <= 1e-9


class Guarded:
    """Objects handed to the library; must look the same ever after."""

    def __init__(self):
        self.held = []

    def __call__(self, name, x):
        self.held.append((name, x, snap(x)))
        return x

    def check(self):
        for name, x, s in self.held:
            if snap(x) != s:
                raise Modified("the caller's %s was changed to %r" % (name, x))


# -- samplers -----------------------------------------------------------------


def run_sampler(item, res):
    kind, s, p = item["kind"], item["s"], item["p"]
    m = len(s)
    mat = domain.lossy(item["mat"], m) if kind in ("lossynet", "bobs", "fixed", "uniform") else domain.unitary(item["mat"], m)
    new = item.get("new")
    law = oracle_law(kind, domain.unitary(new, m) if new else mat, s, **p)
    N = item["N"]

    def fn():
        g = Guarded()
        mx = g("matrix", domain.contain_matrix(mat, item["mk"]))
        st0 = g("state", domain.contain(s, item["sk"]))
        st = strategy(kind, mx, st0, **p)
        out = []
        if new:
            st.simulate(st0, 1)
            st.set_new_matrix(g("new matrix", domain.contain_matrix(domain.unitary(new, m), item["mk"])))
        for n in N:
            x = g("state", domain.contain(s, item["sk"]))
            got = st.simulate(x, n)
            if len(got) != n:
                raise BadSample("%d samples instead of %d" % (len(got), n))
            out.extend(canon_all(got, m))
            g.check()
            scramble(got)
            g.check()  # samples are no views of the arguments
        return tuple(out)

    decide_law(
        res, fn, oracle.product_law(*([law] * sum(N))),
        "%s %s s=%s %s, %s state, %s matrix, results overwritten" % (kind, item["mat"], tuple(s), p, item["sk"], item["mk"]),
        grid=sum(s) + 1, cpu=1, schedule_limit=3,
    )


# -- factory ------------------------------------------------------------------


def run_factory(item, res):
    from theboss.simulation_strategies.simulation_strategy_factory import SimulationStrategyFactory, StrategyType

    s, m = item["s"], len(item["s"])

    def fn():
        g = Guarded()
        cm = domain.contain_matrix(domain.unitary("gen", m), item["mk"])
        pm = domain.contain_matrix(domain.unitary("gen1", m), item["mk"])
        cfg = g("configuration", config(cm, domain.contain(s, item["sk"]), left=sum(s), eta=0.5, level=item["level"]))
        pc = calculator(item["calc"], pm, domain.contain(s, item["sk"]), domain.contain(s, item["sk"]))
        f = SimulationStrategyFactory(cfg, pc, StrategyType[item["stype"]])
        fpc = f.bs_permanent_calculator

        def look(c):
            return (snap(c.matrix), snap(c.input_state), snap(c.output_state))

        a, b = look(pc), look(fpc)
        for _ in range(2):
            prod = f.generate_strategy()
            got = prod.simulate(g("state", domain.contain(s, item["sk"])), 1)
            canon_all(got, m)
            scramble(got)
            if look(pc) != a:
                raise Modified("the caller's permanent calculator was changed")
            if f.bs_permanent_calculator is not fpc or look(fpc) != b:
                raise Modified("the factory's permanent calculator was changed")
            g.check()
        for c in (pc, f.bs_permanent_calculator):
            v, w = complex(c.compute_permanent()), oracle.perm_st(np.asarray(pm), s, s)
            if abs(v - w) > 1e-9:
                raise Modified("a permanent calculator yields %r instead of %r" % (v, w))
        return ()

    decide_law(
        res, fn, {(): 1.0}, "factory %s (%s), %s state, %s matrix" % (item["stype"], item["calc"], item["sk"], item["mk"]),
        grid=1, cpu=1, schedule_limit=2,
    )


# -- deterministic operations ----------------------------------------------------


def repeat(res, what, make, times=2):
    """make() -> (guard, thunk); every call must yield the same."""
    g, thunk = make()
    first = None
    try:
        for i in range(times + 1):
            x = thunk()
            y = plain(x)
            if first is None:
                first = y
            elif not same(first, y):
                res.violate("%s: call %d returns %r instead of %r after its result was overwritten" % (what, i + 1, y, first))
                return False
            g.check()
            scramble(x)
            g.check()
            res.point()
    except Modified as e:
        res.violate("%s: %s" % (what, e))
        return False
    return True


def run_calc(item, res):
    m, kind = item["m"], item["kind"]
    sub = kind.startswith("sub")
    import importlib

    base = "theboss.boson_sampling_utilities.permanent_calculators."
    mat = domain.square("cplx", m)
    for n in range(0 if not sub else 1, item["n"] + 1):
        for s in oracle.states(n, m):
            for t in oracle.states(n - 1 if sub else n, m):
                for sk in SK:
                    for mk in MK:

                        def make():
                            g = Guarded()
                            mx = g("matrix", domain.contain_matrix(mat, mk))
                            a = g("input", domain.contain(s, sk))
                            b = g("output", domain.contain(t, sk))
                            if kind == "eff":
                                from theboss.boson_sampling_utilities.boson_sampling_utilities import EffectiveScatteringMatrixCalculator as C

                                c = C(mx, a, b)
                                return g, c.calculate
                            if sub:
                                mod, name = {
                                    "sub_ryser": ("bs_cc_ryser_submatrices_permanent_calculator", "BSCCRyserSubmatricesPermanentCalculator"),
                                    "sub_ch": ("bs_cc_ch_submatrices_permanent_calculator", "BSCCCHSubmatricesPermanentCalculator"),
                                }[kind]
                                c = getattr(importlib.import_module(base + mod), name)(mx, a, b)
                                return g, c.compute_permanents
                            c = calculator(kind, mx, a, b)
                            return g, c.compute_permanent

                        if not repeat(res, "%s s=%s t=%s (%s states, %s matrix)" % (kind, s, t, sk, mk), make):
                            return


def run_dist(item, res):
    s, m = item["s"], len(item["s"])
    n = sum(s)
    from theboss.distribution_calculators.bs_distribution_calculator_with_fixed_losses import BSDistributionCalculatorWithFixedLosses as F
    from theboss.distribution_calculators.bs_exact_distribution_with_uniform_losses import BSDistributionCalculatorWithUniformLosses as U
    from theboss.distribution_calculators.bs_sample_based_distribution_calculator import BSSampleBasedDistributionCalculator as S

    class Scripted:
        def simulate(self, input_state, samples_number=1):
            return [list(x) for x in (oracle.states(n, m) * samples_number)[:samples_number]]

    mat = domain.unitary("gen", m)
    for kind, sk, mk in itertools.product(("fixed", "uniform", "sample", "sample_out"), SK, MK):
        for left in range(n + 1) if kind == "fixed" else (n,):
            outs = oracle.states(left, m)
            for q in ("dist", "some", "order"):
                if kind == "sample_out" and q == "order":
                    continue  # hands back the caller's own list

                def make():
                    g = Guarded()
                    cfg = g("configuration", config(domain.contain_matrix(mat, mk), domain.contain(s, sk), left=left, eta=0.6))
                    sel = g("outcomes", [domain.contain(o, sk) for o in outs[::-1]])
                    pc = calculator("ryser", domain.contain_matrix(mat, mk))
                    if kind == "fixed":
                        c = F(cfg, pc)
                    elif kind == "uniform":
                        c = U(cfg, pc)
                    elif kind == "sample":
                        c = S(cfg, Scripted(), 5)
                    else:
                        c = S(cfg, Scripted(), 5, sel)
                    f = {
                        "dist": c.calculate_distribution,
                        "some": lambda: c.calculate_probabilities_of_outcomes(sel),
                        "order": c.get_outcomes_in_proper_order,
                    }[q]
                    return g, lambda: explore1(f)

                if not repeat(res, "%s distribution calculator s=%s left=%d %s (%s states, %s matrix)" % (kind, tuple(s), left, q, sk, mk), make):
                    return


def explore1(f):
    """Runs f once where pools need an exploration context (default schedule)."""
    from ..engine import Explorer

    ex = Explorer(cpu_count=2)
    got = []
    for w, kind, v in ex.executions_of(lambda: f()):
        if kind == "exc":
            raise v
        got.append(v)
    return got[0]


def run_util(item, res):
    from theboss.boson_sampling_utilities import boson_sampling_utilities as B
    from theboss import quantum_computations_utilities as Q
    from theboss.network_simulation_strategy.lossy_network_simulation_strategy import LossyNetworkSimulationStrategy as LN
    from theboss.network_simulation_strategy.lossless_network_simulation_strategy import LosslessNetworkSimulationStrategy as NN

    m = item["m"]
    table = []
    for s in [x for n in range(item["n"] + 1) for x in oracle.states(n, m)]:
        for sk in SK:
            a = oracle_assignment(s)
            table.append(("mode_occupation_to_mode_assignment", (("state", s, sk),), lambda x: B.mode_occupation_to_mode_assignment(x)))
            table.append(("mode_assignment_to_mode_occupation", (("assignment", a, sk),), lambda x: B.mode_assignment_to_mode_occupation(x, m)))
            if sk in ("list", "tuple"):
                table.append(("compute_number_of_states_of_given_type", (("state", s, sk),), lambda x: B.compute_number_of_states_of_given_type(x)))
            for left in range(sum(s) + 1):
                table.append(("generate_lossy_n_particle_input_states", (("state", s, sk),), lambda x, l=left: B.generate_lossy_n_particle_input_states(x, l)))
    for n in range(item["n"] + 2):
        for losses in (False, True):
            table.append(("generate_possible_states(%d, %d, %s)" % (n, m, losses), (), lambda n=n, l=losses: B.generate_possible_states(n, m, l)))
            table.append(("generate_state_types(%d, %d, %s)" % (m, n, losses), (), lambda n=n, l=losses: B.generate_state_types(m, n, l)))
        table.append(("compute_qft_matrix(%d)" % n, (), lambda n=n: Q.compute_qft_matrix(n)))
        table.append(("get_prime_factors", (), lambda n=n: Q.get_prime_factors(n + 59)))
    for k in range(m + 1):
        table.append(("generate_qft_matrix_for_first_m_modes", (), lambda k=k: B.generate_qft_matrix_for_first_m_modes(k, m)))
    vec = [0.5 + 0.25j * i for i in range(m)]
    for mk in MK:
        for name in ("mid", "part", "u:gen", "zero", "u:id", "diag"):
            mat = domain.lossy(name, m)
            table.append(("prepare_interferometer_matrix_in_expanded_space", (("matrix", mat, mk),), lambda x: B.prepare_interferometer_matrix_in_expanded_space(x)))
            table.append(("get_modes_transmissivity_values_from_matrix", (("matrix", mat, mk),), lambda x: B.get_modes_transmissivity_values_from_matrix(x)))
            for vk in ("list", "array", "ro"):
                table.append(("LossyNetworkSimulationStrategy", (("matrix", mat, mk), ("vector", vec, vk)), "ln"))
                table.append(("LosslessNetworkSimulationStrategy", (("matrix", mat, mk), ("vector", vec, vk)), "nn"))
            if mk in ("array", "ro", "fortran"):
                table.append(("count_distance_between_matrices", (("matrix", mat, mk), ("matrix", domain.unitary("gen1", m), mk)), lambda x, y: Q.count_distance_between_matrices(x, y)))
    d1, d2 = [1.0 / m] * m, [1.0] + [0.0] * (m - 1)
    for dk in ("list", "tuple", "array", "ro"):
        table.append(("count_total_variation_distance", (("vector", d1, dk), ("vector", d2, dk)), lambda x, y: Q.count_total_variation_distance(x, y)))
    table.append(("count_total_variation_distance_dicts", (("dict", d1, ""), ("dict", d2, "")), lambda x, y: Q.count_total_variation_distance_dicts(x, y)))

    def build(kind, v, c):
        if kind == "matrix":
            return domain.contain_matrix(v, c)
        if kind == "vector":
            if c in ("list", "tuple"):
                return (list if c == "list" else tuple)(v)
            a = np.array(v)
            a.setflags(write=c != "ro")
            return a
        if kind == "dict":
            return {(i,): x for i, x in enumerate(v) if x}
        return domain.contain(v, c)

    for name, args, f in table:

        def make():
            g = Guarded()
            vals = [g(k, build(k, v, c)) for k, v, c in args]
            if f in ("ln", "nn"):
                net = (LN if f == "ln" else NN)(vals[0])
                return g, lambda: net.simulate(vals[1])
            return g, lambda: f(*vals)

        if not repeat(res, "%s%s" % (name, [(k, c) for k, v, c in args]), make):
            return


def oracle_assignment(s):
    return tuple(i for i, k in enumerate(s) for _ in range(k))


def run_ul(item, res):
    """The accuracy-bounded distributions of the uniform-loss sampler."""
    s, m = item["s"], len(item["s"])

    def fn():
        g = Guarded()
        mx = g("matrix", domain.contain_matrix(domain.unitary("gen", m), item["mk"]))
        st = strategy("gcc_ul", mx, s, eta=0.6)
        x = g("state", domain.contain(s, item["sk"]))
        f = st.compute_distribution_up_to_accuracy if item["w"] else st.compute_unweighted_distribution_up_to_accuracy
        got = f(x, 0.3)
        g.check()
        scramble(got)
        g.check()
        y = g("state", domain.contain(s, item["sk"]))
        second = list(f(y, 0.0))
        g.check()
        if any(v is not None and v > 1 for v in second):
            raise Modified("overwriting one distribution changed the next: %r" % (second,))
        out = canon_all(st.simulate(y, 1), m)
        g.check()
        return out

    decide_law(res, fn, oracle.product_law(oracle.uniform_loss_law(domain.unitary("gen", m), s, 0.6)),
               "distribution up to accuracy, s=%s" % (tuple(s),), cpu=1, max_executions=60000, min_weight=1e-9, tol=1e-4)


def run(item, res):
    dict(sampler=run_sampler, factory=run_factory, calc=run_calc, dist=run_dist, util=run_util, ul=run_ul)[item["type"]](item, res)


def items(tier):
    deep = tier == "thorough"
    out = []
    P = dict(gcc_ul=dict(eta=0.6), gccb_ul=dict(eta=0.6), fixed=dict(left=1), uniform=dict(eta=0.6), ubobs=dict(k=1, eta=0.5), bobs=dict(k=1))
    for kind in ("gcc", "gcc_ma", "gccb", "gcc_ul", "gccb_ul", "lossynet", "bobs", "ubobs", "fixed", "uniform"):
        lossy = kind in ("lossynet", "bobs", "fixed", "uniform")
        ss = [(1, 0), (1, 1), (2, 0), (0, 1)] if kind not in ("fixed", "uniform") else [(1, 0), (1, 1)]
        if kind in ("gcc", "gcc_ma", "gcc_ul", "gccb"):
            ss += [(1, 0, 1), (0, 0)]
        for s in ss:
            for sk in SK:
                for mk in MK:
                    for mat in ("mid", "u:gen") if lossy else ("gen",):
                        if mk != "array" and sk != "list" and not (mk == "ro" and sk == "ro") and not deep:
                            continue
                        if kind in ("bobs", "lossynet", "uniform") and sum(s) > 1:
                            N = [1]
                        else:
                            N = [1, 1] if sum(s) > 1 else [2, 1]
                        if kind in ("bobs", "ubobs", "uniform") and sum(s) == 1:
                            N = [1, 1]
                        out.append(dict(type="sampler", kind=kind, mat=mat, s=list(s), sk=sk, mk=mk, p=P.get(kind, {}), N=N))
                    if kind in ("gcc", "gcc_ma", "gccb", "gcc_ul", "gccb_ul", "lossynet") and sum(s) == 1 and len(s) == 2:
                        out.append(dict(type="sampler", kind=kind, mat="mid" if lossy else "gen", s=list(s), sk=sk, mk=mk, p=P.get(kind, {}), N=[1], new="gen2"))
    for stype in ("FIXED_LOSS", "UNIFORM_LOSS", "GCC", "LOSSY_NET_GCC", "UNIFORM_LOSSES_GCC", "BOBS", "UNIFORM_LOSSES_BOBS"):
        for calc in ("ryser", "glynn", "chin_huh", "classic"):
            for sk, mk in (("list", "array"), ("ro", "ro"), ("tuple", "list"), ("array", "array")):
                for s in ((1, 0), (1, 1)):
                    for level in (0, 1, 2) if "BOBS" in stype else (1,):
                        if s == (1, 1) and ("BOBS" in stype or "LOSSY" in stype) and not deep:
                            continue
                        out.append(dict(type="factory", stype=stype, calc=calc, sk=sk, mk=mk, s=list(s), level=level))
    for kind in ("classic", "glynn", "chin_huh", "ryser", "sub_ryser", "sub_ch", "eff"):
        for m in range(1, 5 if deep else 4):
            out.append(dict(type="calc", kind=kind, m=m, n=3))
    for s in domain.all_states(3 if deep else 2, 3):
        out.append(dict(type="dist", s=list(s)))
    for m in range(1, 5 if deep else 4):
        out.append(dict(type="util", m=m, n=3))
    for s in ((1, 0), (0, 1)):
        for w in (True, False):
            for sk, mk in (("list", "array"), ("ro", "ro"), ("array", "array"), ("tuple", "list")):
                out.append(dict(type="ul", s=list(s), w=w, sk=sk, mk=mk))
    return out
