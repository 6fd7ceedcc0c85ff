"""Builds objects of theboss and decides laws by exhaustive exploration."""

import math
import time
import traceback

import numpy as np

from . import domain, oracle
from . import engine
from .engine import EngineLimit, Explorer

TOL = 1e-9


class Result:
    def __init__(self):
        self.states = 0
        self.transitions = 0
        self.executions = 0
        self.schedules = 0
        self.evaluations = 0
        self.traces = 0
        self.violations = []
        self.limits = []
        self.samples = []
        self.mismatches = []

    def add(self, ex, schedules=1):
        self.states += ex.states
        self.transitions += ex.transitions
        self.executions += ex.executions
        self.schedules += schedules

    def point(self, n=1):
        """A deterministic check of one enumerated point (no random choice)."""
        self.states += n
        self.transitions += n
        self.executions += n
        self.evaluations += n
        engine.PROGRESS[0] = time.process_time()

    def violate(self, what, **detail):
        self.violations.append(dict(what=what, **detail))

    def as_dict(self):
        return self.__dict__


def short_tb(e):
    tb = traceback.extract_tb(e.__traceback__)
    fr = [f for f in tb if "/theboss/" in f.filename]
    where = "%s:%d" % (fr[-1].filename.split("/repo/")[-1], fr[-1].lineno) if fr else ""
    return "%s: %s (%s)" % (type(e).__name__, str(e)[:200], where)


# -- construction -------------------------------------------------------------


def calculator(kind, matrix, s=None, t=None):
    from theboss.boson_sampling_utilities.permanent_calculators.bs_permanent_calculator_factory import (
        BSPermanentCalculatorFactory,
        PermanentCalculatorType,
    )

    return BSPermanentCalculatorFactory(
        matrix, s, t, PermanentCalculatorType[kind.upper()]
    ).generate_calculator()


def config(matrix, s, left=None, eta=1.0, network=None, level=0):
    from theboss.distribution_calculators.bs_distribution_calculator_interface import (
        BosonSamplingExperimentConfiguration,
    )

    n = int(sum(s))
    left = n if left is None else left
    return BosonSamplingExperimentConfiguration(
        interferometer_matrix=matrix,
        initial_state=s,
        initial_number_of_particles=n,
        number_of_modes=len(s),
        number_of_particles_lost=n - left,
        number_of_particles_left=left,
        uniform_transmissivity=eta,
        network_simulation_strategy=network,
        hierarchy_level=level,
    )


def strategy(kind, matrix, s, calc="ryser", **p):
    """A sampler built directly from its class."""
    S = "theboss.simulation_strategies."
    import importlib

    def cls(mod, name):
        return getattr(importlib.import_module(S + mod), name)

    def pc():
        return calculator(calc, matrix, s, s)

    if kind == "gcc":
        return cls("generalized_cliffords_simulation_strategy", "GeneralizedCliffordsSimulationStrategy")(pc())
    if kind == "gcc_ma":
        return cls(
            "mode_assignment_generalized_cliffords_simulation_strategy",
            "ModeAssignmentGeneralizedCliffordsSimulationStrategyInterface",
        )(pc())
    if kind == "gccb":
        return cls("generalized_cliffords_b_simulation_strategy", "GeneralizedCliffordsBSimulationStrategy")(pc())
    if kind == "gcc_ul":
        return cls(
            "generalized_cliffords_uniform_losses_simulation_strategy",
            "GeneralizedCliffordsUniformLossesSimulationStrategy",
        )(pc(), p["eta"])
    if kind == "gccb_ul":
        return cls(
            "generalized_cliffords_b_uniform_losses_simulation_strategy",
            "GeneralizedCliffordsBUniformLossesSimulationStrategy",
        )(pc(), p["eta"])
    if kind == "lossynet":
        return cls(
            "lossy_networks_generalized_cliffords_simulation_strategy",
            "LossyNetworksGeneralizedCliffordsSimulationStrategy",
        )(pc())
    if kind == "bobs":
        return cls("nonuniform_losses_approximation_strategy", "NonuniformLossesApproximationStrategy")(
            pc(), p["k"], p.get("threads", 1)
        )
    if kind == "ubobs":
        return cls("lossy_state_approximated_simulation_strategy", "LossyStateApproximationSimulationStrategy")(
            pc(), p["eta"], p["k"], p.get("threads", 1)
        )
    if kind == "fixed":
        net = p.get("net")
        N = "theboss.network_simulation_strategy."
        if net == "lossless":
            net = importlib.import_module(N + "lossless_network_simulation_strategy").LosslessNetworkSimulationStrategy(
                np.asarray(matrix)
            )
        elif net == "lossy":
            net = importlib.import_module(N + "lossy_network_simulation_strategy").LossyNetworkSimulationStrategy(
                matrix
            )
        return cls("fixed_loss_simulation_strategy", "FixedLossSimulationStrategy")(
            matrix, p["left"], len(s), net
        )
    if kind == "uniform":
        return cls("uniform_loss_simulation_strategy", "UniformLossSimulationStrategy")(
            matrix, len(s), p["eta"]
        )
    raise KeyError(kind)


def oracle_law(kind, matrix, s, **p):
    if kind in ("gcc", "gcc_ma", "gccb"):
        return oracle.law(matrix, s)
    if kind in ("gcc_ul", "gccb_ul"):
        return oracle.uniform_loss_law(matrix, s, p["eta"])
    if kind == "lossynet":
        return oracle.lossy_law(matrix, s)
    if kind == "bobs":
        return oracle.bobs_law(matrix, s, p["k"])
    if kind == "ubobs":
        return oracle.uniform_bobs_law(matrix, s, p["eta"], p["k"])
    if kind == "fixed":
        return oracle.mean_field_law(matrix, int(sum(s)), p["left"])
    if kind == "uniform":
        return oracle.uniform_mean_field_law(matrix, int(sum(s)), p["eta"])
    raise KeyError(kind)


def grid_for(kind, s):
    """Quadrature nodes making every phase average exact."""
    return int(sum(s)) + 1


class BadSample(Exception):
    pass


def canon(sample, m=None):
    """A sample as a tuple of ints."""
    out = []
    for x in sample:
        if isinstance(x, complex) and x.imag == 0:
            x = x.real
        i = int(x)
        if i != x or i < 0:
            raise BadSample("entry %r" % (x,))
        out.append(i)
    if m is not None and len(out) != m:
        raise BadSample("%d modes instead of %d" % (len(out), m))
    return tuple(out)


def canon_all(samples, m=None):
    return tuple(canon(x, m) for x in samples)


# -- exploration ----------------------------------------------------------------


class Excess(Exception):
    """An outcome has already got more weight than it should have in the end."""


def exact_law(fn, ex, expected=None):
    """Exact law of fn() under the current schedule: dict, list of failures.
    With `expected`: stops at the first failure, and once an outcome exceeds its
    probability (weights only add up; with quadrature nodes, only for outcomes
    that should be impossible), as a broken sampler may have no end of paths."""
    law = {}
    failures = []
    for w, kind, v in ex.executions_of(fn):
        if kind == "exc":
            failures.append((w, v, list(ex.path)))
            if expected is not None:
                break
            continue
        law[v] = law.get(v, 0.0) + w
        if expected is not None:
            e = expected.get(v, 0.0)
            if law[v] > e + 1e-6 and (e < 1e-14 or not ex.used_grid) and not ex.path_seeds:
                raise Excess("outcome %s has probability at least %.9g, should be %.9g" % (v, law[v], e))
    return law, failures


def decide_law(
    res,
    fn,
    expected,
    what,
    grid=1,
    cpu=2,
    tol=TOL,
    schedule_limit=400,
    max_executions=300000,
    min_weight=1e-13,
    detail=None,
):
    """Compares the exact law of fn() with `expected` for every schedule."""
    detail = detail or {}
    ex = Explorer(grid=grid, cpu_count=cpu, max_executions=max_executions, min_weight=min_weight)
    nsched = 0
    try:
        for vec in ex.schedules(schedule_limit):
            nsched += 1
            ex.truncated_mass = 0.0
            try:
                law, failures = exact_law(fn, ex, expected)
            except Excess as e:
                res.violate("%s: %s" % (what, e), schedule=vec, **detail)
                break
            if failures:
                w, e, path = failures[0]
                res.violate(
                    "%s: raised %s" % (what, short_tb(e)),
                    probability=w, path=[str(x) for x in path], schedule=vec, **detail,
                )
                break
            if ex.endless > 0:
                res.violate("%s: does not terminate (%d random draws so far)" % (what, ex.horizon), schedule=vec, **detail)
                break
            if ex.truncated_mass > 1e-6:
                res.limits.append("%s: mass %.3g not explored" % (what, ex.truncated_mass))
                break
            d, where = oracle.compare(law, expected)
            slack = tol + 2 * ex.truncated_mass
            if d > slack:
                if ex.used_grid and not _confirmed(fn, expected, grid, cpu, vec, slack, max_executions):
                    res.limits.append("%s: quadrature not exact here" % what)
                    break
                res.violate(
                    "%s: outcome %s has probability %.9g, should be %.9g"
                    % (what, where, law.get(where, 0.0), expected.get(where, 0.0)),
                    schedule=vec, **detail,
                )
                break
            if not res.samples:
                res.samples.append(
                    dict(what=what, law={str(k): round(v, 12) for k, v in list(law.items())[:6]}, **detail)
                )
    except EngineLimit as e:
        res.limits.append("%s: %s" % (what, e))
    res.add(ex, nsched)
    return ex


def _confirmed(fn, expected, grid, cpu, vec, slack, max_executions):
    """A deviation found with quadrature nodes counts if it persists (does not
    shrink) with finer grids: then it is no quadrature error."""
    devs = []
    for g in (grid, grid + 2, 2 * grid + 3):
        ex = Explorer(grid=g, cpu_count=cpu, max_executions=max_executions)
        ex.demon_vector = list(vec)
        try:
            law, failures = exact_law(fn, ex)
        except EngineLimit:
            if len(devs) >= 2:
                break
            raise
        if failures:
            return True
        devs.append(oracle.compare(law, expected)[0])
    return all(d > slack for d in devs) and devs[-1] > 0.3 * devs[0]


# -- law items (shared by C05..C10) -----------------------------------------------


def law_item_fn(item):
    """The program of a law item: build the sampler, draw, return samples."""
    kind = item["kind"]
    m = len(item["s"])
    lossy_kinds = ("lossynet", "bobs", "fixed", "uniform")
    mat = domain.lossy(item["mat"], m) if kind in lossy_kinds else domain.unitary(item["mat"], m)
    p = dict(item.get("p", {}))
    mk = item.get("mk", "array")
    ck = item.get("ck", "list")
    calls = item.get("calls", [1])

    def fn():
        s = domain.contain(item["s"], ck)
        first = domain.lossy(item["first"], m) if item.get("first") else mat
        st = strategy(kind, domain.contain_matrix(first, mk), s, item.get("calc", "ryser"), **p)
        if item.get("newmat") or item.get("first"):
            st.set_new_matrix(domain.contain_matrix(mat, mk))
        out = []
        for n in calls:
            if item.get("default_n"):
                got = st.simulate(domain.contain(item["s"], ck))
                n = 1
            else:
                got = st.simulate(domain.contain(item["s"], ck), n)
            if len(got) != n:
                raise BadSample("%d samples instead of %d" % (len(got), n))
            out.extend(canon_all(got, m))
        return tuple(out)

    return fn, mat, p


def run_law_item(item, res):
    fn, mat, p = law_item_fn(item)
    base = oracle_law(item["kind"], mat, item["s"], **p)
    exp = oracle.product_law(*([base] * sum(item.get("calls", [1]))))
    ex = decide_law(
        res,
        fn,
        exp,
        "%s %s s=%s %s" % (item["kind"], item["mat"], tuple(item["s"]), p),
        grid=item.get("grid") or grid_for(item["kind"], item["s"]),
        cpu=item.get("cpu", 2),
        schedule_limit=item.get("sched", 60),
        max_executions=item.get("maxex", 300000),
    )
    return ex


def conform_patched(item, res, seeds, natives):
    """Replays native runs under the engine: same results, path in the tree."""
    from .rng import Guide

    fn, mat, p = law_item_fn(item)
    ex = Explorer(grid=grid_for(item["kind"], item["s"]), keep_leaves=True)
    try:
        for _ in ex.executions_of(fn):
            pass
    except EngineLimit:
        return
    for seed, nat in zip(seeds, natives):
        g = Explorer(grid=1)
        try:
            out, path = g.run_guided(fn, Guide(seed))
        except EngineLimit:
            continue
        except Exception as e:
            res.mismatches.append("%s seed %d: %s" % (item, seed, short_tb(e)))
            continue
        if [list(x) for x in out] != nat:
            res.mismatches.append("%s seed %d: %s native %s" % (item, seed, out, nat))
            continue
        if "*" not in path and path not in ex.leaves:
            res.mismatches.append("%s seed %d: path %s not explored" % (item, seed, path))
            continue
        res.traces += 1


def native_run(item, seeds):
    """Executed in an unpatched process."""
    import random

    fn, _, _ = law_item_fn(item)
    outs = []
    for s in seeds:
        np.random.seed(s)
        random.seed(s)
        try:
            outs.append([list(x) for x in fn()])
        except Exception as e:
            outs.append("exc " + short_tb(e))
    return outs
