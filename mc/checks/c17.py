"""C17: the factories: products follow the current settings and are isolated."""

import itertools

import numpy as np

from .. import domain, oracle, pools
from ..harness import BadSample, calculator, canon_all, config, decide_law, oracle_law

TYPES = ("FIXED_LOSS", "UNIFORM_LOSS", "GCC", "LOSSY_NET_GCC", "UNIFORM_LOSSES_GCC", "BOBS", "UNIFORM_LOSSES_BOBS")
# every configuration differs from the others in all the values a strategy may read
CFGS = {
    "A": dict(mat="gen", left=1, eta=0.5, level=1),
    "B": dict(mat="gen2", left=0, eta=0.8, level=2),
    "C": dict(mat="mid", left=1, eta=0.25, level=0),
    # with a network model of its own
    "D": dict(mat="gen5", left=1, eta=0.0, level=1, net="gen6"),
}
CALCS = {"r": ("ryser", "gen1"), "g": ("glynn", "gen3"), "c": ("chin_huh", "real")}
M = 2
BOUNDS = {
    "quick": "7 strategy types, 4 configurations (one with its own network model and total losses), 3 calculators, thread numbers, changes through setters and on the objects held: all sequences of 2 changes before and 1-2 changes after a product is generated; law of the product decided by exhaustive exploration (m=2, n=1); permanent-calculator factory: all sequences of 4 operations",
    "thorough": "sequences of 3 changes before, 2 after",
}


def matrix(name):
    return domain.lossy(name, M) if name == "mid" else domain.unitary(name, M)


def mkcfg(k):
    c = CFGS[k]
    out = config(matrix(c["mat"]), [1, 0], left=c["left"], eta=c["eta"], level=c["level"])
    if c.get("net"):
        from theboss.network_simulation_strategy.lossless_network_simulation_strategy import LosslessNetworkSimulationStrategy

        out.network_simulation_strategy = LosslessNetworkSimulationStrategy(matrix(c["net"]))
    return out


def mkcalc(k):
    t, mat = CALCS[k]
    return calculator(t, matrix(mat), [1, 0], [1, 0])


def ops_all():
    out = [("type", t) for t in TYPES] + [("cfg", k) for k in CFGS] + [("calc", k) for k in CALCS]
    out += [("threads", n) for n in (1, 2, -1)]
    out += [("field", "eta", 0.65), ("field", "level", 0), ("field", "left", 0)]
    out += [("calcmat", "gen4"), ("gen",)]
    return out


def law_of(st):
    """Expected law of a product from the settings at its generation."""
    t = st["type"]
    f = st["fields"]
    cm, pm = matrix(f["mat"]), matrix(st["calcmat"])
    if t == "FIXED_LOSS":
        return oracle.mean_field_law(matrix(f["net"]) if f.get("net") else cm, 1, f["left"])
    if t == "UNIFORM_LOSS":
        return oracle.uniform_mean_field_law(cm, 1, f["eta"])
    if t == "GCC":
        return oracle.law(pm, (1, 0))
    if t == "LOSSY_NET_GCC":
        return oracle.lossy_law(pm, (1, 0))
    if t == "UNIFORM_LOSSES_GCC":
        return oracle.uniform_loss_law(pm, (1, 0), f["eta"])
    if t == "BOBS":
        return oracle.bobs_law(pm, (1, 0), M - f["level"])
    if t == "UNIFORM_LOSSES_BOBS":
        return oracle.uniform_bobs_law(pm, (1, 0), f["eta"], f["level"])


def run(item, res):
    if item["type"] == "pfac":
        return run_pfac(item, res)
    from theboss.simulation_strategies.simulation_strategy_factory import SimulationStrategyFactory, StrategyType

    before = [tuple(o) for o in item["before"]]
    for mid in itertools.product(ops_all() if item.get("all", True) else [], repeat=item["free"]):
        for after in item["after"]:
            hist = before + list(mid)
            after_ops = [tuple(o) for o in after]
            # settings at the generation (independent of the code)
            st = dict(type=item["start"], fields=dict(CFGS["A"]), calcmat=CALCS["r"][1], threads=-1)
            for op in hist:
                if op[0] == "type":
                    st["type"] = op[1]
                elif op[0] == "cfg":
                    st["fields"] = dict(CFGS[op[1]])
                elif op[0] == "calc":
                    st["calcmat"] = CALCS[op[1]][1]
                elif op[0] == "calcmat":
                    st["calcmat"] = op[1]
                elif op[0] == "field":
                    st["fields"][op[1]] = op[2]
                elif op[0] == "threads":
                    st["threads"] = op[1]
            if st["type"] in ("FIXED_LOSS", "UNIFORM_LOSS") and st["fields"]["mat"] != "mid" and False:
                continue
            what = "factory (%s), changes %s, product, then %s" % (item["start"], hist, after_ops)

            def fn():
                calc = mkcalc("r")
                f = SimulationStrategyFactory(mkcfg("A"), calc, StrategyType[item["start"]])
                for op in hist:
                    step(f, op, calc, None, StrategyType)
                prod = f.generate_strategy()
                for op in after_ops:
                    step(f, op, calc, prod, StrategyType)
                got = prod.simulate([1, 0], 1)
                if len(got) != 1:
                    raise BadSample("%d samples" % len(got))
                return canon_all(got, M)

            pools.USED[0] = 0
            decide_law(res, fn, oracle.product_law(law_of(st)), what, grid=2, cpu=3, schedule_limit=8)
            if res.violations:
                return
            if 1 <= st["threads"] <= 3 and not any(a[0] in ("draw", "sibling") for a in after_ops) and pools.USED[0] > st["threads"]:
                return res.violate("%s: %d worker processes with thread number %d" % (what, pools.USED[0], st["threads"]))


def step(f, op, calc, prod, T):
    k = op[0]
    if k == "type":
        f.strategy_type = T[op[1]]
    elif k == "cfg":
        f.experiment_configuration = mkcfg(op[1])
    elif k == "calc":
        f.bs_permanent_calculator = mkcalc(op[1])
    elif k == "threads":
        f.available_threads_number = op[1]
    elif k == "field":
        setattr(f.experiment_configuration, {"eta": "uniform_transmissivity", "level": "hierarchy_level", "left": "number_of_particles_left"}[op[1]], op[2])
    elif k == "calcmat":
        f.bs_permanent_calculator.matrix = matrix(op[1])
    elif k == "gen":
        f.generate_strategy()
    # after the product was generated
    elif k == "usercalc":  # the caller goes on with his calculator
        calc.matrix = matrix("gen5")
        calc.input_state = [0, 1]
        calc.output_state = [0, 1]
        calc.compute_permanent()
    elif k == "facalc":
        f.bs_permanent_calculator.matrix = matrix("gen6")
        f.bs_permanent_calculator.input_state = [0, 1]
    elif k == "facalc_inplace":
        m = f.bs_permanent_calculator.matrix
        if isinstance(m, np.ndarray) and m.flags.writeable:
            m[:] = matrix("gen6")
    elif k == "usercalc_inplace":
        m = calc.matrix
        if isinstance(m, np.ndarray) and m.flags.writeable:
            m[:] = 0
    elif k == "sibling":  # another product of the same factory is used
        o = f.generate_strategy()
        if hasattr(o, "set_new_matrix"):
            o.set_new_matrix(matrix("gen7"))
        o.simulate([0, 1] if op[1] == 2 else [1, 0], 1 if op[1] else 0)
        for n in ("_bs_permanent_calculator", "_permanent_calculator"):
            if hasattr(o, n):
                getattr(o, n).matrix = matrix("gen7")


def run_pfac(item, res):
    from theboss.boson_sampling_utilities.permanent_calculators.bs_permanent_calculator_factory import (
        BSPermanentCalculatorFactory as F,
        PermanentCalculatorType as T,
    )
    import importlib

    base = "theboss.boson_sampling_utilities.permanent_calculators."
    CLS = {
        "CLASSIC": ("classic_permanent_calculator", "ClassicPermanentCalculator"),
        "GLYNN": ("glynn_gray_permanent_calculator", "GlynnGrayPermanentCalculator"),
        "CHIN_HUH": ("chin_huh_permanent_calculator", "ChinHuhPermanentCalculator"),
        "RYSER": ("ryser_permanent_calculator", "RyserPermanentCalculator"),
    }
    cls = {k: getattr(importlib.import_module(base + a), b) for k, (a, b) in CLS.items()}
    mats = {"gen": 2, "cplx": 2, "gen1": 3}
    states = {0: (1, 1), 1: (2, 0), 2: (0, 2), 3: (1, 0, 1), 4: (0, 1, 1)}
    ops = [("mat", k) for k in mats] + [("in", i) for i in states] + [("out", i) for i in states] + [("gen",)]
    M_ = lambda k: domain.square(k, mats[k])

    def check(pc, cur, what):
        m, i, o = cur
        if not (mats[m] == len(states[i]) == len(states[o])):
            return True
        res.point()
        got, want = complex(pc.compute_permanent()), oracle.perm_st(M_(m), states[i], states[o])
        if not abs(got - want) <= 1e-9 * max(1, abs(want)):
            res.violate("%s: permanent %r, should be %r" % (what, got, want))
            return False
        return True

    for kind in cls:
        for rest in itertools.product(ops, repeat=item["len"]):
            hist = (tuple(item["first"]),) + rest
            cur = ["gen", 0, 0]
            f = F(M_("gen"), list(states[0]), list(states[0]), T[kind])
            kept = []
            for op in hist + (("gen",),):
                if op[0] == "mat":
                    f.matrix = M_(op[1])
                    cur[0] = op[1]
                elif op[0] == "in":
                    f.input_state = list(states[op[1]])
                    cur[1] = op[1]
                elif op[0] == "out":
                    f.output_state = list(states[op[1]])
                    cur[2] = op[1]
                else:
                    pc = f.generate_calculator()
                    if not isinstance(pc, cls[kind]):
                        return res.violate("type %s yields %s" % (kind, type(pc).__name__))
                    kept.append((pc, tuple(cur)))
            for pc, c in kept + kept[::-1]:
                if not check(pc, c, "%s calculator factory, history %s" % (kind, hist)):
                    return
            # using one product does not disturb the others
            if kept:
                p0 = kept[0][0]
                p0.matrix, p0.input_state, p0.output_state = M_("cplx"), [1, 1], [1, 1]
                for pc, c in kept[1:]:
                    if pc is p0:
                        return res.violate("%s calculator factory returned one object twice" % kind)
                    if not check(pc, c, "%s calculator factory, history %s, another product changed" % (kind, hist)):
                        return


AFTER = [
    [], [("usercalc",)], [("facalc",)], [("facalc_inplace",)], [("usercalc_inplace",)], [("sibling", 1)], [("sibling", 2)],
    [("type", "GCC")], [("type", "UNIFORM_LOSS")], [("cfg", "B")], [("calc", "g")], [("threads", 1)],
    [("field", "eta", 0.9)], [("field", "level", 2)], [("field", "left", 0)],
]


def items(tier):
    deep = tier == "thorough"
    out = []
    for start in TYPES:
        # what is configured: all pairs of changes
        for first in ops_all():
            out.append(dict(type="fac", start=start, before=[first], free=2 if deep else 1, after=[[]]))
        # isolation
        for a in AFTER:
            for c in ([], [("cfg", "C")], [("calc", "g")]):
                out.append(dict(type="fac", start=start, before=c, free=0, after=[a]))
                if deep or not c:
                    out.append(dict(type="fac", start=start, before=c, free=0, after=[a + b for b in AFTER[1:]]))
    for first in [("mat", "gen"), ("mat", "cplx"), ("mat", "gen1")] + [("in", i) for i in range(5)] + [("out", i) for i in range(5)] + [("gen",)]:
        out.append(dict(type="pfac", first=first, len=3 if deep else 2))
    return out
