"""C04: the uniform-loss exact distribution calculator in every pool."""

import itertools

import numpy as np

from .. import domain, oracle
from ..engine import EngineLimit, Explorer
from ..harness import calculator, canon, config, short_tb
from .c03 import check_probs

CALCS = ("ryser", "glynn", "chin_huh", "classic")
ETAS = (0.0, 0.31415926, 0.5, 0.85432167, 1.0)
BOUNDS = {
    "quick": "n<=6/5/4/3/2 for m=1..5; all occupations; eta in {0, .314..., .5, .854..., 1}; 1..3 processors, all assignments of chunks to workers (up to 300 schedules); all histories of 3 out of 8 operations; eta within 1e-6 of 0 and 1; two calculators used in turn; m<=10, n<=12 for sparse cases",
    "thorough": "n<=8/6/5/4/3 for m=1..5; up to 3000 schedules; histories of 4",
}


def build(cfg, pc):
    from theboss.distribution_calculators.bs_exact_distribution_with_uniform_losses import (
        BSDistributionCalculatorWithUniformLosses as D,
    )

    return D(cfg, pc)


def laws(mat, s, eta):
    n = sum(s)
    weightless = {}
    for l in range(n + 1):
        weightless.update(oracle.fixed_loss_law(mat, s, l))
    return oracle.uniform_loss_law(mat, s, eta), weightless


def check_full(res, outs, probs, law, what):
    outs = [canon(o) for o in outs]
    if sorted(outs) != sorted(law):
        res.violate("%s: outcomes %s are not all possible ones" % (what, outs))
        return False
    return check_probs(res, outs, probs, law, what)


def explore(res, fn, cpu, limit, what):
    """Runs fn (returning True if all is well) under every schedule."""
    ex = Explorer(cpu_count=cpu)
    n = 0
    try:
        for vec in ex.schedules(limit):
            n += 1
            for w, kind, v in ex.executions_of(fn):
                if kind == "exc":
                    res.violate("%s: raised %s" % (what, short_tb(v)), schedule=vec)
                elif not v:
                    res.violations[-1]["schedule"] = vec
                if res.violations:
                    res.add(ex, n)
                    return
    except EngineLimit as e:
        res.limits.append("%s: %s" % (what, e))
    res.add(ex, n)


def run(item, res):
    s = tuple(item["s"])
    m, n, eta = len(s), sum(s), item["eta"]
    mat = domain.unitary(item["mat"], m)
    law, wless = laws(mat, s, eta)
    what = "%s, matrix %s, input %s, eta %s, %d processors" % (item["calc"], item["mat"], s, eta, item["cpu"])
    ck, mk = item.get("ck", "list"), item.get("mk", "array")

    def fresh():
        cfg = config(domain.contain_matrix(mat, mk), domain.contain(s, ck), eta=eta, left=item.get("left"))
        pc = calculator(item["calc"], domain.unitary("gen9", m), [1] * m, [1] * m)
        return cfg, pc, build(cfg, pc)

    if item["type"] == "law":

        def fn():
            cfg, pc, d = fresh()
            if item.get("weightless"):
                d.set_weightless(True)
            outs, probs = d.get_outcomes_in_proper_order(), d.calculate_distribution()
            if not check_full(res, outs, probs, wless if item.get("weightless") else law, what):
                return False
            for o, p in zip(map(canon, outs), probs):
                # improbable numbers of particles: small is not the same as never
                if not item.get("weightless") and wless[o] > 1e-3 and not abs(float(p) - law[o]) <= 1e-4 * law[o] + 1e-15:
                    res.violate("%s: outcome %s has probability %.6g, should be %.6g" % (what, o, float(p), law[o]))
                    return False
            return True

        explore(res, fn, item["cpu"], item.get("sched", 300), what)
    elif item["type"] == "pair":
        for name2, s2, eta2 in item["others"]:
            s2 = tuple(s2)
            mat2 = domain.unitary(name2, len(s2))
            law2, wless2 = laws(mat2, s2, eta2)
            for on in (False, True):

                def fn():
                    pc = calculator(item["calc"], mat.copy(), [1] * m, [1] * m)
                    pc2 = pc if item["shared"] else calculator(item["calc"], mat2.copy(), list(s2), list(s2))
                    d = build(config(mat.copy(), list(s), eta=eta), pc)
                    e = build(config(mat2.copy(), list(s2), eta=eta2), pc2)
                    if on:
                        e.set_weightless(True)
                    w = "%s with another calculator (%s, %s, %s)" % (what, name2, s2, eta2)
                    for i in range(2):
                        if not check_full(res, d.get_outcomes_in_proper_order(), d.calculate_distribution(), law, w):
                            return False
                        if not check_full(res, e.get_outcomes_in_proper_order(), e.calculate_distribution(), wless2 if on else law2, w + ", the other one"):
                            return False
                    return True

                explore(res, fn, item["cpu"], 2, what)
                if res.violations:
                    return
    elif item["type"] == "hist":
        keys = sorted(law)
        ops = ("full", "rev", "dup", "none", "on", "off", "cfg", "iter")

        for seq in itertools.product(ops, repeat=item["len"]):
            if seq[0] != item["first"]:
                continue

            def fn():
                cfg, pc, d = fresh()
                cur = law
                for i, k in enumerate(seq + ("full", "on", "full", "off", "full")):
                    w = what + ", history %s" % (seq[: i + 1],)
                    if k == "full":
                        if not check_full(res, d.get_outcomes_in_proper_order(), d.calculate_distribution(), cur, w):
                            return False
                    elif k == "rev":
                        o = keys[::-1]
                        if not check_probs(res, o, d.calculate_probabilities_of_outcomes(o), cur, w):
                            return False
                    elif k == "dup":
                        o = [list(keys[-1]), np.array(keys[0]), tuple(keys[-1]), list(keys[len(keys) // 2])]
                        if not check_probs(res, o, d.calculate_probabilities_of_outcomes(o), cur, w):
                            return False
                    elif k == "iter":
                        if not check_probs(res, keys, d.calculate_probabilities_of_outcomes(iter(keys)), cur, w):
                            return False
                    elif k == "none":
                        if not check_probs(res, [], d.calculate_probabilities_of_outcomes([]), cur, w):
                            return False
                    elif k == "on":
                        d.set_weightless(True)
                        cur = wless
                    elif k == "off":
                        d.set_weightless(False)
                        cur = law
                    elif k == "cfg":
                        cfg.initial_number_of_particles = 1
                        cfg.number_of_modes = 1
                        cfg.uniform_transmissivity = 0.123
                        cfg.initial_state[0] += 1
                        cfg.interferometer_matrix[:] = 0
                return True

            explore(res, fn, item["cpu"], 1, what + str(seq))
            if res.violations:
                return


def items(tier):
    deep = tier == "thorough"
    out = []
    lim = {1: 8, 2: 6, 3: 5, 4: 4, 5: 3} if deep else {1: 6, 2: 5, 3: 4, 4: 3, 5: 2}
    for m in lim:
        for n in range(lim[m] + 1):
            for s in oracle.states(n, m):
                for eta in ETAS:
                    out.append(dict(type="law", s=list(s), eta=eta, mat="gen", calc=CALCS[(n + m) % 4], cpu=1, sched=1))
                for mat in ("id", "perm", "bs", "qft"):
                    out.append(dict(type="law", s=list(s), eta=0.6, mat=mat, calc="ryser", cpu=2, sched=1))
                out.append(dict(type="law", s=list(s), eta=0.35, mat="real", calc="ryser", cpu=3, sched=1, weightless=True))
    # schedules: processors, chunking, assignment of chunks
    big = 3000 if deep else 300
    for s in ((1,), (1, 0), (1, 1), (2, 0), (0, 1, 1)):
        for cpu in (1, 2, 3, 5):
            for calc in CALCS if cpu == 2 else ("ryser",):
                out.append(dict(type="law", s=list(s), eta=0.7, mat="gen", calc=calc, cpu=cpu, sched=big))
    for cpu in (1, 2, 3, 4, 5, 7, 8, 16, 64):  # chunk sizes
        for s in ((1, 1, 0), (2, 1), (1, 1, 1)):
            out.append(dict(type="law", s=list(s), eta=0.7, mat="gen", calc="ryser", cpu=cpu, sched=3))
    for s in ((1, 1), (2, 0, 1)):
        for ck in ("tuple", "array", "ro", "i4", "view", "npint"):
            for mk in ("list", "tuple", "fortran", "ro"):
                out.append(dict(type="law", s=list(s), eta=0.4, mat="gen", calc="ryser", cpu=1, sched=1, ck=ck, mk=mk))
        for left in range(sum(s) + 1):  # the configured number left plays no role
            out.append(dict(type="law", s=list(s), eta=0.4, mat="gen", calc="ryser", cpu=1, sched=1, left=left))
    for eta in (1e-3, 0.999, 1 - 1e-6, 1e-6, 1 - 1e-7, 1e-7, 1 / 3):
        for s in ((1,), (1, 1), (2, 0), (3, 1), (1, 0, 1)):
            for cpu in (1, 2):
                out.append(dict(type="law", s=list(s), eta=eta, mat="gen", calc="ryser", cpu=cpu, sched=1, weightless=cpu == 2 and eta == 1e-3))
                out.append(dict(type="law", s=list(s), eta=eta, mat="wk3", calc="ryser", cpu=cpu, sched=1))
    for s in ((0, 0, 1, 0, 0, 1, 0), (1, 0, 1, 0, 1, 0), (8,), (0, 7), (5, 1), (0, 0, 4), (1,) * 5, (0,) * 9 + (1,), (11, 1), (1, 10)):
        for mat in ("gen", "rev") if sum(s) < 9 else ("rev", "bs"):
            for wl in (False, True):
                out.append(dict(type="law", s=list(s), eta=0.55, mat=mat, calc="ryser", cpu=4, sched=1, weightless=wl))
    for s in ((10,), (12,), (13,), (9, 2), (2, 8)):
        out.append(dict(type="law", s=list(s), eta=0.45, mat="gen", calc="ryser", cpu=4, sched=1))
    for shared in (False, True):
        for calc in CALCS:
            for mat, s, eta in (("gen", (1, 1), 0.6), ("qft", (2, 0, 1), 0.5), ("gen", (0, 2), 1.0)):
                others = [(n2, s2, eta) for n2 in (mat, mat + "^T", mat + "*", mat + "|", mat + "~", "gen2") for s2 in (s, s[::-1])]
                others += [(mat, s, x) for x in (0.0, 0.601, 1.0)] + [("gen", (1, 1, 0), eta), ("gen", (2,), eta), ("gen", (3, 1), eta)]
                out.append(dict(type="pair", s=list(s), eta=eta, mat=mat, calc=calc, others=others, shared=shared, cpu=2))
    for s in ((1, 1), (2, 1)):
        for first in ("full", "rev", "dup", "none", "on", "off", "cfg", "iter"):
            out.append(dict(type="hist", s=list(s), eta=0.7, mat="gen", calc="ryser", cpu=2, len=4 if deep else 3, first=first))
    return out
