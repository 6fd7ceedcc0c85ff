"""C03: the fixed-loss exact distribution calculator."""

import itertools

import numpy as np

from .. import domain, oracle
from ..harness import calculator, config, canon

MATS = ("gen", "id", "perm", "qft", "bs", "real")
CALCS = ("ryser", "glynn", "chin_huh", "classic")
BOUNDS = {
    "quick": "n<=7/6/5/4/3 for m=1..5; all occupations, all numbers left; 6 unitaries (+ lossy matrices); 4 calculators; all query histories of 3 out of 7 kinds; all configuration mutations; two calculators used in turn (similar matrices, own or common permanent calculator); m<=10, n<=12 for sparse cases; up to 260 particles with few left",
    "thorough": "n<=9/7/6/5/4/3 for m=1..6; histories of 4",
}
TOL = 1e-9


def build(cfg, pc):
    from theboss.distribution_calculators.bs_distribution_calculator_with_fixed_losses import (
        BSDistributionCalculatorWithFixedLosses as D,
    )

    return D(cfg, pc)


def matrix(name, m):
    return domain.lossy(name[2:], m) if name.startswith("l:") else domain.unitary(name, m)


def check_probs(res, outs, probs, law, what):
    probs = [float(p) for p in probs]
    if len(outs) != len(probs):
        res.violate("%s: %d probabilities for %d outcomes" % (what, len(probs), len(outs)))
        return False
    for o, p in zip(outs, probs):
        if not abs(p - law[tuple(int(x) for x in o)]) <= TOL:
            res.violate("%s: outcome %s has probability %.12g, should be %.12g" % (what, o, p, law[tuple(int(x) for x in o)]))
            return False
        if p < 0:
            res.violate("%s: negative probability" % what)
            return False
    return True


def check_full(res, d, law, what):
    outs = [canon(o) for o in d.get_outcomes_in_proper_order()]
    if sorted(outs) != sorted(law):
        res.violate("%s: outcomes %s are not all possible ones" % (what, outs))
        return False
    return check_probs(res, outs, d.calculate_distribution(), law, what)


def run(item, res):
    m = len(item["s"])
    s, left = tuple(item["s"]), item["left"]
    mat = matrix(item["mat"], m)
    law = oracle.fixed_loss_law(mat, s, left)
    what = "%s, matrix %s, input %s, %d left" % (item["calc"], item["mat"], s, left)
    if not item["mat"].startswith("l:"):
        assert abs(sum(law.values()) - 1) < 1e-9
    ck, mk = item.get("ck", "list"), item.get("mk", "array")

    def fresh():
        cfg = config(domain.contain_matrix(mat, mk), domain.contain(s, ck), left=left)
        # the calculator may come with another matrix and other states
        pc = calculator(item["calc"], domain.unitary("gen9", m), [1] * m, [1] * m)
        return cfg, pc, build(cfg, pc)

    if item["type"] == "law":
        cfg, pc, d = fresh()
        res.point(len(law))
        check_full(res, d, law, what)
        return
    if item["type"] == "pair":
        # two calculators in one process, used in turn
        a = (mat, s, left, law)
        for name2, s2, left2 in item["others"]:
            m2 = len(s2)
            mat2 = matrix(name2, m2)
            b = (mat2, tuple(s2), left2, oracle.fixed_loss_law(mat2, s2, left2))
            for order in ("ab", "aab", "bab", "abab"):
                made = {}
                pcs = calculator(item["calc"], mat.copy(), [1] * m, [1] * m)
                for k in order:
                    x = a if k == "a" else b
                    if k not in made:
                        pc = pcs if item["shared"] else calculator(item["calc"], x[0].copy(), list(x[1]), list(x[1]))
                        made[k] = build(config(x[0].copy(), list(x[1]), left=x[2]), pc)
                    res.point()
                    if not check_full(res, made[k], x[3], "%s after another calculator (%s, %s, %d left)" % (what, name2, s2, left2)):
                        return
        return
    if item["type"] == "hist":
        keys = sorted(law)
        other = oracle.states(left, m)[::2]
        cfg0, pc0, d0 = fresh()
        d0 = None

        def q_full(d, cfg, pc):
            return check_full(res, d, law, w)

        def q_rev(d, cfg, pc):
            return check_probs(res, keys[::-1], d.calculate_probabilities_of_outcomes(keys[::-1]), law, w)

        def q_dup(d, cfg, pc):
            o = [list(other[0]), np.array(other[-1]), tuple(other[0])]
            return check_probs(res, o, d.calculate_probabilities_of_outcomes(o), law, w)

        def q_iter(d, cfg, pc):
            return check_probs(res, keys, d.calculate_probabilities_of_outcomes(iter(keys)), law, w)

        def q_none(d, cfg, pc):
            return check_probs(res, [], d.calculate_probabilities_of_outcomes([]), law, w)

        def q_cfg(d, cfg, pc):  # the caller goes on to use his configuration
            cfg.number_of_particles_left = 0
            cfg.number_of_particles_lost = 7
            cfg.initial_number_of_particles = 3
            cfg.number_of_modes = 1
            cfg.uniform_transmissivity = 0.3
            if isinstance(cfg.initial_state, list):
                cfg.initial_state[0] += 1
            cfg.initial_state = [0]
            if isinstance(cfg.interferometer_matrix, np.ndarray):
                cfg.interferometer_matrix[:] = 0
            cfg.interferometer_matrix = np.zeros((1, 1))
            return True

        def q_pc(d, cfg, pc):  # ... and his permanent calculator
            pc.matrix = domain.unitary("gen7", m)
            pc.input_state = [2] + [0] * (m - 1)
            pc.output_state = [0] * (m - 1) + [2]
            pc.compute_permanent()
            return True

        O = dict(full=q_full, rev=q_rev, dup=q_dup, iter=q_iter, none=q_none, cfg=q_cfg, pc=q_pc)
        for seq in itertools.product(O, repeat=item["len"]):
            cfg, pc, d = fresh()
            for i, k in enumerate(seq):
                w = what + ", history %s" % (seq[: i + 1],)
                res.point()
                if not O[k](d, cfg, pc):
                    return
            w = what + ", history %s, then full" % (seq,)
            if not q_full(d, cfg, pc):
                return


def items(tier):
    deep = tier == "thorough"
    out = []
    lim = {1: 9, 2: 7, 3: 6, 4: 5, 5: 4, 6: 3} if deep else {1: 7, 2: 6, 3: 5, 4: 4, 5: 3}
    for m in lim:
        for n in range(lim[m] + 1):
            for s in oracle.states(n, m):
                for left in range(n + 1):
                    mats = MATS if n <= 3 else ("gen", "bs")
                    for i, mat in enumerate(mats):
                        out.append(
                            dict(type="law", s=list(s), left=left, mat=mat, calc=CALCS[(i + left + n) % 4] if n > 2 or m > 3 else "ryser")
                        )
                        if n <= 2 and m <= 3:
                            for c in CALCS[1:]:
                                out.append(dict(type="law", s=list(s), left=left, mat=mat, calc=c))
    for s in ((1, 1), (2, 0, 1), (0, 2)):
        for left in range(sum(s) + 1):
            for mat in ("l:mid", "l:part", "l:zero"):
                out.append(dict(type="law", s=list(s), left=left, mat=mat, calc="ryser"))
            for ck in ("tuple", "array", "ro", "i4", "view", "npint"):
                for mk in ("list", "tuple", "fortran", "ro"):
                    out.append(dict(type="law", s=list(s), left=left, mat="gen", calc=CALCS[left % 4], ck=ck, mk=mk))
    # wide and crowded
    for s in ((0, 0, 1, 0, 0, 1, 0), (1, 0, 1, 0, 1, 0), (8,), (0, 7), (5, 1), (0, 0, 4), (1,) * 5, (0,) * 9 + (1,), (11, 1), (1, 10), (0, 3, 0, 2)):
        for left in {0, 1, 2, sum(s) - 1, sum(s)} & set(range(sum(s) + 1)):
            if left > 4 and len(s) > 3:
                continue
            for mat in ("gen", "rev") if sum(s) < 9 else ("rev", "bs"):
                out.append(dict(type="law", s=list(s), left=left, mat=mat, calc="ryser" if left > 5 else CALCS[left % 4]))
    # many particles, few (or all but few) left: large multiplicities
    for s, lefts in (
        ((13,), (1, 2, 5, 6, 7, 8, 12, 13)), ((16,), (1, 3, 4, 13, 15)), ((20,), (1, 3, 4, 18)), ((40,), (1, 2, 3, 39)), ((70,), (1, 2)), ((130,), (1, 2)), ((260,), (1,)),
        ((10, 10), (2, 4)), ((14, 2), (4, 5, 6)), ((0, 13), (6,)), ((8, 8), (2, 4, 5)), ((6, 6, 6), (2, 4)), ((40, 1), (1, 2)), ((1,) * 12, (1, 2)), ((1,) * 20, (1,)),
    ):
        for left in lefts:
            for mat in ("gen", "bs"):
                if left < 9 or len(s) == 1 and mat == "gen" and left < 14:
                    out.append(dict(type="law", s=list(s), left=left, mat=mat, calc="ryser" if left > 5 else CALCS[left % 4]))
    for mat in ("l:near", "l:even:0.5:1e-3:gen2", "l:uni:0.5:gen", "l:diag", "gen~", "gen=", "wk2", "wk3", "wk4"):
        for s in ((1, 1), (2, 1), (1, 0, 1)):
            for left in range(sum(s) + 1):
                out.append(dict(type="law", s=list(s), left=left, mat=mat, calc=CALCS[left % 4]))
    for shared in (False, True):
        for calc in CALCS:
            for mat, s, left in (("gen", (1, 1), 2), ("gen", (1, 1), 1), ("qft", (2, 0, 1), 2), ("gen", (0, 2), 2)):
                others = [(n2, s2, l2) for n2 in (mat, mat + "^T", mat + "*", mat + "|", mat + "~", mat + "=", "gen2") for s2, l2 in ((s, left), (s[::-1], left))]
                others += [(mat, s, l) for l in range(sum(s) + 1) if l != left] + [("gen", (1, 1, 0), 2), ("gen", (2,), 1), ("gen", (3, 1), left)]
                out.append(dict(type="pair", s=list(s), left=left, mat=mat, calc=calc, others=others, shared=shared))
    for calc in CALCS:
        for s, left in (((1, 1), 1), ((2, 0, 1), 2), ((1, 1), 2), ((0, 1, 1), 0)):
            for ck in ("list", "array"):
                out.append(dict(type="hist", s=list(s), left=left, mat="gen", calc=calc, ck=ck, len=4 if deep else 3))
    return out
