"""C21: the wrapper of the R sampler, against a stand-in for rpy2."""

import importlib
import itertools
import sys
import types

import numpy as np

from .. import domain, oracle
from ..engine import EngineLimit
from ..harness import canon

BOUNDS = {
    "quick": "all inputs with m<=3, 1<=n<=3 (and m=4, n<=2; every mode of up to 300 occupied or answered); N<=3 samples (N<=200 with one differing answer at every position; 20 N up to 10001); every answer R may give (all mode assignments, any order) up to 3000 per case; 5 matrix containers; all histories of 3 operations (matrix changes, simulations); find_probabilities for every answer order",
    "thorough": "N<=4, up to 60000 answers per case; histories of 4",
}
ASSUMPTIONS = ["rpy2 and R are replaced by a stand-in with the documented interface of BosonSampling::bosonSampler"]

_mod = None


class RMatrix:
    def __init__(self, values, nrow, ncol):
        self.a = np.array([complex(v) for v in values]).reshape((int(ncol), int(nrow))).T  # R fills columns


class Sampler:
    """bosonSampler: answers as scripted, records the calls."""

    def __init__(self):
        self.calls = []
        self.answers = []
        self.pmf = None

    def __call__(self, A, sampleSize=1, perm=False, **kw):
        a = A.a if isinstance(A, RMatrix) else np.asarray(A)
        self.calls.append((a, int(sampleSize), bool(perm)))
        N = int(sampleSize)
        got = [self.answers.pop(0) for _ in range(N)]
        values = [x for s in got for x in s]  # one sample per column
        pm = [self.pmf(s) for s in got] if self.pmf and perm else []
        return values, [0j] * len(pm), pm


SAMPLER = Sampler()


def stub():
    """A stand-in for rpy2 in sys.modules; returns the wrapper class."""
    global _mod
    if _mod is not None:
        return _mod.CliffordsRSimulationStrategy
    for k in [k for k in sys.modules if k == "rpy2" or k.startswith("rpy2.")]:
        del sys.modules[k]

    def unknown(name):
        def f(attr):
            if attr.startswith("__"):
                raise AttributeError(attr)
            raise EngineLimit("%s.%s is not part of the stand-in for R" % (name, attr))

        return f

    rpy2 = types.ModuleType("rpy2")
    rpy2.__path__ = []
    ro = types.ModuleType("rpy2.robjects")
    ro.__path__ = []
    pk = types.ModuleType("rpy2.robjects.packages")
    rpy2.robjects, ro.packages = ro, pk

    class R:
        @staticmethod
        def matrix(values, nrow=None, ncol=None, **kw):
            v = list(values)
            nrow = len(v) // int(ncol) if nrow is None else nrow
            ncol = len(v) // int(nrow) if ncol is None else ncol
            m = RMatrix.__new__(RMatrix)
            if kw.pop("byrow", False):
                m.a = np.array([complex(x) for x in v]).reshape((int(nrow), int(ncol)))
            else:
                m.__init__(v, nrow, ncol)
            if kw:
                raise EngineLimit("matrix(%s) is not part of the stand-in for R" % kw)
            return m

        def __getitem__(self, k):
            return getattr(self, k)

    class Vector(list):
        def __init__(self, v):
            super().__init__([complex(x) for x in v])

    ro.r = R()
    ro.ComplexVector = Vector
    pkg = types.SimpleNamespace(bosonSampler=SAMPLER)
    pk.importr = lambda name, *a, **k: pkg
    pk.isinstalled = lambda name, *a, **k: True
    rpy2.__getattr__ = unknown("rpy2")
    ro.__getattr__ = unknown("robjects")
    pk.__getattr__ = unknown("packages")
    sys.modules["rpy2"], sys.modules["rpy2.robjects"], sys.modules["rpy2.robjects.packages"] = rpy2, ro, pk
    _mod = importlib.import_module("theboss.simulation_strategies.cliffords_r_simulation_strategy")
    return _mod.CliffordsRSimulationStrategy


def columns(mat, s):
    """The columns of the occupied modes, once per particle (as a multiset)."""
    cols = [j for j, k in enumerate(s) for _ in range(k)]
    return np.asarray(mat, dtype=complex)[:, cols]


def same_columns(a, b):
    if a.shape != b.shape:
        return False
    key = lambda x: sorted([tuple((round(v.real, 9) + 0.0, round(v.imag, 9) + 0.0) for v in c) for c in x.T])
    return key(a) == key(b)


def occ(ans, m):
    t = [0] * m
    for x in ans:
        t[x - 1] += 1
    return tuple(t)


def one(res, st, mat, s, N, answers, what, ck="list", default=False):
    m = len(s)
    SAMPLER.calls.clear()
    SAMPLER.answers = [list(a) for a in answers]
    x = domain.contain(s, ck)
    got = st.simulate(x) if default else st.simulate(x, N)
    res.point()
    if not SAMPLER.calls or sum(c[1] for c in SAMPLER.calls) != N:
        res.violate("%s: R is asked for %s samples instead of %d" % (what, [c[1] for c in SAMPLER.calls], N))
        return False
    for a, _, _ in SAMPLER.calls:
        if not same_columns(a, columns(mat, s)):
            res.violate("%s: R gets columns %s, should be those of the modes occupied in %s" % (what, np.round(a, 3).tolist(), s))
            return False
    want = [occ(a, m) for a in answers]
    if [canon(g) for g in got] != want:
        res.violate("%s: R answers %s, returned %s, should be %s" % (what, list(answers), got, want))
        return False
    return True


def run(item, res):
    C = stub()
    SAMPLER.pmf = None
    t = item["type"]
    if t == "answers":
        s = tuple(item["s"])
        m, n, N = len(s), sum(s), item["N"]
        mat = domain.unitary(item["mat"], m)
        st = C(domain.contain_matrix(mat, item["mk"]))
        one_sample = list(itertools.product(range(1, m + 1), repeat=n))
        cnt = 0
        for answers in itertools.product(one_sample, repeat=N):
            cnt += 1
            if cnt > item["cap"]:
                break
            if not one(res, st, mat, s, N, answers, "input %s, %d samples" % (s, N), item["ck"], item.get("default", False)):
                return
        return
    if t == "many":
        # one answer differs from the others, at every position; all answers different
        s = tuple(item["s"])
        m, n = len(s), sum(s)
        mat = domain.unitary("gen", m)
        st = C(mat.copy())
        outs = [[i + 1 for i, k in enumerate(t) for _ in range(k)] for t in oracle.states(n, m)]
        for N in item["Ns"]:
            for i in range(N) if N <= 200 else sorted({0, 1, N // 2, N - 2, N - 1}):
                a = [outs[0]] * N
                a[i] = outs[-1]
                if not one(res, st, mat, s, N, a, "input %s, %d samples" % (s, N)):
                    return
            for step in (1, 2):
                a = [outs[step * j % len(outs)] for j in range(N)]
                if not one(res, st, mat, s, N, a, "input %s, %d samples" % (s, N)):
                    return
        return
    if t == "wide":
        # every mode answered, every mode occupied
        m = item["m"]
        mat = domain.unitary("qft", m)
        st = C(mat.copy())
        for j in range(m):
            s = [0] * m
            s[j] += 1
            s[(3 * j + 1) % m] += 1
            if not one(res, st, mat, tuple(s), 2, [[j + 1, m - j], [m, j + 1]], "%d modes, particles in modes %d and %d" % (m, j, (3 * j + 1) % m)):
                return
        return
    if t == "hist":
        m = item["m"]
        mats = {k: domain.unitary(k, m) for k in ("gen", "gen1", "perm")}
        states = [s for s in oracle.states(1, m) + oracle.states(2, m)]
        ops = [("mat", k) for k in mats] + [("sim", s) for s in states] + [("other", "gen1")]
        for hist in itertools.product(ops, repeat=item["len"]):
            cur = "gen"
            st = C(mats[cur].copy())
            for op in hist + (("sim", states[0]), ("sim", states[-1])):
                if op[0] == "mat":
                    cur = op[1]
                    st.set_matrix(mats[cur].copy())
                elif op[0] == "other":
                    o = C(mats[op[1]].copy())
                    SAMPLER.answers = [[1]]
                    o.simulate([1] + [0] * (m - 1), 1)
                else:
                    n = sum(op[1])
                    ans = [[1 + (i + j) % m for i in range(n)] for j in range(2)]
                    if not one(res, st, mats[cur], op[1], 2, ans, "history %s" % (hist,)):
                        return
        return
    if t == "find":
        # the sanity-check methods: every outcome with the probability R reports
        s = tuple(item["s"])
        m, n = len(s), sum(s)
        mat = domain.unitary("gen", m)
        law = oracle.law(mat, s)
        if item.get("equal"):
            law = {t: 1.0 / len(law) for t in law}  # any probabilities R may report
        SAMPLER.pmf = lambda a: law[occ(a, m)]
        outs = oracle.states(n, m)
        cols = {t: [i + 1 for i, k in enumerate(t) for _ in range(k)] for t in outs}
        for k, perm in enumerate(itertools.permutations(outs)):
            if k >= item["cap"]:
                break
            for interest in (outs, outs[1:], [list(x) for x in outs[:1]]):
                st = C(mat.copy())
                SAMPLER.calls.clear()
                SAMPLER.answers = [cols[t][::-1] for t in perm for _ in range(2)]
                got = st.find_probabilities(list(s), interest)
                res.point()
                if {canon(k): v for k, v in got.items()} != {tuple(o): law[tuple(o)] for o in interest}:
                    return res.violate("find_probabilities of %s returned %s" % (interest, got))
                if not all(same_columns(c[0], columns(mat, s)) for c in SAMPLER.calls):
                    return res.violate("find_probabilities hands over wrong columns for input %s" % (s,))
            SAMPLER.answers = [cols[t] for t in perm for _ in range(2)]
            SAMPLER.calls.clear()
            got = C(mat.copy()).find_probabilities_of_n_random_states(tuple(s), len(outs) + 3)
            res.point()
            if {canon(k): v for k, v in got.items()} != {o: law[o] for o in outs}:
                return res.violate("find_probabilities_of_n_random_states returned %s" % dict(got))
            if not all(same_columns(c[0], columns(mat, s)) for c in SAMPLER.calls):
                return res.violate("find_probabilities_of_n_random_states hands over wrong columns for input %s" % (s,))
        return
    if t == "factory":
        from theboss.simulation_strategies.simulation_strategy_factory import SimulationStrategyFactory, StrategyType
        from ..harness import calculator, config

        for s in ((1, 0), (0, 1), (1, 0, 1), (0, 2)):
            m = len(s)
            mat, other = domain.unitary("gen", m), domain.unitary("gen1", m)
            f = SimulationStrategyFactory(config(mat, s), calculator("ryser", other, s, s), StrategyType.CLIFFORD_R)
            st = f.generate_strategy()
            ans = [[1 + (i + j) % m for i in range(sum(s))] for j in range(2)]
            if not one(res, st, mat, s, 2, ans, "factory product, input %s" % (s,)):
                return
            f.experiment_configuration = config(other, s)
            st2 = f.generate_strategy()
            if not one(res, st2, other, s, 2, ans, "second factory product") or not one(res, st, mat, s, 2, ans, "first factory product"):
                return


def items(tier):
    deep = tier == "thorough"
    cap = 60000 if deep else 3000
    out = [dict(type="factory")]
    shapes = [(m, n) for m in (1, 2, 3) for n in (1, 2, 3)] + [(4, 1), (4, 2)]
    for m, n in shapes:
        for s in oracle.states(n, m):
            for N in range(1, 5 if deep else 4):
                out.append(dict(type="answers", s=list(s), N=N, mat="gen", mk="array", ck="list", cap=cap))
            for mk, ck in (("list", "tuple"), ("tuple", "array"), ("fortran", "ro"), ("ro", "ro"), ("array", "array")):
                out.append(dict(type="answers", s=list(s), N=2, mat="qft", mk=mk, ck=ck, cap=60))
            out.append(dict(type="answers", s=list(s), N=1, mat="real", mk="list", ck="list", cap=60, default=True))
            out.append(dict(type="answers", s=list(s), N=1, mat="iperm", mk="array", ck="list", cap=60))
    for s in ((1, 0), (1, 1), (0, 2, 1), (1, 1, 1, 1), (0,) * 10 + (1, 1), (1,) * 12, (0, 5)):
        out.append(dict(type="many", s=list(s), Ns=list(range(1, 40)) + [63, 64, 65, 100, 128, 200, 255, 256, 257, 500, 501, 999, 1000, 1001, 1023, 1024, 1025, 2000, 2001, 2049, 4096, 4097, 5000, 5001, 10000, 10001]))
    for m in (5, 9, 10, 16, 33, 64, 100, 127, 128, 129, 130, 200, 256, 257, 300):
        out.append(dict(type="wide", m=m))
    for m in (2, 3):
        out.append(dict(type="hist", m=m, len=(4 if deep else 3) if m == 2 else (3 if deep else 2)))
    for s in ((1, 0), (0, 1), (1, 1), (1, 0, 1), (0, 0, 1), (0, 1, 0)):
        for equal in (False, True):
            out.append(dict(type="find", s=list(s), equal=equal, cap=720 if deep else 120))
    return out
