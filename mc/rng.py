"""Interposition of numpy.random and random (the code under test sees these)."""

import itertools
import math
import os
import random as pyrandom
import sys

import numpy as np

from . import engine, faults
from .engine import EngineLimit, Lazy, LazyArray, _U

BIG = 4096  # integer draws over more values than this become opaque entropy
UMAX = 1.0 - 2.0 ** -53

# real objects, kept before anything is patched
REAL = {
    "RandomState": np.random.RandomState,
    "SeedSequence": np.random.SeedSequence,
    "default_rng": np.random.default_rng,
    "Random": pyrandom.Random,
    "getpid": os.getpid,
    "urandom": os.urandom,
}


class EntropyInt(int):
    """An integer that stands for a fresh random number (no branching)."""

    def __new__(cls, tag):
        v = (hash(tag) & 0x7FFFFFFF) | 1
        o = int.__new__(cls, v)
        o.tag = tag
        return o

    def __reduce__(self):
        return (EntropyInt, (self.tag,))

    def __deepcopy__(self, memo):
        return self


class FakeSeedSequence(np.random.SeedSequence):
    def __init__(self, entropy=None, **kw):
        if entropy is None and engine.current is not None:
            entropy = EntropyInt(fresh_sid("ss"))
        super().__init__(entropy, **kw)


def _constant(sid):
    """Is this the stream of a constant seed (fixed values, no randomness)?"""
    if len(sid) >= 2 and sid[1] in ("int", "seq", "str"):
        return True
    if len(sid) >= 3 and sid[1] == "ss":
        return not isinstance(sid[2], tuple)
    if len(sid) >= 2 and sid[1] == "child":
        return _constant(sid[0])
    return False


def _const_u(st):
    ex = engine.active()
    if not ex.path_seeds:
        ex.path_seeds.append(repr(st.sid))
    ex.const_used = True
    h = hash((repr(st.sid), st.pos)) & 0xFFFFFFFF
    return REAL["RandomState"](h).random_sample()


class State:
    """A position in a random stream."""

    __slots__ = ("sid", "pos", "kind")

    def __init__(self, sid, pos=0, kind="np"):
        self.sid = sid
        self.pos = pos
        self.kind = kind

    def copy(self):
        return State(self.sid, self.pos, self.kind)

    def __getstate__(self):
        return (self.sid, self.pos, self.kind)

    def __setstate__(self, s):
        self.sid, self.pos, self.kind = s


class Context:
    """The random state of one (virtual) process."""

    def __init__(self, name, np_state, py_state, pid):
        self.name = name
        self.np = np_state
        self.py = py_state
        self.pid = pid
        self.mem = None  # module and class level data, see procmem
        self.module_level = {}  # generators created while modules were imported


_contexts = []


_import_seeds = {}  # constant seeds set while modules were imported


def reset_contexts():
    del _contexts[:]
    _contexts.append(
        Context(
            "main",
            State(_import_seeds.get("np", ("np-main",))),
            State(_import_seeds.get("py", ("py-main",)), kind="py"),
            1000,
        )
    )


def context():
    return _contexts[-1]


def fresh_sid(tag):
    ex = engine.active()
    ex.fresh += 1
    return (tag, ex.fresh)


def fork_context(name, pid):
    c = context()
    # CPython reseeds `random` in a forked child, numpy does not.
    f = Context(name, c.np.copy(), State(fresh_sid("py-fork"), kind="py"), pid)
    f.module_level = {k: v.copy() for k, v in c.module_level.items()}
    return f


def spawn_context(name, pid):
    return Context(
        name,
        State(_import_seeds.get("np") or fresh_sid("np-spawn")),
        State(_import_seeds.get("py") or fresh_sid("py-spawn"), kind="py"),
        pid,
    )


# -- primitives ---------------------------------------------------------------


def _memo(st, kind, key, make):
    ex = engine.active()
    faults.point("random draw")
    k = (st.sid, st.pos, kind, key)
    st.pos += 1
    if k in ex.memo:
        return ex.memo[k]
    v = make(ex)
    ex.memo[k] = v
    return v


def draw_u(st):
    def make(ex):
        if ex.guide is not None:
            return Lazy(_U(ex, hidden=ex.guide.u(st)))
        if _constant(st.sid):
            return _const_u(st)
        if ex.boundary_budget:
            if ex.boundary_used < ex.boundary_budget:
                i = ex.choose([1, 0.01, 0.01], "boundary")
                if i:
                    ex.boundary_used += 1
                    return 0.0 if i == 1 else UMAX
        return Lazy(_U(ex))

    return _memo(st, "u", None, make)


def draw_cat(st, weights, key, guide_call=None):
    weights = [float(w) for w in weights]

    def make(ex):
        if ex.guide is not None:
            if guide_call is None:
                raise EngineLimit("guided draw of kind %s" % (key,))
            i = guide_call(ex.guide.real(st))
            pos = [j for j, w in enumerate(weights) if w > engine.EPS_ALT]
            if len(pos) > 0:
                ex.forced(i, str(key))
            return i
        if _constant(st.sid):
            u = _const_u(st) * sum(weights)
            for i, w in enumerate(weights):
                u -= w
                if u < 0:
                    return i
            return max(range(len(weights)), key=lambda i: weights[i])
        return ex.choose(weights, str(key))

    return _memo(st, "c", (key, tuple(weights)), make)


def _shape(size):
    if size is None:
        return None
    if isinstance(size, (int, np.integer)):
        return (int(size),)
    return tuple(int(s) for s in size)


def _sized(size, one, lazy=True):
    sh = _shape(size)
    if sh is None:
        return one()
    n = int(np.prod(sh)) if sh else 1
    vals = [one() for _ in range(n)]
    return LazyArray.build(vals, sh) if lazy else np.array(vals).reshape(sh)


def _entropy(st, key):
    def make(ex):
        if ex.guide is not None:
            raise EngineLimit("guided entropy")
        return EntropyInt((st.sid, st.pos, key))

    return _memo(st, "e", key, make)


def draw_int(st, lo, hi, guide_call=None):
    """Uniform integer in [lo, hi)."""
    lo, hi = int(lo), int(hi)
    if hi <= lo:
        raise ValueError("low >= high")
    n = hi - lo
    if n > BIG:
        return _entropy(st, ("int", lo, hi))
    return lo + draw_cat(
        st, [1.0 / n] * n, ("int", n), (lambda r: int(guide_call(r)) - lo) if guide_call else None
    )


def draw_perm(st, n, guide_call=None):
    if n > 7:
        raise EngineLimit("permutation of %d elements" % n)
    perms = list(itertools.permutations(range(n)))
    if n <= 1 and engine.active().guide is None:
        st.pos += 1
        return perms[0]
    i = draw_cat(
        st,
        [1.0 / len(perms)] * len(perms),
        ("perm", n),
        (lambda r: perms.index(tuple(int(x) for x in guide_call(r)))) if guide_call else None,
    )
    return perms[i]


def _binomial_weights(n, p):
    return [math.comb(n, k) * p ** k * (1 - p) ** (n - k) for k in range(n + 1)]


def _check_p(p, n):
    p = np.asarray(p, dtype=float)
    if p.ndim != 1:
        raise ValueError("'p' must be 1-dimensional")
    if p.size != n:
        raise ValueError("'a' and 'p' must have same size")
    if np.isnan(p).any():
        raise ValueError("probabilities contain NaN")
    if (p < 0).any():
        raise ValueError("probabilities are not non-negative")
    if abs(math.fsum(p) - 1.0) > np.sqrt(np.finfo(np.float64).eps):
        raise ValueError("probabilities do not sum to 1")
    return p


def np_choice(st, a, size=None, replace=True, p=None, legacy=True):
    if isinstance(a, (int, np.integer)) or (isinstance(a, np.ndarray) and a.ndim == 0):
        n = int(a)
        pop = None
        if n <= 0:
            raise ValueError("a must be greater than 0 unless no samples are taken")
    else:
        pop = np.array(a, copy=False) if not isinstance(a, (range, list, tuple)) else np.array(a)
        n = len(pop)
        if pop.ndim != 1 and legacy:
            raise ValueError("a must be 1-dimensional")
        if n == 0 and _shape(size) != (0,):
            raise ValueError("'a' cannot be empty unless no samples are taken")
    if p is not None:
        p = _check_p(p, n)
    sh = _shape(size)
    if sh is None or replace:

        def one():
            if p is None:
                i = draw_int(st, 0, n, (lambda r: r.randint(0, n)) if legacy else None)
            else:
                i = draw_cat(
                    st, list(p), ("choice", n), (lambda r: int(r.choice(n, p=p))) if legacy else None
                )
            return i

        if sh is None:
            i = one()
            return np.int64(i) if pop is None else pop[i]
        if engine.active().guide is not None:
            raise EngineLimit("guided sized choice")
        idx = np.array([one() for _ in range(int(np.prod(sh)))], dtype=int).reshape(sh)
        return idx if pop is None else pop[idx]
    # without replacement
    if engine.active().guide is not None:
        raise EngineLimit("guided choice without replacement")
    k = int(np.prod(sh))
    if k > n:
        raise ValueError("Cannot take a larger sample than population when replace is False")
    left = list(range(n))
    w = [1.0 / n] * n if p is None else [float(x) for x in p]
    if p is not None and sum(1 for x in w if x > 0) < k:
        raise ValueError("Fewer non-zero entries in p than size")
    out = []
    for _ in range(k):
        ws = [w[j] for j in left]
        i = draw_cat(st, ws, ("norep", len(left)))
        out.append(left.pop(i))
    idx = np.array(out, dtype=int).reshape(sh)
    return idx if pop is None else pop[idx]


def _shuffle_inplace(x, perm):
    if isinstance(x, np.ndarray):
        x[...] = x[list(perm)]
    else:
        vals = [x[i] for i in perm]
        for i, v in enumerate(vals):
            x[i] = v


def _multinomial(st, n, pvals):
    pv = [float(x) for x in pvals]
    if sum(pv[:-1]) > 1 + 1e-12:
        raise ValueError("sum(pvals[:-1]) > 1.0")
    left, rem, out = int(n), 1.0, []
    for j, pj in enumerate(pv[:-1]):
        q = min(max(pj / rem, 0.0), 1.0) if rem > 1e-300 else 0.0
        k = draw_cat(st, _binomial_weights(left, q), ("binomial", left))
        out.append(k)
        left -= k
        rem -= pj
    out.append(left)
    return np.array(out, dtype=int)


def _limit(name):
    def f(*a, **k):
        raise EngineLimit("uncontrolled random source %s" % name)

    f.__name__ = name
    return f


class _NumpyApi:
    """Common part of the legacy and the Generator interface."""

    _legacy = True

    def _st(self):
        raise NotImplementedError

    def random(self, size=None, dtype=None, out=None):
        st = self._st()
        return _sized(size, lambda: draw_u(st))

    random_sample = ranf = sample = random

    def rand(self, *dims):
        st = self._st()
        if not dims:
            return draw_u(st)
        return _sized(dims, lambda: draw_u(st))

    def uniform(self, low=0.0, high=1.0, size=None):
        st = self._st()
        if np.ndim(low) or np.ndim(high):
            sh = np.broadcast(np.asarray(low), np.asarray(high)).shape if size is None else _shape(size)
            lo = np.broadcast_to(low, sh).ravel()
            hi = np.broadcast_to(high, sh).ravel()
            return LazyArray.build(
                [draw_u(st) * (h - l) + l for l, h in zip(lo, hi)], sh
            )
        return _sized(size, lambda: draw_u(st) * (high - low) + low)

    def randint(self, low, high=None, size=None, dtype=int):
        st = self._st()
        if high is None:
            low, high = 0, low
        lo, hi = int(low), int(high)
        g = (lambda r: r.randint(lo, hi)) if self._legacy else None
        if size is not None and engine.active().guide is not None:
            raise EngineLimit("guided sized randint")
        if size is None:
            return draw_int(st, lo, hi, g)
        return _sized(size, lambda: draw_int(st, lo, hi, g), lazy=False)

    def random_integers(self, low, high=None, size=None):
        if high is None:
            low, high = 1, low
        return self.randint(low, int(high) + 1, size)

    def choice(self, a, size=None, replace=True, p=None, axis=0, shuffle=True):
        return np_choice(self._st(), a, size, replace, p, self._legacy)

    def shuffle(self, x, axis=0):
        n = len(x)
        perm = draw_perm(self._st(), n, self._guided_perm(n))
        _shuffle_inplace(x, perm)

    def _guided_perm(self, n):
        if not self._legacy:
            return None

        def call(r):
            v = np.arange(n)
            r.shuffle(v)
            return v

        return call

    def permutation(self, x, axis=0):
        if isinstance(x, (int, np.integer)):
            n = int(x)
            return np.array(
                draw_perm(self._st(), n, (lambda r: r.permutation(n)) if self._legacy else None), dtype=int
            )
        arr = np.array(x)
        n = len(arr)
        perm = draw_perm(self._st(), n, (lambda r: r.permutation(n)) if self._legacy else None)
        return arr[list(perm)]

    def permuted(self, x, axis=None, out=None):
        return self.permutation(x)

    def binomial(self, n, p, size=None):
        st = self._st()
        if np.ndim(n) or np.ndim(p):
            sh = np.broadcast(np.asarray(n), np.asarray(p)).shape
            nn = np.broadcast_to(n, sh).ravel()
            pp = np.broadcast_to(p, sh).ravel()
            if size is not None and _shape(size) != sh:
                raise EngineLimit("binomial with size")
            return np.array(
                [draw_cat(st, _binomial_weights(int(a), float(b)), ("binomial", int(a))) for a, b in zip(nn, pp)],
                dtype=int,
            ).reshape(sh)
        n, p = int(n), float(p)
        if n < 0:
            raise ValueError("n < 0")
        if not 0 <= p <= 1:
            raise ValueError("p < 0, p > 1 or p is NaN")
        g = (lambda r: int(r.binomial(n, p))) if self._legacy else None
        return _sized(
            size, lambda: draw_cat(st, _binomial_weights(n, p), ("binomial", n), g), lazy=False
        )

    def multinomial(self, n, pvals, size=None):
        st = self._st()
        if size is None:
            return _multinomial(st, n, pvals)
        sh = _shape(size)
        return np.array([_multinomial(st, n, pvals) for _ in range(int(np.prod(sh)))]).reshape(
            sh + (len(pvals),)
        )

    def bytes(self, n):
        e = _entropy(self._st(), ("bytes", n))
        return int(e).to_bytes(8, "little")[:n].ljust(n, b"\0")

    def tomaxint(self, size=None):
        return _entropy(self._st(), ("maxint",))


for _n in (
    "normal randn standard_normal exponential standard_exponential gamma beta poisson "
    "geometric dirichlet chisquare f gumbel hypergeometric laplace logistic lognormal "
    "logseries multivariate_normal negative_binomial noncentral_chisquare noncentral_f "
    "pareto power rayleigh standard_cauchy standard_gamma standard_t triangular vonmises "
    "wald weibull zipf multivariate_hypergeometric"
).split():
    setattr(_NumpyApi, _n, _limit(_n))


def _seed_sid(seed, tag):
    if seed is None:
        return fresh_sid(tag)
    if isinstance(seed, EntropyInt):
        return (tag, "entropy", seed.tag)
    if isinstance(seed, REAL["SeedSequence"]):
        e = seed.entropy
        e = e.tag if isinstance(e, EntropyInt) else (tuple(e) if isinstance(e, (list, tuple, np.ndarray)) else e)
        return (tag, "ss", e, tuple(seed.spawn_key))
    if hasattr(seed, "seed_seq"):
        return _seed_sid(seed.seed_seq, tag)
    if isinstance(seed, (list, tuple, np.ndarray)):
        return (tag, "seq", tuple(x.tag if isinstance(x, EntropyInt) else int(x) for x in seed))
    if isinstance(seed, (str, bytes)):
        return (tag, "str", seed)
    if isinstance(seed, Lazy):
        return (tag, "lazy", id(seed.u))
    return (tag, "int", seed if isinstance(seed, float) else int(seed))


_module_counter = itertools.count()


class _Owned:
    """State of a generator object; per process if created at import time."""

    def _own(self, seed, tag, kind="np"):
        self._seed_value = seed
        self._tag = tag
        self._kind = kind
        if engine.current is None:
            self._gid = next(_module_counter)
            self._state = None
        else:
            self._gid = None
            self._state = State(_seed_sid(seed, tag), kind=kind)

    def _st(self):
        if self._gid is None:
            return self._state
        ml = context().module_level
        if self._gid not in ml:
            sid = (
                _seed_sid(self._seed_value, self._tag)
                if self._seed_value is not None
                else fresh_sid("module")
            )
            ml[self._gid] = State(sid, kind=self._kind)
        return ml[self._gid]

    def _set(self, st):
        if self._gid is None:
            self._state = st
        else:
            context().module_level[self._gid] = st

    def __getstate__(self):
        return dict(_seed_value=None, _tag=self._tag, _kind=self._kind, _gid=None, _state=self._st().copy())

    def __setstate__(self, d):
        self.__dict__.update(d)

    def __deepcopy__(self, memo):
        o = type(self).__new__(type(self))
        o.__setstate__(self.__getstate__())
        return o


class GlobalNumpy(_NumpyApi):
    def _st(self):
        return context().np

    def seed(self, seed=None):
        if engine.current is None:
            if seed is not None:
                _import_seeds["np"] = _seed_sid(seed, "seed")
            return
        context().np = State(_seed_sid(seed, "seed"))

    def get_state(self, legacy=True):
        return ("mc", context().np.copy())

    def set_state(self, s):
        if not (isinstance(s, tuple) and s and s[0] == "mc"):
            raise EngineLimit("foreign random state")
        context().np = s[1].copy()


class FakeRandomState(_Owned, _NumpyApi):
    def __init__(self, seed=None):
        self._own(seed, "seed")

    def seed(self, seed=None):
        self._set(State(_seed_sid(seed, "seed")))

    def get_state(self, legacy=True):
        return ("mc", self._st().copy())

    def set_state(self, s):
        self._set(s[1].copy())


class FakeGenerator(_Owned, _NumpyApi):
    _legacy = False
    _children = 0

    def __init__(self, bit_generator=None):
        self._own(bit_generator, "gen")

    def integers(self, low, high=None, size=None, dtype=int, endpoint=False):
        if high is None:
            low, high = 0, low
        return self.randint(low, int(high) + (1 if endpoint else 0), size)

    def spawn(self, n):
        out = []
        for _ in range(n):
            g = FakeGenerator.__new__(FakeGenerator)
            self._children += 1
            g.__setstate__(
                dict(_seed_value=None, _tag="gen", _kind="np", _gid=None,
                     _state=State((self._st().sid, "child", self._children)))
            )
            out.append(g)
        return out


def fake_default_rng(seed=None):
    if isinstance(seed, FakeGenerator):
        return seed
    return FakeGenerator(seed)


class PyRandomApi:
    """random.Random interface."""

    def _st(self):
        raise NotImplementedError

    def random(self):
        return draw_u(self._st())

    def uniform(self, a, b):
        return a + draw_u(self._st()) * (b - a)

    def randrange(self, start, stop=None, step=1):
        if stop is None:
            start, stop = 0, start
        r = range(int(start), int(stop), int(step))
        if len(r) == 0:
            raise ValueError("empty range for randrange()")
        if step == 1:
            return draw_int(self._st(), start, stop, lambda q: q.randrange(start, stop))
        return r[draw_int(self._st(), 0, len(r), lambda q: r.index(q.randrange(start, stop, step)))]

    def randint(self, a, b):
        return self.randrange(a, int(b) + 1)

    def choice(self, seq):
        n = len(seq)
        if n == 0:
            raise IndexError("Cannot choose from an empty sequence")
        return seq[draw_int(self._st(), 0, n, lambda q: q.choice(range(n)))]

    def choices(self, population, weights=None, *, cum_weights=None, k=1):
        population = list(population) if not hasattr(population, "__getitem__") else population
        n = len(population)
        if cum_weights is not None:
            if weights is not None:
                raise TypeError("Cannot specify both weights and cumulative weights")
            cw = [float(x) for x in cum_weights]
            weights = [b - a for a, b in zip([0.0] + cw, cw)]
        if weights is None:
            weights = [1.0] * n
        weights = [float(w) for w in weights]
        if len(weights) != n:
            raise ValueError("The number of weights does not match the population")
        if not sum(weights) > 0:
            raise ValueError("Total of weights must be greater than zero")
        if not math.isfinite(sum(weights)):
            raise ValueError("Total of weights must be finite")
        tot = sum(weights)
        ws = [max(w, 0.0) / tot for w in weights]
        st = self._st()
        return [
            population[draw_cat(st, ws, ("choices", n), lambda q: q.choices(range(n), weights)[0])]
            for _ in range(k)
        ]

    def shuffle(self, x):
        n = len(x)

        def g(q):
            v = list(range(n))
            q.shuffle(v)
            return v

        _shuffle_inplace(x, draw_perm(self._st(), n, g))

    def sample(self, population, k, *, counts=None):
        if counts is not None:
            raise EngineLimit("sample with counts")
        n = len(population)
        if not 0 <= k <= n:
            raise ValueError("Sample larger than population or is negative")
        if engine.active().guide is not None:
            raise EngineLimit("guided sample")
        left = list(range(n))
        st = self._st()
        return [population[left.pop(draw_int(st, 0, len(left)))] for _ in range(k)]

    def getrandbits(self, k):
        return draw_int(self._st(), 0, 1 << k)

    def randbytes(self, n):
        return int(_entropy(self._st(), ("bytes", n))).to_bytes(8, "little")[:n].ljust(n, b"\0")

    def binomialvariate(self, n=1, p=0.5):
        return draw_cat(self._st(), _binomial_weights(int(n), float(p)), ("binomial", int(n)))


for _n in (
    "triangular betavariate expovariate gammavariate gauss lognormvariate normalvariate "
    "vonmisesvariate paretovariate weibullvariate"
).split():
    setattr(PyRandomApi, _n, _limit(_n))


class GlobalPy(PyRandomApi):
    def _st(self):
        return context().py

    def seed(self, a=None, version=2):
        if engine.current is None:
            if a is not None:
                _import_seeds["py"] = _seed_sid(a, "pyseed")
            return
        context().py = State(_seed_sid(a, "pyseed"), kind="py")

    def getstate(self):
        return ("mc", context().py.copy())

    def setstate(self, s):
        if not (isinstance(s, tuple) and s and s[0] == "mc"):
            raise EngineLimit("foreign random state")
        context().py = s[1].copy()


class FakeRandom(_Owned, PyRandomApi):
    def __init__(self, x=None):
        self._own(x, "pyseed", "py")

    def seed(self, a=None, version=2):
        self._set(State(_seed_sid(a, "pyseed"), kind="py"))

    def getstate(self):
        return ("mc", self._st().copy())

    def setstate(self, s):
        self._set(s[1].copy())


class FakeSystemRandom(FakeRandom):
    def __init__(self, x=None):
        pass

    def _st(self):
        return State(fresh_sid("sys"), kind="py")


class Guide:
    """Real generators whose values steer an execution (conformance)."""

    def __init__(self, seed):
        self.np = REAL["RandomState"](seed)
        self.py = REAL["Random"](seed)

    def real(self, st):
        if st.sid == ("np-main",):
            return self.np
        if st.sid == ("py-main",):
            return self.py
        raise EngineLimit("guided draw from %s" % (st.sid,))

    def u(self, st):
        r = self.real(st)
        return r.random_sample() if r is self.np else r.random()


_installed = False


def install():
    """Patch numpy.random and random.  numpy/scipy must be imported before."""
    global _installed
    if _installed:
        return
    _installed = True
    import numpy.random as npr

    g = GlobalNumpy()
    names = [n for n in dir(GlobalNumpy) if not n.startswith("_")]
    for n in names:
        if hasattr(npr, n) or n in ("random", "rand"):
            setattr(npr, n, getattr(g, n))
    npr.RandomState = FakeRandomState
    npr.SeedSequence = FakeSeedSequence
    npr.Generator = FakeGenerator
    npr.default_rng = fake_default_rng
    p = GlobalPy()
    for n in dir(GlobalPy):
        if not n.startswith("_") and hasattr(pyrandom, n):
            setattr(pyrandom, n, getattr(p, n))
    pyrandom.Random = FakeRandom
    pyrandom.SystemRandom = FakeSystemRandom

    def fake_getpid():
        if engine.current is not None and _contexts:
            return context().pid
        return REAL["getpid"]()

    os.getpid = fake_getpid

    def fake_urandom(n):
        if engine.current is None:
            return REAL["urandom"](n)
        return REAL["urandom"](n)

    try:
        import secrets

        sysr = FakeSystemRandom()
        secrets.randbelow = lambda n: sysr.randrange(n)
        secrets.choice = sysr.choice
        secrets.randbits = sysr.getrandbits
    except Exception:
        pass
