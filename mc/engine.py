"""Stateless exploration of randomised Python code.

The explorer owns every random choice of the code under test.  One *execution*
runs the code once; at each choice point the explorer picks an alternative, and
a depth-first search over the alternatives enumerates all executions.  Random
choices carry exact probabilities, so the set of executions with their weights
is the exact law of whatever the code computes.
"""

import math
import numbers
import sys
import time

import numpy as np

PROGRESS = [0.0]  # CPU time when the last execution started
EPS_ALT = 1e-13  # alternatives less likely than this are not explored
GRID_OFFSET = 0.3717  # offset of quadrature nodes, generic


class EngineLimit(BaseException):
    """The code does something the engine cannot control: no verdict."""


class Truncated(BaseException):
    """This execution became too unlikely or too long; its mass is booked."""


class ItemTimeout(BaseException):
    pass


class _Choice:
    __slots__ = ("weights", "idx", "label")

    def __init__(self, weights, idx, label):
        self.weights = weights
        self.idx = idx
        self.label = label


class Explorer:
    """State of one exploration (and of the execution in progress)."""

    def __init__(
        self,
        grid=1,
        cpu_count=2,
        max_executions=400000,
        horizon=20000,
        min_weight=1e-13,
        boundary_budget=0,
        keep_leaves=False,
        grid_all=False,
    ):
        self.grid = grid
        self.cpu_count = cpu_count
        self.max_executions = max_executions
        self.horizon = horizon
        self.endless = 0.0
        self.cut = 0  # executions stopped at the horizon
        self.min_weight = min_weight
        self.boundary_budget = boundary_budget
        self.keep_leaves = keep_leaves
        # statistics
        self.states = 0
        self.transitions = 0
        self.executions = 0
        self.truncated_mass = 0.0
        self.used_grid = False
        self.inexact_grid = False
        self.demon_arity = []
        self.demon_vector = []
        self.leaves = set()
        self.const_used = False
        self.first_seeds = None
        # guided mode
        self.guide = None  # object supplying real values
        self.fair = None  # rng used after the fair horizon
        self.fair_after = None
        self._reset_path()

    # -- one execution ----------------------------------------------------
    def _reset_path(self):
        self.pos = 0
        self.weight = 1.0
        self.path = []
        self.labels = []
        self.memo = {}
        self.fresh = 0
        self.demon_pos = 0
        self.boundary_used = 0
        self.path_seeds = []
        from . import procmem, rng

        rng.reset_contexts()
        procmem.reset()

    def choose(self, weights, label=""):
        """Probabilistic choice among len(weights) alternatives."""
        n = len(weights)
        if self.guide is not None:
            raise EngineLimit("unguided choice %s" % label)
        if self.pos < len(self.stack):
            c = self.stack[self.pos]
            if len(c.weights) != n:
                raise EngineLimit(
                    "replay diverged at %s/%s" % (label, c.label)
                )
        else:
            tot = float(sum(weights))
            if not tot > 0:
                raise EngineLimit("no alternative at %s" % label)
            ws = [float(w) / tot for w in weights]
            if self.fair_after is not None and self.pos >= self.fair_after:
                u = self.fair.random()
                acc = 0.0
                idx = max(range(n), key=lambda i: ws[i])
                for i, w in enumerate(ws):
                    acc += w
                    if u < acc and w > EPS_ALT:
                        idx = i
                        break
                c = _Choice(ws, idx, "fair")
                self.stack.append(c)
                self.fairpos = True
            else:
                first = next(i for i in range(n) if ws[i] > EPS_ALT)
                c = _Choice(ws, first, label)
                self.stack.append(c)
                self.states += 1
                self.transitions += 1
        self.pos += 1
        self.path.append(c.idx)
        self.labels.append(label)
        self.weight *= c.weights[c.idx]
        if self.weight < self.min_weight:
            raise Truncated()
        if self.pos > self.horizon:
            self.cut += 1
            # thousands of draws without branching away: no randomised exit
            if self.weight > 1e-9 and self.fair_after is None:
                self.endless = max(self.endless, self.weight)
            raise Truncated()
        return c.idx

    def forced(self, idx, label=""):
        """Choice dictated by the guide."""
        self.path.append(idx)
        self.labels.append(label)
        return idx

    def demon(self, n, label=""):
        """Nondeterministic (unweighted) choice; all of them are enumerated."""
        p = self.demon_pos
        self.demon_pos += 1
        if n <= 1:
            self.demon_pos -= 1
            return 0
        while len(self.demon_arity) <= p:
            self.demon_arity.append(1)
        self.demon_arity[p] = max(self.demon_arity[p], n)
        self.transitions += 1
        if p < len(self.demon_vector):
            return min(self.demon_vector[p], n - 1)
        return 0

    def executions_of(self, fn):
        """All executions of fn for the current demonic vector.

        Yields (weight, kind, value): kind is 'ok' or 'exc'.
        """
        global current
        self.stack = []
        done = False
        while True:
            PROGRESS[0] = time.process_time()
            self._reset_path()
            self.fairpos = False
            current = self
            out = None
            try:
                try:
                    out = ("ok", fn())
                except Truncated:
                    self.truncated_mass += self.weight
                except ItemTimeout:
                    raise
                except Exception as e:  # noqa: the code under test failed
                    out = ("exc", e)
            finally:
                current = None
            if self.path_seeds:
                if self.first_seeds is None:
                    self.first_seeds = list(self.path_seeds)
                elif self.first_seeds != self.path_seeds:
                    raise EngineLimit("seeded from an uncontrolled source")
            if done:
                return
            self.executions += 1
            self.states += 1
            if self.executions > self.max_executions:
                raise EngineLimit("more than %d executions" % self.max_executions)
            if self.pos < len(self.stack) and out is not None:
                raise EngineLimit("replay diverged: fewer choices")
            if out is not None:
                if self.keep_leaves:
                    self.leaves.add(tuple(self.path))
                yield (self.weight,) + out
            st = self.stack
            del st[self.pos:]
            while st:
                c = st[-1]
                if c.label == "fair":
                    st.pop()
                    continue
                nxt = c.idx + 1
                while nxt < len(c.weights) and c.weights[nxt] <= EPS_ALT:
                    nxt += 1
                if nxt < len(c.weights):
                    c.idx = nxt
                    self.transitions += 1
                    break
                st.pop()
            if not st:
                if not self.const_used:
                    return
                # constant seeds: run once more to tell a constant from a clock
                done = True

    def schedules(self, limit=None):
        """Enumerates demonic vectors; the caller runs executions_of in between."""
        self.demon_vector = []
        n = 0
        while True:
            self.demon_arity = []
            yield list(self.demon_vector)
            n += 1
            if limit is not None and n >= limit:
                return
            ar = list(self.demon_arity)
            vec = list(self.demon_vector)[: len(ar)]
            vec += [0] * (len(ar) - len(vec))
            i = len(ar) - 1
            while i >= 0 and vec[i] + 1 >= ar[i]:
                i -= 1
            if i < 0:
                return
            self.demon_vector = vec[:i] + [vec[i] + 1]

    def run_guided(self, fn, guide):
        """One execution along the values of a real generator."""
        global current
        self.stack = []
        self._reset_path()
        self.guide = guide
        current = self
        try:
            return fn(), tuple(self.path)
        finally:
            current = None
            self.guide = None


current = None


def active():
    if current is None:
        raise EngineLimit("random draw outside an exploration")
    return current


# ---------------------------------------------------------------------------
# lazy uniforms
# ---------------------------------------------------------------------------


class _U:
    """A uniform draw on [lo, hi), restricted by the comparisons made so far."""

    __slots__ = ("lo", "hi", "fixed", "hidden", "ex", "used_up")

    def __init__(self, ex, hidden=None):
        self.lo = 0.0
        self.hi = 1.0
        self.fixed = None
        self.hidden = hidden
        self.ex = ex
        self.used_up = False

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __reduce__(self):
        raise EngineLimit("pickled an unresolved random draw")

    def below(self, t):
        """Is the draw below t?  Splits the interval if undetermined."""
        if self.used_up:
            raise EngineLimit("draw used after ranking")
        if self.fixed is not None:
            return self.fixed < t
        if math.isnan(t):
            return False
        if self.hidden is not None:
            r = self.hidden < t
            if not (t <= self.lo or t >= self.hi):
                w = self.hi - self.lo
                if (t - self.lo) / w > EPS_ALT and (self.hi - t) / w > EPS_ALT:
                    self.ex.forced(0 if r else 1, "u<")
                    if r:
                        self.hi = t
                    else:
                        self.lo = t
            return r
        if t <= self.lo:
            return False
        if t >= self.hi:
            return True
        w = self.hi - self.lo
        p = (t - self.lo) / w
        if p <= EPS_ALT:
            return False
        if 1 - p <= EPS_ALT:
            return True
        if self.ex.choose([p, 1 - p], "u<%.6g" % t) == 0:
            self.hi = t
            return True
        self.lo = t
        return False

    def split(self, points):
        """Which cell of the increasing cut points is the draw in?"""
        cuts = [p for p in points if self.lo < p < self.hi]
        base = sum(1 for p in points if p <= self.lo)
        if self.fixed is not None:
            return sum(1 for p in points if p <= self.fixed)
        if self.hidden is not None:
            k = sum(1 for p in cuts if p <= self.hidden)
            if cuts:
                self.ex.forced(k, "split")
        elif not cuts:
            k = 0
        else:
            ed = [self.lo] + cuts + [self.hi]
            ws = [(b - a) / (self.hi - self.lo) for a, b in zip(ed, ed[1:])]
            k = self.ex.choose(ws, "split")
        ed = [self.lo] + cuts + [self.hi]
        self.lo, self.hi = ed[k], ed[k + 1]
        return base + k

    def value(self):
        """The draw is used as a number: enumerate quadrature nodes."""
        if self.used_up:
            raise EngineLimit("draw used after ranking")
        if self.fixed is None:
            if self.hidden is not None:
                self.ex.forced("*", "grid")
                self.fixed = self.hidden
            else:
                if self.lo != 0.0 or self.hi != 1.0:
                    self.ex.inexact_grid = True
                self.ex.used_grid = True
                k = self.ex.grid
                j = self.ex.choose([1.0 / k] * k, "grid") if k > 1 else 0
                self.fixed = self.lo + (self.hi - self.lo) * (j + GRID_OFFSET) / k
        return self.fixed


def _is_real(x):
    return isinstance(x, (bool, numbers.Real, np.number, np.bool_)) and not isinstance(
        x, (complex, np.complexfloating)
    )


def _scalarise(x):
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return x[()]
    return x


class Lazy:
    """a * u + b for a lazy uniform u."""

    __slots__ = ("u", "a", "b", "hid")
    __array_priority__ = 1000

    def __init__(self, u, a=1.0, b=0.0, hid=None):
        self.u = u
        self.a = a
        self.b = b
        # exact float the real program would hold (guided mode)
        self.hid = u.hidden if hid is None and u.hidden is not None else hid

    # resolution
    def concrete(self):
        if self.hid is not None:
            self.u.value()
            return self.hid
        return self.a * self.u.value() + self.b

    def __float__(self):
        return float(self.concrete())

    def __complex__(self):
        return complex(self.concrete())

    def __reduce__(self):
        return (float, (float(self),))

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __repr__(self):
        return "<lazy %g*[%g,%g)+%g>" % (self.a, self.u.lo, self.u.hi, self.b)

    def __bool__(self):
        return True if self.u.fixed is None else bool(self.concrete())

    def __hash__(self):
        return id(self)

    # arithmetic
    def _affine(self, a, b, hid):
        if a == 0:
            return b
        return Lazy(self.u, a, b, hid)

    def __add__(self, o):
        o = _scalarise(o)
        if isinstance(o, (np.ndarray, LazyArray)):
            return LazyArray.wrap(np.asarray(self, dtype=object)) + o
        if _is_real(o):
            o = float(o)
            return self._affine(
                self.a, self.b + o, None if self.hid is None else self.hid + o
            )
        if isinstance(o, Lazy):
            if o.u is self.u and self.hid is None:
                return self._affine(self.a + o.a, self.b + o.b, None)
            self.u.ex.inexact_grid = True
            return self.concrete() + o.concrete()
        if isinstance(o, (complex, np.complexfloating)):
            return self.concrete() + o
        return NotImplemented

    __radd__ = __add__

    def __neg__(self):
        return self._affine(-self.a, -self.b, None if self.hid is None else -self.hid)

    def __pos__(self):
        return self

    def __sub__(self, o):
        o = _scalarise(o)
        if isinstance(o, (np.ndarray, LazyArray)):
            return LazyArray.wrap(np.asarray(self, dtype=object)) - o
        if _is_real(o):
            o = float(o)
            return self._affine(
                self.a, self.b - o, None if self.hid is None else self.hid - o
            )
        return self + (-o)

    def __rsub__(self, o):
        o = _scalarise(o)
        if _is_real(o):
            o = float(o)
            return self._affine(
                -self.a, o - self.b, None if self.hid is None else o - self.hid
            )
        return (-self) + o

    def __mul__(self, o):
        o = _scalarise(o)
        if isinstance(o, (np.ndarray, LazyArray)):
            return LazyArray.wrap(np.asarray(self, dtype=object)) * o
        if _is_real(o):
            o = float(o)
            return self._affine(
                self.a * o, self.b * o, None if self.hid is None else self.hid * o
            )
        if isinstance(o, Lazy):
            self.u.ex.inexact_grid = True
            return self.concrete() * o.concrete()
        if isinstance(o, (complex, np.complexfloating)):
            if complex(o).imag == 0:
                return self * complex(o).real
            return self.concrete() * o
        return NotImplemented

    __rmul__ = __mul__

    def __truediv__(self, o):
        o = _scalarise(o)
        if _is_real(o):
            o = float(o)
            return self._affine(
                self.a / o, self.b / o, None if self.hid is None else self.hid / o
            )
        return self.concrete() / o

    def __rtruediv__(self, o):
        self.u.ex.inexact_grid = True
        return o / self.concrete()

    def __pow__(self, o, mod=None):
        self.u.ex.inexact_grid = True
        return self.concrete() ** o

    def __rpow__(self, o):
        return o ** self.concrete()

    # integer parts
    def _floor_cells(self, shift=0.0):
        """floor(a*u + b + shift), exactly."""
        if self.hid is not None or self.u.fixed is not None:
            return math.floor(self.concrete_hidden() + shift)
        x0 = self.a * self.u.lo + self.b + shift
        x1 = self.a * self.u.hi + self.b + shift
        lo, hi = min(x0, x1), max(x0, x1)
        ints = [
            k for k in range(math.ceil(lo - 1e-12), math.floor(hi + 1e-12) + 1)
        ]
        cuts = sorted((k - self.b - shift) / self.a for k in ints)
        if len(cuts) > 100000:
            raise EngineLimit("huge integer range")
        self.u.split(cuts)
        mid = self.a * (self.u.lo + self.u.hi) / 2 + self.b + shift
        return math.floor(mid)

    def concrete_hidden(self):
        if self.hid is not None:
            # guided: integer part is a legitimate discrete outcome
            self.u.ex.forced("*", "int")
            return self.hid
        return self.concrete()

    def __floor__(self):
        return self._floor_cells()

    def __ceil__(self):
        return -((-self)._floor_cells())

    def __trunc__(self):
        if self.below_zero():
            return -((-self)._floor_cells())
        return self._floor_cells()

    def below_zero(self):
        return self < 0

    def __int__(self):
        return self.__trunc__()

    def __round__(self, nd=None):
        if nd:
            return round(float(self), nd)
        return self._floor_cells(0.5)

    def __floordiv__(self, o):
        return float((self / o)._floor_cells())

    def __mod__(self, o):
        q = (self / o)._floor_cells()
        return self - q * o

    def __divmod__(self, o):
        q = (self / o)._floor_cells()
        return float(q), self - q * o

    def __abs__(self):
        return -self if self < 0 else self

    def is_integer(self):
        return False

    def item(self):
        return self

    def astype(self, t):
        if np.issubdtype(np.dtype(t), np.integer):
            return int(self)
        return self if np.issubdtype(np.dtype(t), np.floating) else self.concrete()

    # comparisons
    def _cmp_below(self, c):
        """self < c"""
        if isinstance(c, LazyArray) or (isinstance(c, np.ndarray) and c.ndim):
            return NotImplemented
        c = _scalarise(c)
        if isinstance(c, Lazy):
            if c.u is self.u:
                d = self - c
                return d._cmp_below(0) if isinstance(d, Lazy) else d < 0
            if c.u.fixed is not None or self.u.fixed is not None or self.hid is not None:
                return self.concrete() < c.concrete()
            raise EngineLimit("comparison of two random draws")
        if isinstance(c, (complex, np.complexfloating)):
            c = c.real
        c = float(c)
        if self.hid is not None:
            r = self.hid < c
            if self.u.fixed is None:
                t = (c - self.b) / self.a
                rr = self.u.below(t)
                # rounding differences between the two formulations are possible
                # only in an interval of width ~1e-16
                if (rr if self.a > 0 else not rr) != r:
                    raise EngineLimit("guided run within rounding distance of a cut")
            return r
        if self.u.fixed is not None:
            return self.concrete() < c
        t = (c - self.b) / self.a
        if self.a > 0:
            return self.u.below(t)
        return not self.u.below(t)

    def __lt__(self, c):
        return self._cmp_below(c)

    def __le__(self, c):
        if self.u.fixed is not None and not isinstance(c, Lazy):
            c = _scalarise(c)
            return self.concrete() <= (c.real if isinstance(c, complex) else c)
        return self._cmp_below(c)

    def __gt__(self, c):
        r = self.__le__(c)
        return r if r is NotImplemented else not r

    def __ge__(self, c):
        r = self._cmp_below(c)
        return r if r is NotImplemented else not r

    def __eq__(self, c):
        if c is self:
            return True
        if isinstance(c, (np.ndarray, LazyArray)):
            return NotImplemented
        if self.u.fixed is not None and not isinstance(c, Lazy):
            return self.concrete() == c
        return False

    def __ne__(self, c):
        r = self.__eq__(c)
        return r if r is NotImplemented else not r

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return _ufunc(ufunc, method, inputs, kw)

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0.0

    def conjugate(self):
        return self


_PYOPS = {
    "add": lambda x, y: x + y,
    "subtract": lambda x, y: x - y,
    "multiply": lambda x, y: x * y,
    "true_divide": lambda x, y: x / y,
    "divide": lambda x, y: x / y,
    "less": lambda x, y: _cmp(x, y, "lt"),
    "less_equal": lambda x, y: _cmp(x, y, "le"),
    "greater": lambda x, y: _cmp(x, y, "gt"),
    "greater_equal": lambda x, y: _cmp(x, y, "ge"),
    "equal": lambda x, y: _cmp(x, y, "eq"),
    "not_equal": lambda x, y: _cmp(x, y, "ne"),
    "floor": lambda x: float(math.floor(x)),
    "ceil": lambda x: float(math.ceil(x)),
    "trunc": lambda x: float(math.trunc(x)),
    "rint": lambda x: float(round(x)),
    "negative": lambda x: -x,
    "positive": lambda x: x,
    "floor_divide": lambda x, y: x // y,
    "remainder": lambda x, y: x % y,
    "minimum": lambda x, y: x if x < y else y,
    "maximum": lambda x, y: y if x < y else x,
}
_SWAP = {"lt": "gt", "le": "ge", "gt": "lt", "ge": "le", "eq": "eq", "ne": "ne"}


def _plain(x):
    if isinstance(x, np.generic):
        return x.item()
    return x


def _cmp(x, y, op):
    if isinstance(x, Lazy):
        return bool(getattr(x, "__%s__" % op)(_plain(y)))
    if isinstance(y, Lazy):
        return bool(getattr(y, "__%s__" % _SWAP[op])(_plain(x)))
    import operator

    return bool(getattr(operator, op)(x, y))


def _conc(x):
    if isinstance(x, Lazy):
        return x.concrete()
    if isinstance(x, LazyArray):
        return x.concrete()
    return x


def _ufunc(ufunc, method, inputs, kw):
    f = _PYOPS.get(ufunc.__name__)
    if method != "__call__" or f is None or kw.get("out") is not None:
        out = kw.get("out")
        return getattr(ufunc, method)(*[_conc(x) for x in inputs], **kw)
    if not any(isinstance(x, LazyArray) for x in inputs):
        inputs = [_scalarise(x) for x in inputs]
        if not any(isinstance(x, (np.ndarray, list, tuple)) for x in inputs):
            return f(*[_plain(x) for x in inputs])
    arrs = []
    for x in inputs:
        if isinstance(x, LazyArray):
            arrs.append(x.d)
        elif isinstance(x, Lazy):
            o = np.empty((), dtype=object)
            o[()] = x
            arrs.append(o)
        else:
            a = np.asarray(x)
            arrs.append(a)
    bc = np.broadcast(*arrs) if len(arrs) > 1 else None
    if bc is None:
        shape = arrs[0].shape
        vals = [f(_plain(v)) for v in arrs[0].ravel()]
    else:
        shape = bc.shape
        vals = [f(*[_plain(v) for v in t]) for t in bc]
    return LazyArray.build(vals, shape)


class LazyArray:
    """Array of (mostly unresolved) draws."""

    __array_priority__ = 2000

    def __init__(self, d):
        self.d = d

    @staticmethod
    def wrap(d):
        return LazyArray(d)

    @staticmethod
    def build(vals, shape):
        vals = list(vals)
        if any(isinstance(v, Lazy) for v in vals):
            o = np.empty(len(vals), dtype=object)
            for i, v in enumerate(vals):
                o[i] = v
            return LazyArray(o.reshape(shape))
        return np.array(vals).reshape(shape)

    def concrete(self):
        flat = [v.concrete() if isinstance(v, Lazy) else v for v in self.d.ravel()]
        return np.array(flat, dtype=float if not any(isinstance(v, complex) for v in flat) else complex).reshape(self.d.shape)

    def __array__(self, dtype=None, copy=None):
        a = self.concrete()
        return a if dtype is None else a.astype(dtype)

    def __reduce__(self):
        return (np.array, (self.concrete(),))

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return _ufunc(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        if func is np.argsort and len(args) == 1 and args[0] is self:
            return self.argsort()
        def conv(x):
            if isinstance(x, (Lazy, LazyArray)):
                return _conc(x)
            if isinstance(x, (list, tuple)):
                return type(x)(conv(y) for y in x)
            return x
        if func in (np.shape, np.size, np.ndim):
            return func(self.d)
        if func is np.ravel or func is np.squeeze or func is np.copy:
            return LazyArray(func(self.d))
        if func is np.searchsorted:
            a, v = args[0], args[1]
            side = args[2] if len(args) > 2 else kwargs.get("side", "left")
            if isinstance(a, LazyArray) or "sorter" in kwargs:
                return func(*conv(args), **conv_kw(kwargs))
            import bisect

            b = bisect.bisect_right if side == "right" else bisect.bisect_left
            aa = list(np.asarray(a))
            return np.array([b(aa, x) for x in v.d.ravel()]).reshape(v.d.shape)
        def conv_kw(k):
            return {n: conv(x) for n, x in k.items()}
        return func(*conv(tuple(args)), **conv_kw(kwargs))

    def argsort(self, *a, **k):
        """Ranking of untouched independent draws: a uniform permutation."""
        if self.d.ndim != 1:
            raise EngineLimit("argsort of a random matrix")
        us = [v.u if isinstance(v, Lazy) else None for v in self.d]
        n = len(us)
        if any(
            u is None or u.fixed is not None or u.hidden is not None
            or (u.lo, u.hi) != (0.0, 1.0)
            for u in us
        ) or len(set(map(id, us))) != n or len({v.a for v in self.d}) > 1 or len({v.b for v in self.d}) > 1:
            return np.argsort(self.concrete(), *a, **k)
        import itertools

        perms = list(itertools.permutations(range(n)))
        i = us[0].ex.choose([1.0 / len(perms)] * len(perms), "argsort") if n > 1 else 0
        for u in us:
            u.used_up = True
        return np.array(perms[i], dtype=int)

    # container protocol
    def __len__(self):
        return len(self.d)

    def __iter__(self):
        for i in range(len(self.d)):
            yield self[i]

    def __getitem__(self, i):
        r = self.d[i]
        return LazyArray(r) if isinstance(r, np.ndarray) else r

    def __setitem__(self, i, v):
        self.d[i] = v

    shape = property(lambda self: self.d.shape)
    size = property(lambda self: self.d.size)
    ndim = property(lambda self: self.d.ndim)
    dtype = property(lambda self: np.dtype(float))
    T = property(lambda self: LazyArray(self.d.T))

    def reshape(self, *a, **k):
        return LazyArray(self.d.reshape(*a, **k))

    def ravel(self):
        return LazyArray(self.d.ravel())

    flatten = ravel

    def copy(self):
        return LazyArray(self.d.copy())

    def tolist(self):
        return self.d.tolist()

    def astype(self, t, **k):
        if np.issubdtype(np.dtype(t), np.integer):
            return np.array([int(v) for v in self.d.ravel()], dtype=t).reshape(self.shape)
        return self if np.dtype(t) == float else self.concrete().astype(t)

    def sum(self, *a, **k):
        return self.concrete().sum(*a, **k)

    def cumsum(self, *a, **k):
        return self.concrete().cumsum(*a, **k)

    def mean(self, *a, **k):
        return self.concrete().mean(*a, **k)

    def _bin(self, o, name, rev=False):
        u = getattr(np, name)
        return _ufunc(u, "__call__", (o, self) if rev else (self, o), {})

    def __add__(self, o): return self._bin(o, "add")
    def __radd__(self, o): return self._bin(o, "add", True)
    def __sub__(self, o): return self._bin(o, "subtract")
    def __rsub__(self, o): return self._bin(o, "subtract", True)
    def __mul__(self, o): return self._bin(o, "multiply")
    def __rmul__(self, o): return self._bin(o, "multiply", True)
    def __truediv__(self, o): return self._bin(o, "true_divide")
    def __rtruediv__(self, o): return o / self.concrete()
    def __floordiv__(self, o): return self._bin(o, "floor_divide")
    def __mod__(self, o): return self._bin(o, "remainder")
    def __neg__(self): return self._bin(-1.0, "multiply")
    def __pow__(self, o): return self.concrete() ** o
    def __rpow__(self, o): return o ** self.concrete()
    def __lt__(self, o): return self._bin(o, "less")
    def __le__(self, o): return self._bin(o, "less_equal")
    def __gt__(self, o): return self._bin(o, "greater")
    def __ge__(self, o): return self._bin(o, "greater_equal")
    def __matmul__(self, o): return self.concrete() @ _conc(o)
    def __rmatmul__(self, o): return _conc(o) @ self.concrete()
