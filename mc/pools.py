"""Stand-ins for process and thread pools with enumerated schedules.

Work is pickled exactly as the real pools do (per task or per chunk), runs in a
virtual process with its own random state (fork: inherited numpy state, spawn:
fresh state), and the assignment of tasks to workers and the order of
completion are demonic choices of the explorer.
"""

import concurrent.futures as cf
import concurrent.futures.process
import concurrent.futures.thread
import itertools
import multiprocessing as mp
import multiprocessing.pool
import os
import pickle
import sys

from . import engine, faults, procmem, rng
from .engine import EngineLimit

REAL = {
    "get_context": mp.get_context,
    "cpu_count": os.cpu_count,
    "get_start_method": mp.get_start_method,
}

USED = [0]  # largest number of workers a pool has used so far
DEFAULT_METHOD = "fork"  # Linux, CPython 3.12
_forced_method = [None]


def _cpus():
    return engine.current.cpu_count if engine.current is not None else REAL["cpu_count"]()


class _inside:
    """Runs the body in another virtual process."""

    def __init__(self, ctx):
        self.ctx = ctx

    def __enter__(self):
        rng._contexts.append(self.ctx)
        self.token = procmem.enter(self.ctx.mem)

    def __exit__(self, *a):
        self.ctx.mem = procmem.leave(self.token)
        rng._contexts.pop()
        return False


class _Workers:
    """The worker processes of one pool."""

    def __init__(self, number, method, initializer=None, initargs=()):
        if number < 1:
            raise ValueError("Number of processes must be at least 1")
        self.number = number
        self.method = method
        self.initializer = initializer
        self.initargs = initargs
        self.contexts = []
        self.parent = rng.context()
        self.death = None  # exception when a worker process dies (injected)
        self.dead = False
        self.fork_np = None

    def start(self):
        """Fork point: the state a forked worker inherits."""
        if self.fork_np is None:
            c = rng.context()
            self.fork_np = (c.np.copy(), {k: v.copy() for k, v in c.module_level.items()})
            self.fork_mem = procmem.fork() if self.method == "fork" else None

    def _context(self, i):
        while len(self.contexts) <= i:
            k = len(self.contexts)
            pid = rng.context().pid * 100 + k + 1
            if self.method == "fork":
                self.start()
                c = rng.fork_context("fork%d" % k, pid)
                c.np = self.fork_np[0].copy()
                c.module_level = {a: b.copy() for a, b in self.fork_np[1].items()}
                c.mem = None if self.fork_mem is None else [dict(procmem._copy(d)) for d in self.fork_mem]
            else:
                c = rng.spawn_context("spawn%d" % k, pid)
                c.mem = None
            self.contexts.append(c)
            USED[0] = max(USED[0], len(self.contexts))
            if self.initializer is not None:
                payload = pickle.dumps((self.initializer, self.initargs)) if self.method != "fork" else None
                with _inside(c):
                    f, a = (self.initializer, self.initargs) if payload is None else pickle.loads(payload)
                    f(*a)
        return self.contexts[i]

    def assign(self):
        n = min(len(self.contexts) + 1, self.number)
        return engine.active().demon(n, "worker")

    def run(self, payload):
        """payload: pickled (fn, args, kwargs).  Returns (ok, value)."""
        i = self.assign()
        ctx = self._context(i)
        if self.dead or faults.hit("worker process"):
            return self._died()
        with _inside(ctx):
            try:
                fn, args, kw = pickle.loads(payload)
                r = fn(*args, **kw)
                r = pickle.loads(pickle.dumps(r))
            except Exception as e:
                return False, e
        if faults.hit("result of a worker process"):
            return self._died()
        return True, r

    def _died(self):
        if self.death is None:  # multiprocessing.Pool: the task fails
            return False, faults.InjectedFault("injected")
        self.dead = True
        return False, self.death("A process in the process pool was terminated abruptly (injected)")


def _chunk_runner(fn, chunk, star):
    return [fn(*a) if star else fn(a) for a in chunk]


def _completion_order(n):
    """All orders in which n tasks may complete."""
    left = list(range(n))
    out = []
    ex = engine.active()
    while left:
        out.append(left.pop(ex.demon(len(left), "completion")))
    return out


class FakeFuture:
    _count = itertools.count()

    def __init__(self, thunk):
        self._thunk = thunk
        self._res = None
        self._callbacks = []

    def _ensure(self):
        if self._res is None:
            self._res = self._thunk()
            for c in self._callbacks:
                c(self)

    def result(self, timeout=None):
        self._ensure()
        ok, v = self._res
        if not ok:
            raise v
        return v

    def exception(self, timeout=None):
        self._ensure()
        return None if self._res[0] else self._res[1]

    def done(self):
        self._ensure()
        return True

    def running(self):
        return False

    def cancelled(self):
        return False

    def cancel(self):
        return False

    def add_done_callback(self, f):
        if self._res is not None:
            f(self)
        else:
            self._callbacks.append(f)

    # AsyncResult
    def get(self, timeout=None):
        return self.result()

    def wait(self, timeout=None):
        self._ensure()

    def ready(self):
        return True

    def successful(self):
        return self.exception() is None


class FakeProcessPoolExecutor(cf.Executor):
    def __init__(
        self, max_workers=None, mp_context=None, initializer=None, initargs=(), *, max_tasks_per_child=None
    ):
        if max_workers is not None and max_workers <= 0:
            raise ValueError("max_workers must be greater than 0")
        method = mp_context.get_start_method() if mp_context is not None else fake_get_start_method()
        if method is None:
            method = DEFAULT_METHOD
        self._w = _Workers(max_workers or _cpus(), method, initializer, initargs)
        self._w.death = cf.process.BrokenProcessPool
        self._pending = []
        self._closed = False

    def submit(self, fn, /, *args, **kwargs):
        if self._closed:
            raise RuntimeError("cannot schedule new futures after shutdown")
        self._w.start()
        # The feeder thread pickles the call at some time after submit.
        late = engine.active().demon(2, "late pickling")

        def dump():
            try:
                return pickle.dumps((fn, args, kwargs))
            except Exception as e:
                return e

        payload = None if late else dump()

        def thunk():
            p = payload if payload is not None else dump()
            if isinstance(p, Exception):
                return False, p
            return self._w.run(p)

        f = FakeFuture(thunk)
        self._pending.append(f)
        return f

    def map(self, fn, *iterables, timeout=None, chunksize=1):
        if chunksize < 1:
            raise ValueError("chunksize must be >= 1.")
        self._w.start()
        items = list(zip(*iterables))
        results = []
        for i in range(0, len(items), chunksize):
            try:
                payload = pickle.dumps((_chunk_runner, (fn, items[i : i + chunksize], True), {}))
            except Exception as e:
                results.append((False, e))
                continue
            results.append(self._w.run(payload))

        def gen():
            for ok, v in results:
                if not ok:
                    raise v
                for x in v:
                    yield x

        return gen()

    def shutdown(self, wait=True, *, cancel_futures=False):
        self._closed = True
        for f in self._pending:
            f._ensure()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.shutdown()
        return False


def fake_as_completed(fs, timeout=None):
    fs = list(fs)
    if not all(isinstance(f, FakeFuture) for f in fs):
        raise EngineLimit("foreign futures")
    for f in fs:
        f._ensure()
    for i in _completion_order(len(fs)):
        yield fs[i]


def fake_wait(fs, timeout=None, return_when="ALL_COMPLETED"):
    fs = list(fs)
    for f in fs:
        f._ensure()
    return cf._base.DoneAndNotDoneFutures(set(fs), set())


class FakePool:
    def __init__(
        self, processes=None, initializer=None, initargs=(), maxtasksperchild=None, context=None
    ):
        method = context.get_start_method() if context is not None else fake_get_start_method()
        self._w = _Workers(processes if processes is not None else _cpus(), method, initializer, initargs)
        self._w.start()
        self._open = True

    def _check(self):
        if not self._open:
            raise ValueError("Pool not running")

    def _chunks(self, fn, items, chunksize, star):
        if chunksize is None:
            chunksize, extra = divmod(len(items), self._w.number * 4)
            if extra:
                chunksize += 1
        if len(items) == 0:
            return []
        out = []
        for i in range(0, len(items), max(1, chunksize)):
            try:
                payload = pickle.dumps((_chunk_runner, (fn, items[i : i + chunksize], star), {}))
            except Exception as e:
                out.append((False, e))
                continue
            out.append(self._w.run(payload))
        return out

    @staticmethod
    def _flat(res):
        out = []
        for ok, v in res:
            if not ok:
                raise v
            out.extend(v)
        return out

    def map(self, func, iterable, chunksize=None):
        self._check()
        return self._flat(self._chunks(func, list(iterable), chunksize, False))

    def starmap(self, func, iterable, chunksize=None):
        self._check()
        return self._flat(self._chunks(func, [tuple(x) for x in iterable], chunksize, True))

    def map_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        self._check()
        items = list(iterable)

        def thunk():
            try:
                return True, self.map(func, items, chunksize)
            except Exception as e:
                return False, e

        f = FakeFuture(thunk)
        f._ensure()
        if callback and f._res[0]:
            callback(f._res[1])
        return f

    def starmap_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        items = [tuple(x) for x in iterable]

        def thunk():
            try:
                return True, self.starmap(func, items, chunksize)
            except Exception as e:
                return False, e

        f = FakeFuture(thunk)
        f._ensure()
        if callback and f._res[0]:
            callback(f._res[1])
        return f

    def imap(self, func, iterable, chunksize=1):
        self._check()
        return iter(self._flat(self._chunks(func, list(iterable), chunksize, False)))

    def imap_unordered(self, func, iterable, chunksize=1):
        self._check()
        res = self._chunks(func, list(iterable), chunksize, False)
        order = _completion_order(len(res))
        return iter(self._flat([res[i] for i in order]))

    def apply(self, func, args=(), kwds={}):
        self._check()
        return self.apply_async(func, args, kwds).get()

    def apply_async(self, func, args=(), kwds={}, callback=None, error_callback=None):
        self._check()
        payload = pickle.dumps((func, tuple(args), dict(kwds)))
        f = FakeFuture(lambda: self._w.run(payload))
        f._ensure()
        if f._res[0]:
            if callback:
                callback(f._res[1])
        elif error_callback:
            error_callback(f._res[1])
        return f

    def close(self):
        self._open = False

    def terminate(self):
        self._open = False

    def join(self):
        pass

    def __enter__(self):
        self._check()
        return self

    def __exit__(self, *a):
        self.terminate()


class FakeContext:
    def __init__(self, method):
        self._method = method

    def get_start_method(self, allow_none=False):
        return self._method

    def Pool(self, *a, **k):
        return FakePool(*a, context=self, **k)

    def cpu_count(self):
        return _cpus()

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)

        def f(*a, **k):
            raise EngineLimit("multiprocessing context %s" % n)

        return f


def fake_get_context(method=None):
    if method is None:
        method = fake_get_start_method()
    if method not in ("fork", "spawn", "forkserver"):
        raise ValueError("cannot find context for %r" % method)
    return FakeContext(method)


def fake_get_start_method(allow_none=False):
    return _forced_method[0] or DEFAULT_METHOD


def fake_set_start_method(method, force=False):
    _forced_method[0] = method


def _limit(name):
    def f(*a, **k):
        raise EngineLimit("uncontrolled concurrency %s" % name)

    return f


class FakeLimitProcess:
    def __init__(self, *a, **k):
        raise EngineLimit("multiprocessing.Process")


_installed = False


def install():
    global _installed
    if _installed:
        return
    _installed = True
    from . import threads

    mp.Pool = FakePool
    mp.pool.Pool = FakePool
    mp.get_context = fake_get_context
    mp.get_start_method = fake_get_start_method
    mp.set_start_method = fake_set_start_method
    mp.cpu_count = _cpus
    mp.Process = FakeLimitProcess
    for n in ("Queue", "SimpleQueue", "Manager", "Pipe", "Value", "Array"):
        setattr(mp, n, _limit(n))
    os.cpu_count = _cpus
    if hasattr(os, "process_cpu_count"):
        os.process_cpu_count = _cpus
    real_aff = os.sched_getaffinity
    os.sched_getaffinity = lambda pid: (
        set(range(_cpus())) if engine.current is not None else real_aff(pid)
    )
    cf.ProcessPoolExecutor = FakeProcessPoolExecutor
    cf.process.ProcessPoolExecutor = FakeProcessPoolExecutor
    cf.as_completed = fake_as_completed
    cf.wait = fake_wait
    threads.install()
