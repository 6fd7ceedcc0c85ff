"""Controlled threads: preemption-bounded exploration of shared-memory pools.

theboss uses no threads today; should a change introduce them, tasks run in
real threads of which exactly one may proceed at a time, and the explorer
chooses (demonically) where one is preempted: at every call of a function of
theboss, up to a preemption bound.
"""

import concurrent.futures as cf
import concurrent.futures.thread
import multiprocessing.pool
import sys
import threading

from . import engine, pools
from .engine import EngineLimit

RealThread = threading.Thread
PREEMPTIONS = [1]


class _Abort(BaseException):
    pass


class Scheduler:
    def __init__(self, tasks):
        self.tasks = tasks
        self.n = len(tasks)
        self.sems = [threading.Semaphore(0) for _ in tasks]
        self.main = threading.Semaphore(0)
        self.done = [False] * self.n
        self.results = [None] * self.n
        self.budget = PREEMPTIONS[0]
        self.abort = False
        self.fatal = None
        self.current = None

    def runnable(self, but=None):
        return [i for i in range(self.n) if not self.done[i] and i != but]

    def tracer(self, tid):
        def trace(frame, event, arg):
            if event == "call" and "/theboss/" in frame.f_code.co_filename:
                self.step(tid)
            return None

        return trace

    def step(self, tid):
        if self.abort:
            raise _Abort()
        if self.budget <= 0:
            return
        others = self.runnable(tid)
        if not others:
            return
        k = engine.active().demon(len(others) + 1, "preempt")
        if k:
            self.budget -= 1
            self.switch(others[k - 1])
            self.sems[tid].acquire()
            if self.abort:
                raise _Abort()

    def switch(self, to):
        self.current = to
        self.sems[to].release()

    def body(self, tid):
        self.sems[tid].acquire()
        try:
            if not self.abort:
                sys.settrace(self.tracer(tid))
                try:
                    self.results[tid] = (True, self.tasks[tid]())
                except Exception as e:
                    self.results[tid] = (False, e)
                finally:
                    sys.settrace(None)
        except _Abort:
            pass
        except BaseException as e:
            self.fatal = e
            self.abort = True
        self.done[tid] = True
        try:
            rest = self.runnable()
            if self.abort or not rest:
                self.main.release()
            else:
                self.switch(rest[engine.active().demon(len(rest), "next thread")])
        except BaseException as e:
            self.fatal = e
            self.abort = True
            self.main.release()

    def run(self):
        ths = [RealThread(target=self.body, args=(i,), daemon=True) for i in range(self.n)]
        for t in ths:
            t.start()
        if self.n:
            try:
                self.switch(engine.active().demon(self.n, "first thread"))
                self.main.acquire()
            finally:
                if not all(self.done):
                    self.abort = True
                    for s in self.sems:
                        s.release()
        for t in ths:
            t.join(5)
        if self.fatal is not None:
            raise self.fatal
        return self.results


class FakeThreadPoolExecutor(cf.Executor):
    def __init__(self, max_workers=None, thread_name_prefix="", initializer=None, initargs=()):
        if max_workers is not None and max_workers <= 0:
            raise ValueError("max_workers must be greater than 0")
        self._batch = []
        self._futs = []
        if initializer is not None:
            initializer(*initargs)

    def _flush(self):
        if self._batch:
            batch, self._batch = self._batch, []
            for f, r in zip([b[0] for b in batch], Scheduler([b[1] for b in batch]).run()):
                f._res = r

    def submit(self, fn, /, *args, **kwargs):
        def thunk():
            self._flush()
            return f._res

        f = pools.FakeFuture(thunk)
        self._batch.append((f, lambda: fn(*args, **kwargs)))
        return f

    def map(self, fn, *iterables, timeout=None, chunksize=1):
        fs = [self.submit(fn, *a) for a in zip(*iterables)]
        self._flush()

        def gen():
            for f in fs:
                yield f.result()

        return gen()

    def shutdown(self, wait=True, *, cancel_futures=False):
        self._flush()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.shutdown()
        return False


class FakeThreadPool:
    def __init__(self, processes=None, initializer=None, initargs=()):
        if initializer is not None:
            initializer(*initargs)

    @staticmethod
    def _get(rs):
        out = []
        for ok, v in rs:
            if not ok:
                raise v
            out.append(v)
        return out

    def map(self, func, iterable, chunksize=None):
        return self._get(Scheduler([(lambda x=x: func(x)) for x in iterable]).run())

    def starmap(self, func, iterable, chunksize=None):
        return self._get(Scheduler([(lambda x=x: func(*x)) for x in iterable]).run())

    def imap(self, func, iterable, chunksize=1):
        return iter(self.map(func, iterable))

    def imap_unordered(self, func, iterable, chunksize=1):
        r = self.map(func, iterable)
        return iter([r[i] for i in pools._completion_order(len(r))])

    def apply(self, func, args=(), kwds={}):
        return func(*args, **kwds)

    def close(self):
        pass

    terminate = join = close

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


_started = []


class FakeThread:
    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, *, daemon=None):
        self._target, self._args, self._kwargs = target, args, kwargs or {}
        self.daemon = daemon
        self.name = name or "thread"
        self._done = False
        self._pending = False

    def run(self):
        if self._target is not None:
            self._target(*self._args, **self._kwargs)

    def start(self):
        self._pending = True
        _started.append(self)

    def join(self, timeout=None):
        if self._pending and not self._done:
            batch, _started[:] = list(_started), []
            Scheduler([t.run for t in batch]).run()
            for t in batch:
                t._done = True

    def is_alive(self):
        return self._pending and not self._done


def install():
    cf.ThreadPoolExecutor = FakeThreadPoolExecutor
    cf.thread.ThreadPoolExecutor = FakeThreadPoolExecutor
    multiprocessing.pool.ThreadPool = FakeThreadPool
    try:
        import multiprocessing.dummy as mpd

        mpd.Pool = FakeThreadPool
    except Exception:
        pass
    # threading.Thread stays real for the scheduler; code under test gets ours
    threading.Thread = FakeThread
