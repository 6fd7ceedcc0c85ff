"""Failures injected at every place where theboss depends on something that may
fail: a random draw, a permanent computation, a task of a worker process."""

import importlib
import pkgutil

AT = None  # number of the point that fails, None: nothing does
COUNT = 0
FIRED = None
KIND = None


class InjectedFault(MemoryError):
    pass


class InjectedInterrupt(KeyboardInterrupt):
    pass


def arm(at, kind):
    global AT, COUNT, FIRED, KIND
    AT, COUNT, FIRED, KIND = at, 0, None, kind


def disarm():
    global AT
    AT = None


def hit(label):
    """True if the failure happens here."""
    global COUNT, FIRED
    if AT is None:
        return False
    i = COUNT
    COUNT += 1
    if i == AT:
        FIRED = label
        return True
    return False


def point(label):
    if hit(label):
        raise (InjectedInterrupt if KIND == "interrupt" else InjectedFault)("injected: " + label)


_installed = False


def install():
    """Makes every permanent computation a point of failure."""
    global _installed
    if _installed:
        return
    _installed = True
    import theboss.boson_sampling_utilities.permanent_calculators as pkg

    for info in pkgutil.iter_modules(pkg.__path__, pkg.__name__ + "."):
        mod = importlib.import_module(info.name)
        for v in list(vars(mod).values()):
            if isinstance(v, type) and v.__module__ == mod.__name__:
                for name in ("compute_permanent", "compute_permanents"):
                    f = v.__dict__.get(name)
                    if callable(f) and not getattr(f, "__isabstractmethod__", False):
                        setattr(v, name, _wrapped(f))


def _wrapped(f):
    import functools

    @functools.wraps(f)
    def g(self, *a, **k):
        point("permanent")
        return f(self, *a, **k)

    return g
