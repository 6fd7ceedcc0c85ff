"""Memory of the (virtual) processes: module and class level data of theboss.

Worker processes do not share module globals or class attributes with their
parent: a spawned worker has those of a fresh import, a forked one a copy of
the parent's at the fork.  The explorer runs all virtual processes in one real
one, so the data is swapped when a virtual process is entered or left, and put
back to its import-time value before every execution (which also makes the
executions independent of each other).
"""

import copy
import enum
import functools
import sys
import types

_SKIP = (
    type,
    types.ModuleType,
    types.FunctionType,
    types.BuiltinFunctionType,
    types.MethodType,
    types.MethodDescriptorType,
    types.WrapperDescriptorType,
    types.GetSetDescriptorType,
    types.MemberDescriptorType,
    staticmethod,
    classmethod,
    property,
    functools.partial,
)
_IMMUTABLE = (int, float, complex, str, bytes, bool, type(None), enum.Enum, tuple, frozenset)

_spaces = None  # list of (owner, is_class)
_pristine = None  # list of dict name -> value
_sizes = None
_mutable = False
_caches = []


def _is_data(name, v):
    if name.startswith("__") and name.endswith("__") or name.startswith("_abc_"):
        return False
    if isinstance(v, _SKIP) or callable(v):
        return False
    m = type(v).__module__ or ""
    if m.startswith("typing") or m == "__future__":
        return False
    return True


def _find():
    out, seen = [], set()
    for name in sorted(sys.modules):
        mod = sys.modules[name]
        if mod is None or not (name == "theboss" or name.startswith("theboss.")):
            continue
        out.append((mod, False))
        for v in list(vars(mod).values()):
            if isinstance(v, type) and (v.__module__ or "").startswith("theboss"):
                if v not in seen and not issubclass(v, enum.Enum):
                    seen.add(v)
                    out.append((v, True))
    return out


def _data(owner):
    return {k: v for k, v in vars(owner).items() if _is_data(k, v)}


def snapshot():
    """Called once, after theboss has been imported."""
    global _spaces, _pristine, _sizes, _mutable, _caches
    _spaces = _find()
    _pristine = []
    _caches = []
    for o, is_class in _spaces:
        d = _data(o)
        _pristine.append(_copy(d))
        for v in vars(o).values():
            f = v.__func__ if isinstance(v, (staticmethod, classmethod)) else v
            if hasattr(f, "cache_clear"):
                _caches.append(f)
    _sizes = [len(vars(o)) for o, _ in _spaces]
    _mutable = any(
        not isinstance(v, _IMMUTABLE) for d in _pristine for v in d.values()
    )


def _copy(d):
    memo = {}
    out = {}
    for k, v in d.items():
        if isinstance(v, _IMMUTABLE):
            out[k] = v
            continue
        try:
            out[k] = copy.deepcopy(v, memo)
        except Exception:
            out[k] = v
    return out


def _put(i, d):
    o, is_class = _spaces[i]
    cur = _data(o)
    for k in cur:
        if k not in d:
            delattr(o, k)
    for k, v in d.items():
        if k not in cur or cur[k] is not v:
            setattr(o, k, v)


def clean():
    """Is everything as imported (cheap test)?"""
    if _mutable:
        return False
    for i, ((o, _), d) in enumerate(zip(_spaces, _pristine)):
        vs = vars(o)
        if len(vs) != _sizes[i]:
            if set(_data(o)) != set(d):
                return False
            _sizes[i] = len(vs)  # e.g. __slotnames__, added by pickling
        for k, v in d.items():
            if vs.get(k, _put) is not v:
                return False
    return True


def reset():
    if _spaces is None:
        return
    for f in _caches:
        f.cache_clear()
    if clean():
        return
    for i, d in enumerate(_pristine):
        _put(i, _copy(d))


def current():
    """References to the data of the process that is running."""
    return [_data(o) for o, _ in _spaces]


def fork():
    if _spaces is None or clean():
        return None
    return [_copy(d) for d in current()]


def enter(mem):
    """Switches to a process with memory mem (None: as imported)."""
    if _spaces is None:
        return None
    if mem is None and clean():
        return "clean"
    here = current()
    for i in range(len(_spaces)):
        _put(i, _copy(_pristine[i]) if mem is None else mem[i])
    return here


def leave(token):
    """Returns to the process described by token; gives what was left."""
    if token is None:
        return None
    if token == "clean":
        if clean():
            return None
        left = current()
        for i in range(len(_spaces)):
            _put(i, _copy(_pristine[i]))
        return left
    left = current()
    for i in range(len(_spaces)):
        _put(i, token[i])
    return left
