"""C14: Fock-space enumeration and counting."""

import itertools
import math

import numpy as np

from .. import oracle
from ..harness import canon

BOUNDS = {
    "quick": "all (n, m) with at most 20000 states, n<=12, m<=12, plus n<=2 with m<=40 and m<=2 with n<=60; all inputs with m<=6, n<=6 and every number left; occupations up to 1024 converted; counting for all n, m <= 130 (exact integers); mutation of every result between calls, all call pairs",
    "thorough": "at most 200000 states, n, m <= 16; counting for n, m <= 200",
}


def U():
    import theboss.boson_sampling_utilities.boson_sampling_utilities as u

    return u


def check_list(res, got, want, what):
    """Same objects, each exactly once, all of them tuples."""
    res.point()
    if not isinstance(got, list) or any(not isinstance(g, tuple) for g in got):
        res.violate("%s: not a list of tuples" % what)
        return False
    g = [canon(x) for x in got]
    if len(g) != len(set(g)):
        res.violate("%s: %s repeated" % (what, next(x for x in g if g.count(x) > 1)))
        return False
    w = set(want)
    if set(g) != w:
        d = sorted(set(g) ^ w)[0]
        res.violate("%s: %s is %s" % (what, d, "missing" if d in w else "no such object"))
        return False
    return True


def check_int(res, got, want, what):
    res.point()
    if isinstance(got, float) or int(got) != got or int(got) != want:
        res.violate("%s: %r, should be %d" % (what, got, want))
        return False
    return True


def spoil(x):
    """What a caller may do to a list he got."""
    x.reverse()
    if x:
        x[0] = (9,)
        x.append((8, 8))
        del x[1:2]


def lossy_inputs(s, left):
    return [t for t in itertools.product(*[range(k + 1) for k in s]) if sum(t) == left]


def types(n, m):
    return {tuple(sorted(t, reverse=True)) for t in partitions(n, m, n)}


def partitions(n, m, top):
    """Non-increasing m-tuples of sum n."""
    if m == 0:
        return [()] if n == 0 else []
    return [(k,) + r for k in range(min(n, top), -1, -1) for r in partitions(n - k, m - 1, k)]


_pt = {}


def npart(n, m):
    """Partitions of n into at most m parts."""
    if n == 0:
        return 1
    if m == 0 or n < 0:
        return 0
    if (n, m) not in _pt:
        _pt[n, m] = npart(n, m - 1) + npart(n - m, m)
    return _pt[n, m]


def states_list(n, m, losses):
    if n < 0 or m < 1:
        return []
    if not losses:
        return oracle.states(n, m)
    return [t for k in range(n + 1) for t in oracle.states(k, m)]


def run(item, res):
    u = U()
    t = item["type"]
    I = (lambda x: x) if not item.get("np") else np.int64
    if t == "states":
        n, m = item["n"], item["m"]
        for losses in (False, True):
            want = states_list(n, m, losses)
            for rep in range(3):
                got = u.generate_possible_states(I(n), I(m), losses) if rep % 2 else u.generate_possible_states(I(n), I(m), losses=losses)
                if not check_list(res, got, want, "states n=%d m=%d losses=%s call %d" % (n, m, losses, rep)):
                    return
                spoil(got)
            if not check_int(res, u.bosonic_space_dimension(n, m, losses), len(want), "dimension n=%d m=%d losses=%s" % (n, m, losses)):
                return
            if losses is False and not check_int(res, u.bosonic_space_dimension(n, m), len(want), "dimension n=%d m=%d default" % (n, m)):
                return
            if losses is False and not check_list(res, u.generate_possible_states(n, m), want, "states n=%d m=%d default" % (n, m)):
                return
            for st in want[:200]:
                if m and not roundtrip(res, u, st):
                    return
        return
    if t == "types":
        n, m = item["n"], item["m"]
        for losses in (False, True):
            want = set().union(*[partitions(k, m, k) for k in (range(n + 1) if losses else [n])])
            for rep in range(3):
                got = u.generate_state_types(I(m), I(n), losses)
                if not check_list(res, got, want, "types n=%d m=%d losses=%s" % (n, m, losses)):
                    return
                spoil(got)
            if losses is False:
                if not check_list(res, u.generate_state_types(m, n), want, "types n=%d m=%d default" % (n, m)):
                    return
                if not check_int(res, u.compute_number_of_state_types(m, n), len(want), "number of types n=%d m=%d default" % (n, m)):
                    return
            if not check_int(res, u.compute_number_of_state_types(m, n, losses=losses), len(want), "number of types n=%d m=%d losses=%s" % (n, m, losses)):
                return
            for ty in want:
                c = math.factorial(m)
                for v in set(ty):
                    c //= math.factorial(ty.count(v))
                for cont in (tuple(ty), list(ty), tuple(ty[::-1])):
                    if not check_int(res, u.compute_number_of_states_of_given_type(cont), c, "states of type %s" % (ty,)):
                        return
        # the types partition the states
        tot = sum(u.compute_number_of_states_of_given_type(x) for x in u.generate_state_types(m, n))
        check_int(res, tot, math.comb(n + m - 1, n), "states of all types n=%d m=%d" % (n, m))
        return
    if t == "parts":
        n, m = item["n"], item["m"]
        for k in range(2, m + 1):
            want = npart(n, k) - npart(n, k - 1)
            if not check_int(res, u.compute_number_of_k_element_integer_partitions_of_n(k, n), want, "%d-element partitions of %d" % (k, n)):
                return
        if n >= 1:
            check_int(res, u.compute_number_of_k_element_integer_partitions_of_n(1, n), 1, "1-element partitions of %d" % n)
        return
    if t == "inputs":
        for s in item["states"]:
            s = tuple(s)
            for left in item.get("lefts", range(sum(s) + 2)):
                want = lossy_inputs(s, left)
                for c in (list, tuple, np.array)[: item.get("conts", 3)]:
                    got = u.generate_lossy_n_particle_input_states(c(s), left)
                    if not check_list(res, got, want, "inputs left=%d of %s" % (left, s)):
                        return
                    spoil(got)
        return
    if t == "count":
        for n in range(item["n0"], item["n1"]):
            for m in range(1, item["top"] + 1):
                d = math.comb(n + m - 1, n)
                if not check_int(res, u.bosonic_space_dimension(I(n), I(m)), d, "dimension n=%d m=%d" % (n, m)):
                    return
                dl = math.comb(n + m, m)
                if not check_int(res, u.bosonic_space_dimension(I(n), I(m), True), dl, "dimension n=%d m=%d with losses" % (n, m)):
                    return
        return
    if t == "hist":
        calls = []
        for n, m in ((0, 2), (1, 2), (2, 1), (2, 2), (2, 3), (3, 2)):
            for l in (False, True):
                calls.append((lambda n=n, m=m, l=l: u.generate_possible_states(n, m, l), states_list(n, m, l), ("states", n, m, l)))
                calls.append((lambda n=n, m=m, l=l: u.generate_state_types(m, n, l),
                              sorted(set().union(*[partitions(k, m, k) for k in (range(n + 1) if l else [n])])), ("types", n, m, l)))
        for s in ((1, 1), (2, 0), (0, 2), (1, 0, 1)):
            for left in range(sum(s) + 1):
                calls.append((lambda s=s, left=left: u.generate_lossy_n_particle_input_states(s, left), lossy_inputs(s, left), ("inputs", s, left)))
        first = calls[item["i"]]
        for rest in itertools.product(calls, repeat=item["len"]):
            kept = None
            for c in (first,) + rest:
                got = c[0]()
                if not check_list(res, got, c[1], "%s after %s" % (c[2], [x[2] for x in (first,) + rest])):
                    return
                if kept is not None and sorted(kept[0]) != kept[1]:
                    res.violate("%s changed the list returned by the call before" % (c[2],))
                    return
                kept = (got, sorted(got))
                if item["spoil"]:
                    spoil(got)
                    kept = None
        return
    if t == "none":
        for n in range(-2, 3):
            for m in range(-2, 3):
                if n >= 0 and m >= 1:
                    continue
                for losses in (False, True):
                    if not check_list(res, u.generate_possible_states(n, m, losses), [], "states n=%d m=%d" % (n, m)):
                        return
                    if not check_int(res, u.bosonic_space_dimension(n, m, losses), 0, "dimension n=%d m=%d" % (n, m)):
                        return
        return
    if t == "oftype":
        for ty in ((1,) * 24, (2,) + (1,) * 25, tuple(range(25, 0, -1)), (3, 3) + (1,) * 20 + (0,) * 20, (1,) * 5 + (0,) * 60):
            c = math.factorial(len(ty))
            for v in set(ty):
                c //= math.factorial(ty.count(v))
            if not check_int(res, u.compute_number_of_states_of_given_type(ty), c, "states of type %s" % (ty,)):
                return
        return
    if t == "assign":
        # all mode assignments, sorted or not
        for n in range(item["n"] + 1):
            for a in itertools.product(range(item["m"]), repeat=n):
                want = [0] * item["m"]
                for x in a:
                    want[x] += 1
                for c in (list, tuple, lambda v: np.array(v, dtype=int)):
                    got = u.mode_assignment_to_mode_occupation(c(a), item["m"])
                    res.point()
                    if not isinstance(got, tuple) or canon(got) != tuple(want):
                        res.violate("assignment %s over %d modes becomes %s" % (a, item["m"], got))
                        return
                if a:
                    got = u.mode_assignment_to_mode_occupation(list(a))
                    if canon(got) != tuple(want)[: max(a) + 1]:
                        res.violate("assignment %s becomes %s" % (a, got))
                        return
    if t == "crowd":
        for st in itertools.product(item["of"], repeat=item["m"]):
            if not roundtrip(res, u, st):
                return


def roundtrip(res, u, st):
    want = tuple(i for i, k in enumerate(st) for _ in range(k))
    for c in (list, tuple, np.array):
        got = u.mode_occupation_to_mode_assignment(c(st))
        res.point()
        if not isinstance(got, tuple) or canon(got) != want:
            res.violate("occupation %s becomes assignment %s" % (st, got))
            return False
        back = u.mode_assignment_to_mode_occupation(got, len(st))
        if canon(back) != tuple(st):
            res.violate("occupation %s becomes %s via assignment %s" % (st, back, got))
            return False
    return True


def items(tier):
    deep = tier == "thorough"
    top, cap = (16, 200000) if deep else (12, 20000)
    out = [dict(type="none"), dict(type="oftype")]
    for n in range(0, top + 1):
        for m in range(1, top + 1):
            if math.comb(n + m, m) <= cap:
                out.append(dict(type="states", n=n, m=m, np=(n + m) % 3 == 0))
            if n <= 9 or deep:
                out.append(dict(type="types", n=n, m=m))
            out.append(dict(type="parts", n=n, m=m))
    for n in (0, 1, 2):
        for m in (12, 16, 20, 25, 32, 40):
            out.append(dict(type="states", n=n, m=m))
            out.append(dict(type="types", n=n, m=m))
    for n in (12, 15, 20, 30, 45, 60):
        for m in (1, 2):
            out.append(dict(type="states", n=n, m=m))
        for m in (1, 2, 3, 5):
            if n <= 30:
                out.append(dict(type="types", n=n, m=m))
                out.append(dict(type="parts", n=n, m=m))
    for n in list(range(95, 112)) + [128, 200, 256, 300]:
        for m in (1, 2, 3) + ((4,) if n < 130 else ()):
            out.append(dict(type="parts", n=n, m=m))
    for m in range(1, 8 if deep else 7):
        for n in range(0, 8 if deep else 7):
            out.append(dict(type="inputs", states=oracle.states(n, m)))
    out.append(dict(type="inputs", states=[(8, 3), (0, 12), (1,) * 10, (2, 0, 0, 7, 1), (0,) * 30 + (1, 1), (0,) * 130 + (1, 2), (1,) + (0,) * 260 + (1,), (0,) * 99 + (1,) + (0,) * 200 + (2,)]))
    # large occupations
    out.append(dict(type="inputs", states=[(11, 11)], lefts=[12], conts=1))
    out.append(dict(type="inputs", states=[(11, 10)], lefts=[11, 19, 20, 21], conts=1))
    out.append(dict(type="inputs", states=[(10, 1, 1), (1, 10, 1), (1, 1, 10), (11, 1), (1, 11), (12, 1, 0, 2), (0, 2, 0, 12)], conts=1))
    out.append(dict(type="inputs", states=[(14,), (0, 14), (13, 1), (7, 7)], conts=1))
    out.append(dict(type="inputs", states=[(17,), (40,), (0, 40), (39, 1), (20, 20)], lefts=[0, 1, 2, 3], conts=1))
    out.append(dict(type="inputs", states=[(1,) * 12, (1, 0) * 9, (0, 1) * 9 + (2,)], lefts=[0, 1, 2, 3, 4], conts=1))
    t = 200 if deep else 130
    for n0 in range(0, t, 10):
        out.append(dict(type="count", n0=n0, n1=n0 + 10, top=t))
    out.append(dict(type="count", n0=0, n1=8, top=t, np=True))
    out.append(dict(type="count", n0=200, n1=203, top=60))
    out.append(dict(type="count", n0=40, n1=43, top=400))
    for i in range(36):
        for sp in (False, True):
            out.append(dict(type="hist", i=i, len=2 if deep else 1, spoil=sp))
    big = [0, 1, 9, 10, 31, 32, 63, 64, 99, 100, 127, 128, 129, 255, 256, 257, 300, 1000, 1023, 1024]
    out.append(dict(type="crowd", m=1, of=big))
    out.append(dict(type="crowd", m=2, of=big[::2]))
    out.append(dict(type="crowd", m=3, of=[0, 1, 128, 256]))
    for m in range(1, 5):
        out.append(dict(type="assign", m=m, n=4 if m > 2 else 5))
    return out
