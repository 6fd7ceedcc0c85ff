"""C20: statistical and number helpers."""

import itertools
import math
from fractions import Fraction

import numpy as np

BOUNDS = {
    "quick": "all distributions on up to 5 outcomes with probabilities in multiples of 1/4 (1/8 on 3, 1/6 on 4 outcomes): all pairs, all triples for the triangle inequality; all partial dictionaries; up to 257 outcomes (certain outcomes, differences down to 1e-10); sample numbers on a 9x10x9 grid; prime factors of 0<n<=400000 and of products of all pairs of 15 primes, prime powers up to 2^80",
    "thorough": "multiples of 1/12 on 3, 1/8 on 4 outcomes, 6 outcomes; n<=4000000",
}


def Q():
    import theboss.quantum_computations_utilities as q

    return q


def dists(k, d):
    """All distributions on k outcomes with denominator d."""
    def rec(k, left):
        if k == 1:
            yield (left,)
            return
        for x in range(left + 1):
            for r in rec(k - 1, left - x):
                yield (x,) + r

    return [tuple(Fraction(x, d) for x in r) for r in rec(k, d)]


def run(item, res):
    q = Q()
    t = item["type"]
    if t == "tvd":
        D = dists(item["k"], item["d"])
        keys = [(i,) for i in range(item["k"])]
        val = {}
        for a in D:
            for b in D:
                want = float(sum(abs(x - y) for x, y in zip(a, b)) / 2)
                fa, fb = [float(x) for x in a], [float(x) for x in b]
                got = [
                    q.count_total_variation_distance(fa, fb),
                    q.count_total_variation_distance(np.array(fa), fb),
                    q.count_total_variation_distance(np.array(fa), np.array(fb)),
                ]
                da, db = dict(zip(keys, fa)), dict(zip(keys, fb))
                got.append(q.count_total_variation_distance_dicts(da, db))
                # outcomes of probability 0 may be left out, and come in any order
                sa = {k: v for k, v in da.items() if v}
                sb = {k: v for k, v in reversed(list(db.items())) if v}
                got.append(q.count_total_variation_distance_dicts(sa, sb))
                got.append(q.count_total_variation_distance_dicts(sa, db))
                got.append(q.count_total_variation_distance_dicts(da, sb))
                res.point(len(got))
                for g in got:
                    if not abs(float(g) - want) <= 1e-12:
                        return res.violate("distance of %s and %s is %r, should be %r" % (fa, fb, g, want))
                if sa != {k: v for k, v in da.items() if v} or len(da) != len(keys) or fa != [float(x) for x in a]:
                    return res.violate("the distance modifies its arguments")
                val[a, b] = float(got[0])
                if not -1e-12 <= val[a, b] <= 1 + 1e-12:
                    return res.violate("distance %r of %s and %s outside [0, 1]" % (val[a, b], fa, fb))
                if (val[a, b] <= 1e-12) != (a == b):
                    return res.violate("distance %r of %s and %s" % (val[a, b], fa, fb))
        for a, b, c in itertools.product(D[:: item["step"]], repeat=3):
            res.point()
            if val[a, c] > val[a, b] + val[b, c] + 1e-12 or abs(val[a, b] - val[b, a]) > 1e-12:
                return res.violate("not a metric on %s, %s, %s" % (a, b, c))
        return
    if t == "long":
        # many outcomes: all pairs of certain outcomes, shifts, small differences
        k = item["k"]
        keys = [(i, k - i) for i in range(k)]
        eye = np.eye(k)
        uni = np.full(k, 1.0 / k)
        pairs = [(eye[i], eye[j]) for i in range(k) for j in (range(k) if k <= 40 else sorted({0, i, k - 1, (7 * i) % k, (i + 1) % k}))]
        pairs += [(eye[i], uni) for i in range(k)] + [(uni, eye[i]) for i in range(k)]
        for d in (1e-2, 1e-4, 1e-6, 1e-8, 1e-10):
            for i in range(k):
                x = uni.copy()
                x[i] += d / k
                x[(i + 1) % k] -= d / k
                if k > 1:
                    pairs += [(x, uni), (uni, x), (eye[i], (1 - d) * eye[i] + d * eye[(i + 1) % k])]
        for a, b in pairs:
            want = float(np.abs(a - b).sum() / 2)
            da, db = dict(zip(keys, a.tolist())), dict(zip(keys, b.tolist()))
            sa = {x: v for x, v in da.items() if v}
            sb = {x: v for x, v in reversed(list(db.items())) if v}
            got = [
                q.count_total_variation_distance(a.tolist(), b.tolist()), q.count_total_variation_distance(a, b),
                q.count_total_variation_distance_dicts(da, db), q.count_total_variation_distance_dicts(sa, sb),
                q.count_total_variation_distance_dicts(da, sb),
            ]
            res.point(len(got))
            for g in got:
                if not abs(float(g) - want) <= 1e-12:
                    return res.violate("distance of %d outcomes is %r, should be %r (%s, %s)" % (k, g, want, sa, sb))
        return
    if t == "part":
        # dictionaries over different, partly overlapping outcomes
        keys = [(0, 1), (1, 0), (1, 1)]
        opts = []
        for r in range(4):
            for sub in itertools.combinations(keys, r):
                for p in (dists(r, 4) if r else [()]):
                    opts.append({k: float(x) for k, x in zip(sub, p)})
        for a in opts:
            for b in opts:
                want = sum(abs(a.get(k, 0) - b.get(k, 0)) for k in keys) / 2
                x, y = dict(a), dict(b)
                g = q.count_total_variation_distance_dicts(x, y)
                res.point()
                if not abs(g - want) <= 1e-12:
                    return res.violate("distance of %s and %s is %r, should be %r" % (a, b, g, want))
                if x != a or y != b:
                    return res.violate("the distance modifies its arguments")
        return
    if t == "samples":
        K, p = item["K"], item["p"]
        for d in (1.0, 0.7, 0.5, 0.3, 0.1, 0.05, 0.01, 0.003, 1e-4, 1e-6):
            n = q.compute_minimal_number_of_samples_for_desired_accuracy(K, p, d)
            res.point()
            if isinstance(n, float) or int(n) != n or n < 1:
                return res.violate("sample number %r" % (n,))
            b = [q.count_tv_distance_error_bound_of_experiment_results(K, int(n) + i, p) for i in (0, 1)]
            lo = q.count_tv_distance_error_bound_of_experiment_results(K, int(n) - 1, p) if n > 1 else math.inf
            formula = math.sqrt((K * math.log(2) - math.log(p)) / (2 * int(n)))
            if not abs(b[0] - formula) <= 1e-12 * max(1, formula):
                return res.violate("error bound for %s outcomes, %s samples, probability %s is %r, should be %r" % (K, n, p, b[0], formula))
            if not b[0] <= d * (1 + 1e-12):
                return res.violate("%d samples for accuracy %g leave error bound %g (%d outcomes, probability %g)" % (n, d, b[0], K, p))
            if not lo > d * (1 - 1e-12):
                return res.violate("%d samples for accuracy %g are not the least number (%d outcomes, probability %g)" % (n, d, K, p))
        return
    if t == "primes":
        spf = item["hi"]
        for n in range(item["lo"], item["hi"]):
            if not prime_ok(res, q, n):
                return
        return
    if t == "prod":
        ps = [2, 3, 5, 7, 11, 13, 31, 97, 101, 997, 1009, 7919, 65537, 99991, 1000003]
        for a in ps:
            for b in ps:
                if not prime_ok(res, q, a * b) or not prime_ok(res, q, a * a * b if a < 1000 else a * b):
                    return
        for a in ps[:8]:
            e = 1
            while a ** e < 2 ** 80:
                if not prime_ok(res, q, a ** e):
                    return
                e += 1
        for n in (2 ** 31 - 1, 2 * (2 ** 31 - 1), 3 ** 20 * 5 ** 10 * 7 ** 9, math.factorial(30), 2 ** 64 * 3 * 5, 2 ** 100):
            if not prime_ok(res, q, n):
                return
        return
    if t == "dist":
        # distance between matrices: norm of the difference
        for a in ((1, 0), (0, 1j), (2, -1)):
            for b in ((1, 0), (0.5, 0), (0, 1)):
                A, B = np.array([a, a[::-1]]), np.array([b, b])
                g = q.count_distance_between_matrices(A, B)
                res.point()
                want = math.sqrt(sum(abs(x) ** 2 for x in (A - B).flatten()))
                if abs(g - want) > 1e-12:
                    return res.violate("distance of matrices %s and %s is %r, should be %r" % (a, b, g, want))


def isprime(n):
    if n < 2:
        return False
    for p in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37):
        if n % p == 0:
            return n == p
    d, s = n - 1, 0
    while d % 2 == 0:
        d //= 2
        s += 1
    for a in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37):
        x = pow(a, d, n)
        if x in (1, n - 1):
            continue
        for _ in range(s - 1):
            x = x * x % n
            if x == n - 1:
                break
        else:
            return False
    return True


def prime_ok(res, q, n):
    f = q.get_prime_factors(n)
    res.point()
    prod = 1
    for x in f:
        if isinstance(x, float) or int(x) != x or not isprime(int(x)):
            res.violate("factor %r of %d" % (x, n))
            return False
        prod *= int(x)
    if prod != n:
        res.violate("factors %s of %d" % (f, n))
        return False
    return True


def items(tier):
    deep = tier == "thorough"
    out = [dict(type="part"), dict(type="prod"), dict(type="dist")]
    for k, d, step in ((1, 4, 1), (2, 4, 1), (2, 7, 1), (3, 4, 1), (3, 6, 1), (4, 4, 1)) + ((3, 8, 1), (4, 6, 2), (5, 4, 1)) + (((3, 12, 1), (4, 8, 2), (6, 4, 1)) if deep else ()):
        out.append(dict(type="tvd", k=k, d=d, step=step))
    for K in (1, 2, 3, 10, 100, 1000, 12345, 10 ** 6, 10 ** 9):
        for p in (1.0, 0.999, 0.5, 0.25, 0.1, 0.05, 0.01, 1e-4, 1e-9, 1e-300):
            out.append(dict(type="samples", K=K, p=p))
    for k in list(range(1, 41)) + [50, 63, 64, 65, 100, 128, 129, 200, 257]:
        out.append(dict(type="long", k=k))
    top, step = (4000000, 40000) if deep else (400000, 10000)
    for lo in range(1, top, step):
        out.append(dict(type="primes", lo=lo, hi=lo + step))
    return out
