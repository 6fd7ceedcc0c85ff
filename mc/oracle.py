"""Reference semantics, written from the definitions, independent of theboss."""

import functools
import itertools
import math

import numpy as np


def permanent(a):
    """Definition: sum over all permutations."""
    n = len(a)
    if n == 0:
        return 1.0 + 0j
    tot = 0j
    for p in itertools.permutations(range(n)):
        x = 1.0 + 0j
        for i in range(n):
            x *= a[i][p[i]]
            if x == 0:
                break
        tot += x
    return tot


def permanent_fast(a):
    """Expansion over subsets, for sizes where n! is too much."""
    a = np.asarray(a, dtype=complex)
    n = len(a)
    f = {0: 1.0 + 0j}
    for i in range(n):
        g = {}
        for mask, v in f.items():
            for j in range(n):
                if not mask >> j & 1:
                    k = mask | 1 << j
                    g[k] = g.get(k, 0j) + v * a[i, j]
        f = g
    return f[(1 << n) - 1]


def perm_st(matrix, s, t):
    """Permanent of the effective scattering matrix: rows by t, columns by s."""
    cols = [j for j, k in enumerate(s) for _ in range(int(k))]
    rows = [i for i, k in enumerate(t) for _ in range(int(k))]
    a = [[complex(matrix[i][j]) for j in cols] for i in rows]
    return permanent(a) if len(a) <= 5 else permanent_bunched(matrix, s, t)


def permanent_bunched(matrix, s, t):
    """prod s! times the coefficient of x^s in prod_i (sum_j a_ij x_j)^t_i."""
    cols = [j for j, k in enumerate(s) if k]
    top = [int(s[j]) for j in cols]
    f = {(0,) * len(cols): 1.0 + 0j}
    for i, k in enumerate(t):
        row = [complex(matrix[i][j]) for j in cols]
        for _ in range(int(k)):
            g = {}
            for e, v in f.items():
                for c, a in enumerate(row):
                    if a != 0 and e[c] < top[c]:
                        d = e[:c] + (e[c] + 1,) + e[c + 1 :]
                        g[d] = g.get(d, 0j) + v * a
            f = g
    return f.get(tuple(top), 0j) * fact(top)


def states(n, m):
    """All m-mode occupations with n particles (descending lexicographic)."""
    if m == 0:
        return [()] if n == 0 else []
    if m == 1:
        return [(n,)]
    return [(k,) + r for k in range(n, -1, -1) for r in states(n - k, m - 1)]


def fact(v):
    r = 1
    for x in v:
        r *= math.factorial(int(x))
    return r


def law(matrix, s):
    """Exact boson sampling law of input s through a (unitary) matrix or an
    isometry (more rows than columns)."""
    rows = len(matrix)
    n = int(sum(s))
    out = {}
    for t in states(n, rows):
        p = abs(perm_st(matrix, s, t)) ** 2 / (fact(s) * fact(t))
        out[t] = p
    return out


def isometry(a):
    """[A; sqrt(1 - A^+ A)]: the network with its lost particles."""
    a = np.asarray(a, dtype=complex)
    m = len(a)
    h = np.eye(m) - a.conj().T @ a
    w, v = np.linalg.eigh((h + h.conj().T) / 2)
    w = np.clip(w, 0, None)
    b = v @ np.diag(np.sqrt(w)) @ v.conj().T
    return np.vstack([a, b])


def lossy_law(a, s):
    """Exact law on the m observed modes of a sub-unitary network."""
    a = np.asarray(a, dtype=complex)
    m = len(a)
    n = int(sum(s))
    h = np.eye(m) - a.conj().T @ a
    if np.max(np.abs(h)) < 1e-12:
        return law(a, s)
    w = isometry(a)
    out = {}
    for t, p in law(w, s).items():
        out[t[:m]] = out.get(t[:m], 0.0) + p
    return out


def thin(s):
    """(multiplicity, survivor occupation) for every way to lose particles."""
    for t in itertools.product(*[range(int(k) + 1) for k in s]):
        mult = 1
        for a, b in zip(s, t):
            mult *= math.comb(int(a), int(b))
        yield mult, t


def fixed_loss_law(u, s, left):
    """Exactly `left` particles survive, uniformly at random."""
    n = int(sum(s))
    out = {t: 0.0 for t in states(left, len(s))}
    for mult, r in thin(s):
        if sum(r) == left:
            w = mult / math.comb(n, left)
            for t, p in law(u, r).items():
                out[t] += w * p
    return out


def uniform_loss_law(u, s, eta):
    n = int(sum(s))
    out = {}
    for l in range(n + 1):
        w = math.comb(n, l) * eta ** l * (1 - eta) ** (n - l)
        for t, p in fixed_loss_law(u, s, l).items():
            out[t] = w * p
    return out


def multinomial_states(n, k):
    """Fock states of n particles in an equal superposition of k modes, dephased."""
    if k == 0:
        yield (1.0, ()) if n == 0 else (0.0, ())
        return
    for r in states(n, k):
        yield math.factorial(n) / fact(r) / k ** n, r


def bobs_law(a, s, k):
    """General BOBS: first k modes smeared, network a with its losses."""
    m = len(s)
    k = max(0, min(m, k))
    na = int(sum(s[:k]))
    out = {}
    for w, r in multinomial_states(na, k):
        for t, p in lossy_law(a, tuple(r) + tuple(s[k:])).items():
            out[t] = out.get(t, 0.0) + w * p
    return out


def uniform_bobs_law(u, s, eta, k):
    """Uniform BOBS: modes k.. smeared, everything thinned with eta."""
    m = len(s)
    na = int(sum(s[k:]))
    out = {}
    for w, r in multinomial_states(na, m - k):
        for t, p in uniform_loss_law(u, tuple(s[:k]) + tuple(r), eta).items():
            out[t] = out.get(t, 0.0) + w * p
    return out


def mean_field_law(a, n, l):
    """l particles in one random-phase superposition of the first n modes."""
    m = len(a)
    if m == n == 1:  # any number of particles
        eta = min(1.0, abs(a[0][0]) ** 2)
        return {(t,): math.comb(l, t) * eta ** t * (1 - eta) ** (l - t) for t in range(l + 1)}
    out = {}
    for w, r in multinomial_states(l, n):
        for t, p in lossy_law(a, tuple(r) + (0,) * (m - n)).items():
            out[t] = out.get(t, 0.0) + w * p
    return out


def uniform_mean_field_law(a, n, eta):
    out = {}
    for l in range(n + 1):
        w = math.comb(n, l) * eta ** l * (1 - eta) ** (n - l)
        if w == 0:
            continue
        for t, p in mean_field_law(a, n, l).items():
            out[t] = out.get(t, 0.0) + w * p
    return out


def product_law(*laws):
    """Joint law of independent samples."""
    out = {(): 1.0}
    for lw in laws:
        new = {}
        for h, p in out.items():
            for t, q in lw.items():
                if p * q > 0:
                    new[h + (t,)] = p * q
        out = new
    return out


def compare(p, q, tol=1e-9):
    """Largest disagreement of two laws, and where."""
    worst, where = 0.0, None
    for k in set(p) | set(q):
        d = abs(p.get(k, 0.0) - q.get(k, 0.0))
        if d > worst:
            worst, where = d, k
    return worst, where
