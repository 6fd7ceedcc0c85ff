"""Deterministic families of matrices and states."""

import itertools

import numpy as np

from . import oracle
from .rng import REAL


def _haar(m, seed):
    r = REAL["RandomState"](1000 * m + seed)
    z = r.standard_normal((m, m)) + 1j * r.standard_normal((m, m))
    q, rr = np.linalg.qr(z)
    d = np.diag(rr)
    return q * (d / abs(d))


def unitary(name, m):
    if name.endswith("^T"):
        return unitary(name[:-2], m).T
    if name.endswith("*"):  # conjugated
        return unitary(name[:-1], m).conj()
    if name.endswith("|"):  # two columns interchanged
        u = unitary(name[:-1], m)
        return u[:, [1, 0] + list(range(2, m))] if m > 1 else -u
    if name.endswith("-"):  # the sign of one column
        u = unitary(name[:-1], m) + 0j
        u[:, 0] *= -1
        return u
    if name.endswith(("~", "=")):  # almost the same
        a = 1e-4 if name.endswith("~") else 1e-6
        c, s = np.cos(a), np.sin(a)
        r = np.eye(m)
        if m > 1:
            r[:2, :2] = [[c, s], [-s, c]]
        return r @ unitary(name[:-1], m)
    if name == "id":
        return np.eye(m)
    if name == "perm":
        return np.roll(np.eye(m), 1, axis=0)
    if name == "iperm":  # integer entries
        return np.roll(np.eye(m, dtype=int), 1, axis=0)
    if name == "qft":
        k = np.arange(m)
        return np.exp(2j * np.pi * np.outer(k, k) / m) / np.sqrt(m)
    if name.startswith("wk"):  # weak coupling of neighbours: sin(angle) = 10^-k
        x = 10.0 ** -float(name[2:])
        c, s = np.sqrt(1 - x * x), x
        u = np.eye(m, dtype=complex)
        for i in range(m - 1):
            g = np.eye(m, dtype=complex)
            g[i : i + 2, i : i + 2] = [[c, 1j * s], [1j * s, c]]
            u = g @ u
        return u
    if name.startswith("dip"):  # generic (m >= 3) but for one entry of modulus 10^-k
        if m == 1:
            return unitary("gen", 1)
        x = 10.0 ** -float(name[3:])
        u = np.array(unitary("gen", m), dtype=complex)
        a, b = u[0, 0], u[1, 0]
        r = np.hypot(abs(a), abs(b))
        p, q = np.array([a, b]) / r
        back = np.array([[q, -p], [np.conj(p), np.conj(q)]])  # takes rows 0, 1 of column 0 to (0, r)
        x = x / r
        c = np.sqrt(1 - x * x)
        u[:2] = np.array([[c, x], [-x, c]]) @ back @ u[:2]
        return u
    if name == "had":  # the moduli of the Fourier transform of 4 modes
        k = np.arange(m)
        return np.array([[(-1) ** bin(i & j).count("1") for j in k] for i in k]) / np.sqrt(m)
    if name == "bs":  # beam splitter on modes 0, 1; the rest untouched
        u = np.eye(m, dtype=complex)
        if m >= 2:
            c, s = np.cos(0.6), np.sin(0.6)
            u[:2, :2] = [[c, 1j * s], [1j * s, c]]
        return u
    if name == "rev":
        return np.eye(m)[::-1].copy()
    if name == "bs2":  # beam splitters on the last two modes and, if distinct, the first two
        u = np.eye(m, dtype=complex)
        c, s = np.cos(0.9), np.sin(0.9)
        if m >= 2:
            u[-2:, -2:] = [[c, s], [-s, c]]
        return u
    if name == "real":  # real orthogonal, generic
        r = REAL["RandomState"](77 + m)
        q, rr = np.linalg.qr(r.standard_normal((m, m)))
        return q * np.sign(np.diag(rr))
    if name.startswith("gen"):
        return _haar(m, int(name[3:] or 0))
    raise KeyError(name)


def lossy(name, m):
    """Sub-unitary matrices."""
    if name.endswith("^T"):
        return lossy(name[:-2], m).T
    if name.startswith("u:"):  # unitary
        return unitary(name[2:], m)
    if name.startswith("uni:"):  # uniform losses  uni:<eta>:<unitary>
        _, eta, u = name.split(":")
        return np.sqrt(float(eta)) * unitary(u, m)
    t = np.resize([0.9, 0.35, 0.6, 0.75, 0.2, 0.5], m)
    if name == "in":  # mode dependent losses at the input
        return unitary("gen1", m) @ np.diag(np.sqrt(t))
    if name == "out":
        return np.diag(np.sqrt(t)) @ unitary("gen2", m)
    if name == "mid":
        return unitary("gen1", m) @ np.diag(np.sqrt(t)) @ unitary("gen2", m)
    if name == "part":  # some modes lossless, others lossy
        tt = np.resize([1.0, 0.4, 1.0, 0.7, 1.0, 0.1], m)
        return unitary("gen3", m) @ np.diag(np.sqrt(tt)) @ unitary("gen1", m)
    if name == "rank":  # one mode totally lost
        tt = np.resize([1.0, 0.0, 0.5, 0.8, 0.3, 0.6], m)
        if m == 1:
            tt = np.array([0.0])
        return unitary("gen2", m) @ np.diag(np.sqrt(tt)) @ unitary("real", m)
    if name == "near":  # almost lossless and almost opaque modes
        tt = np.resize([1 - 2e-4, 2e-4, 0.5, 0.998, 0.002, 1 - 1e-5], m)
        return unitary("gen2", m) @ np.diag(np.sqrt(tt)) @ unitary("gen1", m)
    if name == "near7":
        tt = np.resize([1 - 1e-7, 1e-7, 0.5, 1 - 1e-6, 1e-6, 0.3], m)
        return unitary("gen2", m) @ np.diag(np.sqrt(tt)) @ unitary("gen1", m)
    if name.startswith("even:"):  # almost uniform losses  even:<eta>:<spread>:<unitary>
        _, eta, d, u = name.split(":")
        tt = float(eta) - float(d) * np.resize([0.0, 1.0, 0.5, 0.25, 0.8, 0.1], m)
        return unitary(u, m) @ np.diag(np.sqrt(tt)) @ unitary("gen1", m)
    if name == "diag":
        return np.diag(np.sqrt(t))
    if name == "blk":  # losses in one arm of a beam splitter
        return unitary("bs", m) @ np.diag(np.sqrt(t))
    if name == "zero":
        return np.zeros((m, m))
    raise KeyError(name)


def all_states(max_m, max_n, min_m=1, min_n=0):
    return [
        s
        for m in range(min_m, max_m + 1)
        for n in range(min_n, max_n + 1)
        for s in oracle.states(n, m)
    ]


CONTAINERS = ("list", "tuple", "array")


def contain(s, kind):
    if kind == "list":
        return list(s)
    if kind == "tuple":
        return tuple(s)
    if kind == "array":
        return np.array(s, dtype=int)
    if kind == "i4":
        return np.array(s, dtype=kind)
    if kind == "view":  # not contiguous
        a = np.zeros(2 * len(s), dtype=int)
        a[::2] = s
        return a[::2]
    if kind == "npint":  # a list of numpy integers
        return [np.int64(x) for x in s]
    if kind == "ro":
        a = np.array(s, dtype=int)
        a.setflags(write=False)
        return a
    raise KeyError(kind)


def contain_matrix(u, kind):
    if kind == "array":
        return np.array(u)
    if kind == "list":
        return [list(r) for r in np.asarray(u).tolist()]
    if kind == "tuple":
        return tuple(tuple(r) for r in np.asarray(u).tolist())
    if kind == "fortran":
        return np.asfortranarray(np.array(u, dtype=complex))
    if kind == "ro":
        a = np.array(u)
        a.setflags(write=False)
        return a
    raise KeyError(kind)


def square(name, m):
    """Arbitrary square complex matrices (permanents need no unitarity)."""
    if name.endswith("^T"):
        return square(name[:-2], m).T
    if name.endswith("~"):
        a = np.array(square(name[:-1], m), dtype=complex)
        a[-1, 0] += 1e-5
        return a
    r = REAL["RandomState"](9000 + 10 * m)
    if name == "cplx":
        return r.standard_normal((m, m)) + 1j * r.standard_normal((m, m))
    if name == "cplx2":
        r = REAL["RandomState"](9500 + 10 * m)
        return r.standard_normal((m, m)) + 1j * r.standard_normal((m, m))
    if name == "int":
        return r.randint(-3, 4, (m, m))
    if name == "imag":
        return 1j * r.standard_normal((m, m))
    if name == "zrow":  # a zero row and a zero column
        a = r.standard_normal((m, m)) + 1j * r.standard_normal((m, m))
        a[0, :] = 0
        a[:, m - 1] = 0
        return a
    if name == "ones":
        return np.ones((m, m))
    if name == "zeros":
        return np.zeros((m, m))
    if name == "big":
        return 1e6 * (r.standard_normal((m, m)) + 1j * r.standard_normal((m, m)))
    if name == "tiny":
        return 1e-6 * (r.standard_normal((m, m)) + 1j * r.standard_normal((m, m)))
    if name == "nano":
        return 1e-11 * (r.standard_normal((m, m)) + 1j * r.standard_normal((m, m)))
    if name == "giga":
        return 1e11 * (r.standard_normal((m, m)) + 1j * r.standard_normal((m, m)))
    if name == "tri":  # triangular, entries of very different sizes
        a = np.triu(r.standard_normal((m, m)) + 1j * r.standard_normal((m, m)))
        for i, x in enumerate((1e-8, 1.0, 1e-4, 1.0, 1e-2, 1.0)[:m]):
            a[i, i] *= x
        return a
    if name == "canc":  # rows summing to zero: the first term of every formula vanishes
        a = r.standard_normal((m, m)) + 1j * r.standard_normal((m, m))
        a[:, -1] = -a[:, :-1].sum(axis=1) if m > 1 else 0
        return a
    return unitary(name, m)
