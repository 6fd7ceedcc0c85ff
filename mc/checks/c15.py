"""C15: dilations, network models, transmissivities, Fourier and phase matrices."""

import itertools

import numpy as np

from .. import domain, oracle
from ..engine import EngineLimit, Explorer

LOSSY = ("u:gen", "u:gen1", "u:id", "u:perm", "u:iperm", "u:qft", "u:bs", "u:real", "uni:0.5:gen", "uni:0.01:gen1",
         "uni:0.999999:gen2", "in", "out", "mid", "part", "rank", "diag", "blk", "zero", "svdzero", "svdmix", "nonnormal", "int0", "near", "near7", "uni:0.9999999:gen", "uni:0.0000001:gen",
         "even:1:1e-2:gen2", "even:1:1e-4:id", "even:1:1e-7:gen2", "even:0.5:1e-2:id", "even:0.5:1e-6:gen2")
BOUNDS = {
    "quick": "32 families of matrices x m=1..6 x 5 containers, also m=7..65; all pairs of families in turn (m=2,3), arrays refilled; network input vectors: all basis vectors and all sums/differences; QFT for all k<=m<=9 and m=32, 100; phase matrices for all k<=m<=4 with all mixed trigonometric moments up to order 2",
    "thorough": "m=1..10 x 5 containers, networks m<=17; QFT m<=16; phases k<=4",
}
TOL = 1e-9


def U():
    import theboss.boson_sampling_utilities.boson_sampling_utilities as u

    return u


def matrix(name, m):
    if name == "svdzero":  # only the first singular value differs from zero
        d = np.zeros(m)
        d[0] = 0.8
        return domain.unitary("gen", m) @ np.diag(d) @ domain.unitary("gen1", m)
    if name == "svdmix":  # 1, 0 and something between, real
        d = np.array([1.0, 0.0, 0.5] * m)[:m]
        return domain.unitary("real", m) @ np.diag(d)
    if name == "nonnormal":  # nilpotent shift
        return np.diag(np.full(m - 1, 0.7), 1) if m > 1 else np.array([[0.7]])
    if name == "int0":  # integer 0/1 matrix losing one mode
        a = np.roll(np.eye(m, dtype=int), 1, axis=0)
        a[:, 0] = 0
        return a
    return domain.lossy(name, m)


def close(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and (a.size == 0 or np.max(np.abs(a - b)) <= TOL)


def run(item, res):
    u = U()
    t = item["type"]
    if t == "dil":
        m = item["m"]
        a = matrix(item["mat"], m)
        what = "%s m=%d as %s" % (item["mat"], m, item["mk"])
        last = None
        for rep in range(2):
            x = u.prepare_interferometer_matrix_in_expanded_space(domain.contain_matrix(a, item["mk"]))
            res.point()
            x = np.asarray(x)
            if x.shape != (2 * m, 2 * m):
                return res.violate("%s: expanded to shape %s" % (what, x.shape))
            if not close(x.conj().T @ x, np.eye(2 * m)) or not close(x @ x.conj().T, np.eye(2 * m)):
                return res.violate("%s: expansion is not unitary (%.3g)" % (what, np.max(np.abs(x.conj().T @ x - np.eye(2 * m)))))
            if not close(x[:m, :m], a):
                return res.violate("%s: upper left block of the expansion differs from the matrix" % what)
            if x.flags.writeable:
                x[:] = 0
        for rep in range(2):
            tv = np.asarray(u.get_modes_transmissivity_values_from_matrix(domain.contain_matrix(a, item["mk"])))
            res.point()
            want = np.sort(np.linalg.eigvalsh(np.asarray(a, dtype=complex).conj().T @ a))
            if tv.shape != (m,) or not close(np.sort(tv), np.clip(want, 0, None)):
                return res.violate("%s: transmissivities %s, should be %s" % (what, tv, want))
            if tv.flags.writeable:
                tv[:] = 7
        return
    if t == "pairs":
        # one matrix after the other: nothing is remembered
        m = item["m"]
        a = matrix(item["mat"], m)
        for other in LOSSY:
            b = matrix(other, m)
            held = np.array(a, dtype=complex)
            for y in (held, b, held):
                x = np.array(u.prepare_interferometer_matrix_in_expanded_space(y))
                v = np.sort(np.asarray(u.get_modes_transmissivity_values_from_matrix(y)))
                res.point()
                want = np.clip(np.sort(np.linalg.eigvalsh(np.asarray(y, dtype=complex).conj().T @ y)), 0, None)
                if x.shape != (2 * m, 2 * m) or not close(x.conj().T @ x, np.eye(2 * m)) or not close(x[:m, :m], y) or not close(v, want):
                    return res.violate("m=%d, %s and %s in turn: wrong expansion or transmissivities" % (m, item["mat"], other))
                if y is held:
                    held[:] = matrix(other, m)  # the caller's array refilled
                    x = np.array(u.prepare_interferometer_matrix_in_expanded_space(held))
                    if not close(x[:m, :m], held) or not close(x.conj().T @ x, np.eye(2 * m)):
                        return res.violate("m=%d, %s refilled with %s: expansion of the former content" % (m, item["mat"], other))
                    held[:] = a
        return
    if t == "net":
        from theboss.network_simulation_strategy.lossless_network_simulation_strategy import LosslessNetworkSimulationStrategy as A
        from theboss.network_simulation_strategy.lossy_network_simulation_strategy import LossyNetworkSimulationStrategy as B

        m = item["m"]
        a = matrix(item["mat"], m)
        basis = [np.eye(m, dtype=int)[i] for i in range(m)]
        vecs = list(basis) + [np.zeros(m, dtype=int)]
        vecs += [x + y for x, y in itertools.combinations(basis, 2)] + [x - 1j * y for x, y in itertools.combinations(basis, 2)]
        vecs += [np.arange(1, m + 1), (0.3 - 2j) * np.arange(1, m + 1), np.exp(1j * np.arange(m)) / np.sqrt(m)]
        for cls in (A, B):
            net = cls(domain.contain_matrix(a, item["mk"]))
            for v in vecs + vecs[::-1]:
                for f in (lambda z: z.copy(), lambda z: z.tolist(), lambda z: tuple(z.tolist())):
                    got = net.simulate(f(v))
                    res.point()
                    if not close(got, np.asarray(a) @ v):
                        return res.violate("%s %s m=%d: %s is sent to %s, should be %s" % (cls.__name__, item["mat"], m, v, got, np.asarray(a) @ v))
        return
    if t == "qft":
        m = item["m"]
        for k in item["ks"]:
            for rep in range(2):
                q = np.asarray(u.generate_qft_matrix_for_first_m_modes(k, m))
                res.point()
                want = np.eye(m, dtype=complex)
                if k:
                    r = np.arange(k)
                    want[:k, :k] = np.exp(2j * np.pi * (np.outer(r, r) % k) / k) / np.sqrt(k)
                if not close(q, want):
                    return res.violate("Fourier matrix on %d of %d modes is wrong" % (k, m))
                if q.flags.writeable:
                    q[:] = 0
        import theboss.quantum_computations_utilities as qc

        for n in range(1, m + 1):
            q = np.asarray(qc.compute_qft_matrix(n))
            r = np.arange(n)
            res.point()
            if not close(q, np.exp(2j * np.pi * (np.outer(r, r) % n) / n) / np.sqrt(n)):
                return res.violate("Fourier matrix of size %d is wrong" % n)
        return
    if t == "phase":
        k, m, calls = item["k"], item["m"], item["calls"]
        what = "random phases on %d of %d modes, %d calls" % (k, m, calls)
        bad = {}
        top = item.get("top", 2)
        for g in ((5, 7) if k * calls <= 2 else (3, 4)) if top == 2 else (2 * top + 3, 2 * top + 5):
            ex = Explorer(grid=g, max_executions=200000)
            mom = {}
            try:
                def fn():
                    return [np.array(u.generate_random_phases_matrix_for_first_m_modes(k, m), dtype=complex) for _ in range(calls)]

                for w, kind, ms in ex.executions_of(fn):
                    if kind == "exc":
                        return res.violate("%s: raised %r" % (what, ms))
                    z = []
                    for x in ms:
                        d = np.diag(x).copy()
                        if x.shape != (m, m) or np.max(np.abs(x - np.diag(d))) > TOL or np.max(np.abs(np.abs(d) - 1)) > TOL:
                            return res.violate("%s: not a matrix of phases" % what)
                        if np.max(np.abs(d[k:] - 1), initial=0) > TOL:
                            return res.violate("%s: acts on other modes" % what)
                        z += list(d[:k])
                    for a in itertools.product(range(-1 if k == 1 or top == 2 else -top, top + 1), repeat=len(z)):
                        if any(a):
                            mom[a] = mom.get(a, 0) + w * np.prod([x ** e for x, e in zip(z, a)])
            except EngineLimit as e:
                res.limits.append("%s: %s" % (what, e))
                return
            finally:
                res.add(ex)
            bad[g] = [a for a, v in mom.items() if abs(v) > 1e-9]
        common = set.intersection(*[set(b) for b in bad.values()])
        if common:
            res.violate("%s: phases are not independent and uniform (moment %s does not vanish)" % (what, sorted(common)[0]))
        return


def items(tier):
    deep = tier == "thorough"
    out = []
    for m in (2, 3, 4) if deep else (2, 3):
        for mat in LOSSY:
            out.append(dict(type="pairs", m=m, mat=mat))
    for m in (7, 8, 9, 10, 11, 12, 13, 16, 17, 20, 24, 25, 32, 33, 50, 64, 65):
        for mat in LOSSY:
            if m > 10 or not deep:
                out.append(dict(type="dil", m=m, mat=mat, mk="array"))
            if m <= (17 if deep else 9):
                out.append(dict(type="net", m=m, mat=mat, mk="array"))
    for m in range(1, 11 if deep else 7):
        for mat in LOSSY:
            for mk in ("array", "list", "tuple", "fortran", "ro"):
                out.append(dict(type="dil", m=m, mat=mat, mk=mk))
                if m <= 5:
                    out.append(dict(type="net", m=m, mat=mat, mk=mk))
        out.append(dict(type="qft", m=m, ks=list(range(m + 1))))
    for m in range(7, 17 if deep else 10):
        out.append(dict(type="qft", m=m, ks=list(range(m + 1))))
    out.append(dict(type="qft", m=32, ks=[0, 1, 2, 16, 31, 32]))
    out.append(dict(type="qft", m=100, ks=[0, 1, 50, 99, 100]))
    for m in range(1, 5):
        for k in range(0, m + 1):
            out.append(dict(type="phase", k=k, m=m, calls=1))
            if k <= 2:
                out.append(dict(type="phase", k=k, m=m, calls=2))
    out.append(dict(type="phase", k=1, m=1, calls=1, top=256))
    out.append(dict(type="phase", k=1, m=3, calls=1, top=64))
    out.append(dict(type="phase", k=2, m=2, calls=1, top=12 if deep else 8))
    out.append(dict(type="phase", k=2, m=3, calls=1, top=6))
    return out
