"""Planted bugs, second wave.  Specification for seed.py."""
import os, runpy

_b = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "bugs.py"))
PRE, SS, PC, UT, DC, QU = (_b[k] for k in ("PRE", "SS", "PC", "UT", "DC", "QU"))
BUGS = {}


def bug(id, prop, edits, demo, needs, breaks):
    assert id not in BUGS and id not in _b["BUGS"]
    BUGS[id] = dict(property=prop, edits=edits, demo=PRE + demo, needs=needs, breaks=breaks)


RYS = "from theboss.boson_sampling_utilities.permanent_calculators.ryser_permanent_calculator import RyserPermanentCalculator\n"

bug(
    "gcc-partial-layer-kept",
    "C22",
    [
        (
            SS + "generalized_cliffords_simulation_strategy.py",
            """        self.input_state = input_state
        self.number_of_input_photons = sum(input_state)
        self._get_sorted_possible_states()
        self.pmfs = dict()

        samples = []
""",
            """        experiment = (
            tuple(input_state),
            tuple(tuple(row) for row in self._bs_permanent_calculator.matrix),
        )
        self.input_state = input_state
        self.number_of_input_photons = sum(input_state)
        if experiment != self._prepared_experiment:
            self._get_sorted_possible_states()
            self.pmfs = dict()
            self._prepared_experiment = experiment

        samples = []
""",
        ),
        (
            SS + "generalized_cliffords_simulation_strategy.py",
            "        self.current_sample_probability: float = 1\n\n    def set_new_matrix",
            "        self.current_sample_probability: float = 1\n        self._prepared_experiment = None\n\n    def set_new_matrix",
        ),
        (
            SS + "generalized_cliffords_simulation_strategy.py",
            """        pmf = []

        for output in""",
            """        pmf = self.pmfs[self.current_key] = []

        for output in""",
        ),
        (
            SS + "generalized_cliffords_simulation_strategy.py",
            """                pmf[-1] += probability

        self.pmfs[self.current_key] = pmf
""",
            """                pmf[-1] += probability
""",
        ),
    ],
    RYS
    + """
from theboss.simulation_strategies.generalized_cliffords_simulation_strategy import GeneralizedCliffordsSimulationStrategy as S


class Flaky(RyserPermanentCalculator):
    fail = 0

    def compute_permanent(self):
        if self.fail:
            self.fail -= 1
            if not self.fail:
                raise MemoryError("no memory")
        return super().compute_permanent()


u = np.array([[1, 1], [1, -1]]) / np.sqrt(2)
c = Flaky(u, [1, 1], [1, 1])
st = S(c)
c.fail = 3
try:
    st.simulate([1, 1], 1)
except MemoryError:
    pass
seed()
p = freq(st.simulate([1, 1], 4000))
d = tvd(p, {t: prob(u, [1, 1], t) for t in states(2, 2)})
end(d < 0.05, d)
""",
    "a permanent computation that fails in the middle of a layer, and a later simulation of the same experiment on the same object",
    "the half-filled layer of probabilities is used by later simulations",
)

bug(
    "ubobs-failed-worker-skipped",
    "C22",
    [
        (
            SS + "lossy_state_approximated_simulation_strategy.py",
            """            samples_lists = p.map(
                self._simulate_in_parallel, number_of_samples_for_each_thread
            )

""",
            """            jobs = [
                p.submit(self._simulate_in_parallel, number)
                for number in number_of_samples_for_each_thread
            ]

        samples_lists = [job.result() for job in jobs if job.exception() is None]
        if not samples_lists:
            raise jobs[0].exception()

""",
        )
    ],
    RYS
    + """
import shutil, tempfile
from theboss.simulation_strategies.lossy_state_approximated_simulation_strategy import LossyStateApproximationSimulationStrategy as S


class Flaky(RyserPermanentCalculator):
    lock = None

    def compute_permanent(self):
        raise AssertionError

    def __deepcopy__(self, memo):
        if self.lock:
            try:
                os.mkdir(self.lock)
            except FileExistsError:
                pass
            else:
                raise MemoryError("no memory")
        return RyserPermanentCalculator(self.matrix, self.input_state, self.output_state)


if __name__ == "__main__":
    d = tempfile.mkdtemp()
    try:
        c = Flaky(haar(2, 3), [1, 1], [1, 1])
        st = S(c, 1.0, 2, 2)
        c.lock = os.path.join(d, "first")
        try:
            n = len(st.simulate([1, 1], 6))
        except MemoryError:
            n = 6
    finally:
        shutil.rmtree(d)
    end(n == 6, n)
""",
    "one of several workers fails while the others succeed",
    "fewer samples than requested are returned, without an error",
)

bug(
    "lossy-net-same-array-skipped",
    "C12",
    [
        (
            SS + "lossy_networks_generalized_cliffords_simulation_strategy.py",
            """    def set_new_matrix(self, matrix: Sequence[Sequence[complex128]]) -> None:
""",
            """    def set_new_matrix(self, matrix: Sequence[Sequence[complex128]]) -> None:
        if matrix is self._network_matrix:
            return  # No need for another decomposition.
        self._network_matrix = matrix
""",
        ),
        (
            SS + "lossy_networks_generalized_cliffords_simulation_strategy.py",
            """        bs_permanent_calculator.matrix = prepare_""",
            """        self._network_matrix = bs_permanent_calculator.matrix
        bs_permanent_calculator.matrix = prepare_""",
        ),
    ],
    RYS
    + """
from theboss.simulation_strategies.lossy_networks_generalized_cliffords_simulation_strategy import LossyNetworksGeneralizedCliffordsSimulationStrategy as S
a = np.eye(2)
st = S(RyserPermanentCalculator(a, [1, 0], [1, 0]))
a[:] = [[0, 1], [1, 0]]
st.set_new_matrix(a)
end(tuple(st.simulate([1, 0], 1)[0]) == (0, 1))
""",
    "the caller refills the same array with another network and sets it again",
    "the old network is simulated",
)

bug(
    "hermitian-networks-by-eigenvalues",
    "C15",
    [
        (
            UT,
            """    v_matrix, singular_values, u_matrix = svd(interferometer_matrix)

    extension""",
            """    matrix = array(interferometer_matrix)
    if allclose(matrix, matrix.conj().T):
        # Cheaper for the Hermitian matrices.
        eigenvalues, v_matrix = eigh(matrix)
        singular_values = abs(eigenvalues)
        u_matrix = v_matrix.conj().T
    else:
        v_matrix, singular_values, u_matrix = svd(interferometer_matrix)

    extension""",
        ),
        (UT, "from numpy.linalg import svd\n", "from numpy.linalg import eigh, svd\n"),
        (UT, "from numpy import (\n    ndarray,\n", "from numpy import (\n    allclose,\n    ndarray,\n"),
    ],
    """
from theboss.boson_sampling_utilities.boson_sampling_utilities import prepare_interferometer_matrix_in_expanded_space as f
a = np.array([[0.0, 0.6], [0.6, 0.0]])
end(np.allclose(f(a)[:2, :2], a))
""",
    "a Hermitian matrix with a negative eigenvalue, such as a mode swap",
    "the expanded matrix contains |A| instead of A",
)

bug(
    "bobs-empties-callers-array",
    "C13",
    [
        (
            SS + "nonuniform_losses_approximation_strategy.py",
            "        self._state_without_approximated_modes = list(input_state)\n",
            "        self._state_without_approximated_modes = asarray(input_state)\n",
        ),
        (
            SS + "nonuniform_losses_approximation_strategy.py",
            "from numpy import ",
            "from numpy import asarray, ",
        ),
    ],
    RYS
    + """
from theboss.simulation_strategies.nonuniform_losses_approximation_strategy import NonuniformLossesApproximationStrategy as S
if __name__ == "__main__":
    s = np.array([1, 1, 0])
    S(RyserPermanentCalculator(np.eye(3), s, s), 1, 1).simulate(s, 1)
    end(list(s) == [1, 1, 0], s)
""",
    "an input state given as an array, and at least one approximated mode",
    "the approximated modes of the caller's array are emptied",
)

bug(
    "ubobs-float-shares",
    "C11",
    [
        (
            SS + "lossy_state_approximated_simulation_strategy.py",
            """        distributed_values = []

        for v in range(bins):
            distributed_values.append(values_number // bins)

        for i in range(values_number % bins):
            distributed_values[i] += 1

        return distributed_values
""",
            """        share = values_number / bins
        bounds = [int(share * v) for v in range(bins + 1)]

        return [bounds[v + 1] - bounds[v] for v in range(bins)]
""",
        )
    ],
    RYS
    + """
from theboss.simulation_strategies.lossy_state_approximated_simulation_strategy import LossyStateApproximationSimulationStrategy as S
import theboss.simulation_strategies.lossy_state_approximated_simulation_strategy as M
if __name__ == "__main__":
    M.cpu_count = lambda: 8
    n = len(S(RyserPermanentCalculator(np.eye(2), [1, 0], [1, 0]), 1.0, 2, 7).simulate([1, 0], 61))
    end(n == 61, n)
""",
    "61 (or 115, ...) samples on 7 workers, where the share is rounded down",
    "one sample too few is returned",
)

bug(
    "fixed-loss-phases-once-per-call",
    "C11",
    [
        (
            SS + "fixed_loss_simulation_strategy.py",
            """        samples = []
        while len(samples) < samples_number:
            phi_0 = self._prepare_initial_state(input_state)
            evolved_state = self._network_simulation_strategy.simulate(
                input_state=phi_0
            )
            probabilities = self._calculate_probabilities(evolved_state)
            samples""",
            """        samples = []
        phi_0 = self._prepare_initial_state(input_state)
        evolved_state = self._network_simulation_strategy.simulate(input_state=phi_0)
        probabilities = self._calculate_probabilities(evolved_state)
        while len(samples) < samples_number:
            samples""",
        )
    ],
    """
from theboss.simulation_strategies.fixed_loss_simulation_strategy import FixedLossSimulationStrategy as S
u = np.array([[1, 1], [1, -1]]) / np.sqrt(2)
st = S(u, 1, 2)
seed()
same = 0
for _ in range(3000):
    a, b = st.simulate([1, 1], 2)
    same += tuple(a) == tuple(b)
end(abs(same / 3000 - 0.5) < 0.05, same / 3000)
""",
    "at least two samples in one call, on a network where the phases matter",
    "the samples of one call are correlated, while each of them alone has the right law",
)

bug(
    "estimate-remembered",
    "C16",
    [
        (
            DC + "bs_sample_based_distribution_calculator.py",
            """        samples = simulator.get_classical_simulation_results(
            self.configuration.initial_state, samples_number
        )
""",
            """        experiment = (tuple(self.configuration.initial_state), samples_number)
        if experiment != self._simulated_experiment:
            self._samples = simulator.get_classical_simulation_results(
                self.configuration.initial_state, samples_number
            )
            self._simulated_experiment = experiment
        samples = self._samples
""",
        ),
        (
            DC + "bs_sample_based_distribution_calculator.py",
            "        self._outcomes = outcomes\n        self._samples_number = samples_number\n",
            "        self._outcomes = outcomes\n        self._samples_number = samples_number\n        self._samples = []\n        self._simulated_experiment = None\n",
        ),
    ],
    """
from theboss.distribution_calculators.bs_sample_based_distribution_calculator import *


class Fixed:
    def __init__(self, s):
        self.s = s

    def simulate(self, input_state, samples_number=1):
        return [self.s] * samples_number


conf = BosonSamplingExperimentConfiguration(np.eye(2), [1, 0], 1, 2, 0, 1)
d = BSSampleBasedDistributionCalculator(conf, Fixed((1, 0)), 10, [(1, 0), (0, 1)])
d.calculate_distribution()
d.strategy = Fixed((0, 1))
end(list(d.calculate_distribution()) == [0, 1])
""",
    "a second estimate of the same input and sample number, e.g. after a change of the strategy",
    "the samples of the first estimate are used again",
)

bug(
    "factory-products-remembered",
    "C17",
    [
        (
            SS + "simulation_strategy_factory.py",
            """        handler = self._strategy_mapping.get(
            self._strategy_type, self._generate_fixed_losses_strategy
        )
        return handler()
""",
            """        handler = self._strategy_mapping.get(
            self._strategy_type, self._generate_fixed_losses_strategy
        )
        setup = (handler, self._experiment_configuration, self._bs_permanent_calculator)
        if self._last_product is None or any(
            a is not b for a, b in zip(setup[1:], self._last_product[0][1:])
        ) or setup[0] != self._last_product[0][0]:
            self._last_product = (setup, handler())
        return self._last_product[1]
""",
        ),
        (
            SS + "simulation_strategy_factory.py",
            "        self._available_threads_number = -1\n",
            "        self._available_threads_number = -1\n        self._last_product = None\n",
        ),
    ],
    RYS
    + """
from theboss.simulation_strategies.simulation_strategy_factory import *
u = np.eye(2)
conf = BosonSamplingExperimentConfiguration(u, [1, 0], 1, 2, 0, 1)
f = SimulationStrategyFactory(conf, RyserPermanentCalculator(u, [1, 0], [1, 0]), StrategyType.GCC)
a = f.generate_strategy()
b = f.generate_strategy()
a.set_new_matrix(np.array([[0, 1], [1, 0]]))
end(tuple(b.simulate([1, 0], 1)[0]) == (1, 0))
""",
    "two strategies generated with the same setup, one of them changed later (or a changed thread number)",
    "products are the same object: changing one changes the other",
)

bug(
    "zero-draw-survives-total-loss",
    "C19",
    [
        (
            SS + "generalized_cliffords_uniform_losses_simulation_strategy.py",
            "            if random() >= self._transmissivity:\n",
            "            if random() > self._transmissivity:\n",
        )
    ],
    RYS
    + """
import theboss.simulation_strategies.generalized_cliffords_uniform_losses_simulation_strategy as M
M.random = lambda: 0.0
st = M.GeneralizedCliffordsUniformLossesSimulationStrategy(RyserPermanentCalculator(np.eye(2), [1, 0], [1, 0]), 0.0)
end(sum(st.simulate([1, 0], 1)[0]) == 0)
""",
    "transmissivity 0 and a random draw of exactly 0",
    "a particle survives total losses",
)

bug(
    "ubobs-weights-by-particle-number",
    "C12",
    [
        (
            SS + "lossy_state_approximated_simulation_strategy.py",
            """        self._prepare_not_approximated_lossy_mixed_state_parts_weights()
""",
            """        parts = self._not_approximated_lossy_mixed_state_parts
        key = (len(parts), int(sum(parts[-1])))
        if key != self._weights_key:
            self._prepare_not_approximated_lossy_mixed_state_parts_weights()
            self._weights_key = key
""",
        ),
        (
            SS + "lossy_state_approximated_simulation_strategy.py",
            "        self._not_approximated_lossy_mixed_state_parts_weights = None\n",
            "        self._not_approximated_lossy_mixed_state_parts_weights = None\n        self._weights_key = None\n",
        ),
    ],
    RYS
    + """
from theboss.simulation_strategies.lossy_state_approximated_simulation_strategy import LossyStateApproximationSimulationStrategy as S
if __name__ == "__main__":
    s, t = [2, 1], [1, 2]
    st = S(RyserPermanentCalculator(np.eye(2), s, s), 0.7, 2, 1)
    st.simulate(s, 1)
    p = freq(st.simulate(t, 3000))
    # One particle in the second mode: 2 * 0.7 * 0.3 * 0.3
    end(abs(p.get((0, 1), 0) - 2 * 0.7 * 0.3 ** 2) < 0.03, p.get((0, 1), 0))
""",
    "two simulations of inputs with equally many particles and equally many lossy versions, such as (2,1) and (1,2)",
    "the second one uses the weights of the first",
)

bug(
    "chin-huh-negligible-sums",
    "C01",
    [
        (
            PC + "chin_huh_permanent_calculator.py",
            """            self._sums[i] -= (""",
            """            if abs(self._sums[i]) < 1e-9:
                self._sums[i] = complex128(0)  # Don't accumulate the rounding errors.
            self._sums[i] -= (""",
        )
    ],
    """
from theboss.boson_sampling_utilities.permanent_calculators.chin_huh_permanent_calculator import ChinHuhPermanentCalculator
a = haar(3, 1) * 1e-9
c = ChinHuhPermanentCalculator(a, [1, 1, 1], [1, 1, 1])
v = c.compute_permanent()
end(abs(v - perm(a)) < 1e-9 * abs(perm(a)), v)
""",
    "a network with very strong losses (amplitudes around 1e-9)",
    "small sums are taken for rounding errors; the permanent is wrong by orders of magnitude",
)

bug(
    "r-samples-strided",
    "C21",
    [
        (
            SS + "cliffords_r_simulation_strategy.py",
            "        samples_in_particle_states = array_split(python_result, samples_number)\n",
            "        samples_in_particle_states = [\n            python_result[i::samples_number] for i in range(samples_number)\n        ]\n",
        )
    ],
    """
import types
r = types.ModuleType("rpy2"); ro = types.ModuleType("rpy2.robjects"); pk = types.ModuleType("rpy2.robjects.packages")


class _R:
    @staticmethod
    def matrix(values, nrow, ncol):
        return values


ro.r = _R()
ro.ComplexVector = list
pk.importr = lambda name: types.SimpleNamespace(bosonSampler=lambda m, sampleSize, perm: ([1, 1, 2, 2], None, None))
r.robjects = ro; ro.packages = pk
sys.modules.update({"rpy2": r, "rpy2.robjects": ro, "rpy2.robjects.packages": pk})
from theboss.simulation_strategies.cliffords_r_simulation_strategy import CliffordsRSimulationStrategy
out = CliffordsRSimulationStrategy(np.eye(2)).simulate([1, 1], 2)
end([tuple(o) for o in out] == [(2, 0), (0, 2)], out)
""",
    "more than one sample and more than one particle",
    "the particles of different samples are mixed up",
)

bug(
    "bobs-averages-even-losses",
    "C07",
    [
        (
            SS + "nonuniform_losses_approximation_strategy.py",
            """        self._uniform_losses = min(losses)
""",
            """        # Singular values don't depend on the phases, take the average for stability.
        self._uniform_losses = min(losses) if max(losses) - min(losses) > 1e-3 else sum(
            losses
        ) / len(losses)
""",
        )
    ],
    RYS
    + """
from theboss.simulation_strategies.nonuniform_losses_approximation_strategy import NonuniformLossesApproximationStrategy as S
if __name__ == "__main__":
    a = np.diag([1.0, np.sqrt(1 - 9e-4)])
    out = S(RyserPermanentCalculator(a, [1, 0], [1, 0]), 0, 4).simulate([1, 0], 60000)
    lost = sum(1 for o in out if sum(o) == 0)
    end(lost == 0, lost)
""",
    "slightly uneven losses (differing by less than 1e-3)",
    "more losses are extracted than the best mode has; the rest of the network amplifies and is cut off",
)

bug(
    "tvd-dict-falsy-keys",
    "C20",
    [
        (
            QU,
            "    return 0.5 * sum([abs(distribution1[key] - distribution2[key]) for key in keys])\n",
            "    return 0.5 * sum(\n        [abs(distribution1[key] - distribution2[key]) for key in keys if any(key)]\n    )\n",
        )
    ],
    """
from theboss.quantum_computations_utilities import count_total_variation_distance_dicts as f
end(abs(f({(0, 0): 1.0}, {(1, 0): 1.0}) - 1) < 1e-12)
""",
    "distributions with the vacuum among the outcomes (losses)",
    "the vacuum is not counted",
)

bug(
    "accuracy-distribution-resumed",
    "C18",
    [
        (
            SS + "generalized_cliffords_uniform_losses_simulation_strategy.py",
            """                if array_equal(output, self._possible_outputs[i]):
""",
            """                if (
                    self.distribution[i] <= 0
                    and sum(output) == sum(self._possible_outputs[i])
                    and array_equal(output[:-1], self._possible_outputs[i][:-1])
                ):
""",
        ),
        (
            SS + "generalized_cliffords_uniform_losses_simulation_strategy.py",
            """        self._initialize_simulation(input_state)

        while not isclose(
            max(accuracy - self._get""",
            """        if list(input_state) != list(self.input_state) or not self.distribution:
            self._initialize_simulation(input_state)

        while not isclose(
            max(accuracy - self._get""",
        ),
    ],
    RYS
    + """
from theboss.simulation_strategies.generalized_cliffords_uniform_losses_simulation_strategy import GeneralizedCliffordsUniformLossesSimulationStrategy as S
u, v = haar(2, 1), haar(2, 2)
st = S(RyserPermanentCalculator(u, [1, 1], [1, 1]), 0.6)
st.compute_distribution_up_to_accuracy([1, 1], 1.0)
st.set_new_matrix(v)
got = st.compute_distribution_up_to_accuracy([1, 1], 1.0)
want = S(RyserPermanentCalculator(v, [1, 1], [1, 1]), 0.6).compute_distribution_up_to_accuracy([1, 1], 1.0)
end(np.allclose(got, want))
""",
    "two accuracy-bounded distributions of the same input on one object with a matrix change in between",
    "the distribution of the old matrix is returned",
)

bug(
    "gccb-pmf-memo-ignores-phases",
    "C12",
    [
        (
            SS + "generalized_cliffords_b_simulation_strategy.py",
            """            self._update_current_input()
            self._compute_pmf()
            self._sample_from_pmf()
""",
            """            self._update_current_input()
            key = (tuple(self._current_input), tuple(self.r_sample))
            if key not in self._known_pmfs:
                self._compute_pmf()
                self._known_pmfs[key] = self.pmf
            self.pmf = self._known_pmfs[key]
            self._sample_from_pmf()
""",
        ),
        (
            SS + "generalized_cliffords_b_simulation_strategy.py",
            """        self.input_state: Sequence[int] = input_state
        self.number_of_input_photons: int = sum(input_state)

""",
            """        self.input_state: Sequence[int] = input_state
        self.number_of_input_photons: int = sum(input_state)

        # Probabilities found earlier are good as long as the network is the same.
        network = abs(asarray(self._bs_permanent_calculator.matrix))
        if not array_equal(network, self._known_network):
            self._known_pmfs = dict()
            self._known_network = network

""",
        ),
        (
            SS + "generalized_cliffords_b_simulation_strategy.py",
            """        self._current_input = []
        self._working_input_state = None
""",
            """        self._current_input = []
        self._working_input_state = None
        self._known_pmfs = dict()
        self._known_network = None
""",
        ),
        (
            SS + "generalized_cliffords_b_simulation_strategy.py",
            "from numpy import ",
            "from numpy import array_equal, asarray, ",
        ),
    ],
    RYS
    + """
from theboss.simulation_strategies.generalized_cliffords_b_simulation_strategy import GeneralizedCliffordsBSimulationStrategy as S
ok = True
seed()
o = np.array([[1, 1, 1, 1], [1, 1, -1, -1], [1, -1, -1, 1], [1, -1, 1, -1]]) / 2
q = np.array([[1, 1, 1, 1], [1, 1j, -1, -1j], [1, -1, 1, -1], [1, -1j, -1, 1j]]) / 2
st = S(RyserPermanentCalculator(o, [1, 1, 0, 0], [1, 1, 0, 0]))
st.simulate([1, 1, 0, 0], 3000)
st.set_new_matrix(q)
a = freq(st.simulate([1, 1, 0, 0], 6000))
d = tvd(a, {t: prob(q, [1, 1, 0, 0], t) for t in states(2, 4)})
end(ok and d < 0.06, d)
""",
    "a new matrix with the same transmission probabilities but other interference (phases), after a simulation of the same particles",
    "probabilities of the old matrix are used",
)

bug(
    "state-types-losses-memo",
    "C14",
    [
        (
            UT,
            """    if losses:
        for i in range(particles_number):
            all_partitions += list(_partitions(i))

    state_types = []
""",
            """    if losses:
        # Grow the list of the partitions of smaller numbers when it's needed.
        while len(_smaller_partitions) < particles_number:
            _smaller_partitions.append(list(_partitions(len(_smaller_partitions))))
        for partitions in _smaller_partitions:
            all_partitions += partitions

    state_types = []
""",
        ),
        (UT, "def generate_state_types(\n", "_smaller_partitions = []\n\n\ndef generate_state_types(\n"),
    ],
    """
from theboss.boson_sampling_utilities.boson_sampling_utilities import generate_state_types
a = generate_state_types(3, 4, losses=True)
b = generate_state_types(3, 2, losses=True)
end(len(b) == 4, b)
""",
    "lossy state types of few particles asked for after those of more particles",
    "types with more particles than asked for are returned",
)
