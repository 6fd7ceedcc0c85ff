"""Planted bugs.  Specification for seed.py."""

SS = "theboss/simulation_strategies/"
PC = "theboss/boson_sampling_utilities/permanent_calculators/"
UT = "theboss/boson_sampling_utilities/boson_sampling_utilities.py"
DC = "theboss/distribution_calculators/"
QU = "theboss/quantum_computations_utilities.py"

PRE = '''
import os, sys
sys.path.insert(0, os.getcwd())
import itertools, math, random
import numpy as np


def perm(a):
    n = len(a)
    return sum(np.prod([a[i][p[i]] for i in range(n)]) for p in itertools.permutations(range(n))) if n else 1


def scat(u, s, t):
    u = np.asarray(u, dtype=complex)
    rows = [i for i, x in enumerate(t) for _ in range(x)]
    cols = [j for j, x in enumerate(s) for _ in range(x)]
    return u[np.ix_(rows, cols)]


def prob(u, s, t):
    d = 1.0
    for x in list(s) + list(t):
        d *= math.factorial(x)
    return abs(perm(scat(u, s, t))) ** 2 / d


def states(n, m):
    if m == 1:
        return [(n,)]
    return [(k,) + r for k in range(n, -1, -1) for r in states(n - k, m - 1)]


def haar(m, seed=0):
    r = np.random.RandomState(seed)
    q, rr = np.linalg.qr(r.standard_normal((m, m)) + 1j * r.standard_normal((m, m)))
    return q * (np.diag(rr) / abs(np.diag(rr)))


def freq(samples):
    out = {}
    for s in samples:
        k = tuple(int(x) for x in s)
        out[k] = out.get(k, 0) + 1.0 / len(samples)
    return out


def tvd(p, q):
    return 0.5 * sum(abs(p.get(k, 0) - q.get(k, 0)) for k in set(p) | set(q))


def seed(n=1):
    random.seed(n)
    np.random.seed(n)


def end(ok, msg=""):
    print("OK" if ok else "BROKEN", msg)
    sys.exit(0 if ok else 1)
'''

BUGS = {}


def bug(id, prop, edits, demo, needs, breaks):
    assert id not in BUGS
    BUGS[id] = dict(property=prop, edits=edits, demo=PRE + demo, needs=needs, breaks=breaks)


bug(
    "glynn-stale-scattering-matrix",
    "C01",
    [
        (
            PC + "glynn_gray_permanent_calculator.py",
            """        self._scattering_matrix = EffectiveScatteringMatrixCalculator(
            self.matrix, self.input_state, self.output_state
        ).calculate()
""",
            """        states = (tuple(self.input_state), tuple(self.output_state))
        if states != self._prepared_states:
            self._scattering_matrix = EffectiveScatteringMatrixCalculator(
                self.matrix, self.input_state, self.output_state
            ).calculate()
            self._prepared_states = states
""",
        ),
        (
            PC + "glynn_gray_permanent_calculator.py",
            "        self._scattering_matrix: ndarray\n",
            "        self._scattering_matrix: ndarray\n        self._prepared_states = None\n",
        ),
    ],
    """
from theboss.boson_sampling_utilities.permanent_calculators.glynn_gray_permanent_calculator import GlynnGrayPermanentCalculator
a, b = haar(3, 1), haar(3, 2)
c = GlynnGrayPermanentCalculator(a, [1, 1, 1], [1, 1, 1])
c.compute_permanent()
c.matrix = b
end(abs(c.compute_permanent() - perm(b)) < 1e-9)
""",
    "the same calculator computes a permanent, gets another matrix and computes again for the same pair of states",
    "Glynn's calculator answers for the previous matrix",
)

bug(
    "guan-early-exit",
    "C01",
    [
        (
            PC + "ryser_permanent_calculator.py",
            """        for j in self._sums:
            self._sums[j] += (
""",
            """        for j in self._sums:
            if abs(self._matrix[j][self._index_to_update]) < 1e-7:
                continue  # Nothing to add.
            self._sums[j] += (
""",
        )
    ],
    """
from theboss.boson_sampling_utilities.permanent_calculators.ryser_permanent_calculator import RyserPermanentCalculator
a = np.array([[1e-8, 1.0], [0.0, 1.0]]) * 1.0
c = RyserPermanentCalculator(a, [1, 1], [1, 1])
v = c.compute_permanent()
end(abs(v - 1e-8) < 1e-15, v)
""",
    "a matrix with entries below 1e-7, e.g. almost transparent connections",
    "Ryser's calculator treats small matrix entries as zeros, so the permanent of a matrix with such entries is 0",
)

bug(
    "ryser-submatrices-stale-outputs",
    "C02",
    [
        (
            PC + "bs_submatrices_permanent_calculator_base.py",
            """        self._sums = dict()
        self._multiplier = pow(-1, sum(self.output_state))
        self._considered_columns_indices = nonzero(self._output_state)[0]
""",
            """        self._sums = dict()
        self._multiplier = pow(-1, sum(self.output_state))
        if len(self._considered_columns_indices) == 0:
            self._considered_columns_indices = nonzero(self._output_state)[0]
""",
        ),
        (
            PC + "bs_cc_ch_submatrices_permanent_calculator.py",
            "        self._considered_columns_indices = array(0)\n",
            "        self._considered_columns_indices = array([], dtype=int)\n",
        ),
    ],
    """
from theboss.boson_sampling_utilities.permanent_calculators.bs_cc_ryser_submatrices_permanent_calculator import BSCCRyserSubmatricesPermanentCalculator as R
u = haar(3, 4)
c = R(u, [1, 1, 1], [2, 0, 0])
c.compute_permanents()
c.output_state = [0, 1, 1]
got = c.compute_permanents()
want = [perm(scat(u, s, [0, 1, 1])) for s in ([0, 1, 1], [1, 0, 1], [1, 1, 0])]
end(np.allclose(got, want))
""",
    "one calculator object, computing for an output and then for another output with other occupied modes",
    "submatrix permanents of the second output use the occupied modes of the first",
)

bug(
    "fixed-losses-shallow-configuration",
    "C03",
    [
        (DC + "bs_distribution_calculator_with_fixed_losses.py", "from copy import deepcopy\n", "from copy import copy\n"),
        (
            DC + "bs_distribution_calculator_with_fixed_losses.py",
            "        self.configuration = deepcopy(configuration)\n",
            "        self.configuration = copy(configuration)\n",
        ),
    ],
    """
from theboss.distribution_calculators.bs_distribution_calculator_with_fixed_losses import *
from theboss.boson_sampling_utilities.permanent_calculators.ryser_permanent_calculator import RyserPermanentCalculator
u = haar(3, 1)
conf = BosonSamplingExperimentConfiguration(u.copy(), [1, 1, 0], 2, 3, 1, 1)
d = BSDistributionCalculatorWithFixedLosses(conf, RyserPermanentCalculator(u.copy(), [1, 1, 0], [1, 1, 0]))
before = d.calculate_distribution()
conf.interferometer_matrix[:] = np.eye(3)
end(np.allclose(before, d.calculate_distribution()))
""",
    "the caller edits the interferometer array of the configuration in place after building the calculator",
    "the distribution of an existing calculator changes with the caller's array",
)

bug(
    "uniform-losses-sorted-work",
    "C04",
    [
        (
            DC + "bs_exact_distribution_with_uniform_losses.py",
            """            outcomes_probabilities = pool.map(
                self._calculate_probability_of_outcome, outcomes
            )
""",
            """            # Keep the expensive outcomes for the end.
            outcomes_probabilities = pool.map(
                self._calculate_probability_of_outcome, sorted(outcomes, key=sum)
            )
""",
        )
    ],
    """
from theboss.distribution_calculators.bs_exact_distribution_with_uniform_losses import *
from theboss.boson_sampling_utilities.permanent_calculators.classic_permanent_calculator import ClassicPermanentCalculator
if __name__ == "__main__":
    u = haar(6, 1)
    s = [1] * 6
    conf = BosonSamplingExperimentConfiguration(u, s, 6, 6, 0, 6, uniform_transmissivity=0.5)
    d = BSDistributionCalculatorWithUniformLosses(conf, ClassicPermanentCalculator(u, s, s))
    p = d.calculate_probabilities_of_outcomes([[1] * 6, [0] * 6])
    end(abs(p[1] - 0.5 ** 6) < 1e-9, p)
""",
    "outcomes asked for in an order that is not by particle number",
    "the probabilities come in the order of the work, not in the order of the outcomes",
)

bug(
    "weightless-not-reversible",
    "C04",
    [
        (
            DC + "bs_exact_distribution_with_uniform_losses.py",
            """        if not weightless:
            self.weights = self._initialize_weights()
        else:
            self.weights = [1 for _ in self.weights]
""",
            """        if weightless:
            self._stored_weights = self.weights
            self.weights = [1 for _ in self.weights]
        elif self.weightless:
            self.weights = self._stored_weights
""",
        )
    ],
    """
from theboss.distribution_calculators.bs_exact_distribution_with_uniform_losses import *
from theboss.boson_sampling_utilities.permanent_calculators.ryser_permanent_calculator import RyserPermanentCalculator
if __name__ == "__main__":
    u = haar(2, 1)
    conf = BosonSamplingExperimentConfiguration(u, [1, 1], 2, 2, 0, 2, uniform_transmissivity=0.5)
    d = BSDistributionCalculatorWithUniformLosses(conf, RyserPermanentCalculator(u, [1, 1], [1, 1]))
    before = d.calculate_distribution()
    d.set_weightless(True)
    d.set_weightless(True)
    d.set_weightless(False)
    end(np.allclose(before, d.calculate_distribution()))
""",
    "the switch set on twice and then off",
    "the weights are lost: the calculator stays unweighted",
)

bug(
    "mode-assignment-key-forgets-multiplicity",
    "C05",
    [
        (
            SS + "mode_assignment_generalized_cliffords_simulation_strategy.py",
            """            if self.current_key not in self.pmfs:
                self._calculate_new_layer_of_pmfs()
            self._sample_from_latest_pmf()
""",
            """            # The order of the particles doesn't matter.
            self.current_key = (len(self.r_sample),) + tuple(sorted(set(self.r_sample)))
            if self.current_key not in self.pmfs:
                self._calculate_new_layer_of_pmfs()
            self._sample_from_latest_pmf()
""",
        )
    ],
    """
from theboss.simulation_strategies.mode_assignment_generalized_cliffords_simulation_strategy import ModeAssignmentGeneralizedCliffordsSimulationStrategyInterface as S
from theboss.boson_sampling_utilities.permanent_calculators.ryser_permanent_calculator import RyserPermanentCalculator
c, z = np.cos(0.4), np.sin(0.4)
u = np.array([[c, z], [-z, c]])
s = [3, 1]
seed()
p = freq(S(RyserPermanentCalculator(u, s, s)).simulate(s, 20000))
d = tvd(p, {t: prob(u, s, t) for t in states(4, 2)})
end(d < 0.03, d)
""",
    "at least four particles and two or more samples in one call: partial samples like (0,0,1) and (0,1,1) share a cache entry",
    "the sampled law",
)

bug(
    "gccb-losses-count-modes",
    "C06",
    [
        (
            SS + "generalized_cliffords_b_uniform_losses_simulation_strategy.py",
            "        n = self.number_of_input_photons\n",
            "        n = sum(1 for occupation in self.input_state if occupation)\n",
        )
    ],
    """
from theboss.simulation_strategies.generalized_cliffords_b_uniform_losses_simulation_strategy import GeneralizedCliffordsBUniformLossesSimulationStrategy as S
from theboss.boson_sampling_utilities.permanent_calculators.ryser_permanent_calculator import RyserPermanentCalculator
u = haar(2, 3)
seed()
out = S(RyserPermanentCalculator(u, [2, 0], [2, 0]), 0.9).simulate([2, 0], 300)
end(any(sum(o) == 2 for o in out))
""",
    "a bunched input",
    "with k particles in a mode no more than one survivor per mode is ever sampled",
)

bug(
    "bobs-ignores-small-losses",
    "C07",
    [
        (
            SS + "nonuniform_losses_approximation_strategy.py",
            "        if isclose(self._uniform_losses, 0):\n",
            "        if isclose(self._uniform_losses, 0, atol=1e-2):\n",
        )
    ],
    """
from theboss.simulation_strategies.nonuniform_losses_approximation_strategy import NonuniformLossesApproximationStrategy as S
from theboss.boson_sampling_utilities.permanent_calculators.ryser_permanent_calculator import RyserPermanentCalculator
if __name__ == "__main__":
    u = np.sqrt(0.992) * np.eye(2)
    s = S(RyserPermanentCalculator(u, [4, 4], [4, 4]), 0, 4)
    out = s.simulate([4, 4], 400)
    lost = sum(8 - sum(o) for o in out)
    end(lost > 0, lost)
""",
    "uniform losses of less than a percent",
    "small losses are ignored: no particle is ever lost",
)

bug(
    "bobs-phases-before-qft",
    "C08",
    [
        (
            SS + "nonuniform_losses_approximation_strategy.py",
            "        return self._initial_matrix @ random_phases_matrix @ qft_matrix\n",
            "        return self._initial_matrix @ qft_matrix @ random_phases_matrix\n",
        )
    ],
    """
from theboss.simulation_strategies.nonuniform_losses_approximation_strategy import NonuniformLossesApproximationStrategy as S
from theboss.boson_sampling_utilities.permanent_calculators.ryser_permanent_calculator import RyserPermanentCalculator
if __name__ == "__main__":
    u = np.array([[1, 1], [1, -1]]) / np.sqrt(2)
    out = S(RyserPermanentCalculator(u, [1, 1], [1, 1]), 2, 4).simulate([1, 1], 400)
    p = freq(out)
    # Coherent phases: the two particles always meet.  Random ones: 1/4 of the time they don't.
    end(p.get((1, 1), 0) > 0.1, p)
""",
    "an interferometer that is sensitive to the relative phases of the approximated modes",
    "the random phases become a global phase, so the approximated modes stay coherent",
)

bug(
    "ubobs-approximated-part-maximum",
    "C09",
    [
        (
            SS + "lossy_state_approximated_simulation_strategy.py",
            "            int(sum(approximated_input_state_part)) + 1\n",
            "            len([n for n in approximated_input_state_part if n]) + 1\n",
        )
    ],
    """
from theboss.simulation_strategies.lossy_state_approximated_simulation_strategy import LossyStateApproximationSimulationStrategy as S
from theboss.boson_sampling_utilities.permanent_calculators.ryser_permanent_calculator import RyserPermanentCalculator
if __name__ == "__main__":
    u = haar(3, 1)
    out = S(RyserPermanentCalculator(u, [1, 2, 0], [1, 2, 0]), 1.0, 1, 2).simulate([1, 2, 0], 40)
    end(all(sum(o) == 3 for o in out), out[:3])
""",
    "bunched particles in the approximated part of the input",
    "all but one of the particles of each approximated mode disappear",
)

bug(
    "fixed-loss-common-phase",
    "C10",
    [
        (
            SS + "fixed_loss_simulation_strategy.py",
            "        return exp(1j * 2 * pi * rand(len(state_in_modes_basis))) * state_in_modes_basis\n",
            "        return exp(1j * 2 * pi * rand()) * state_in_modes_basis\n",
        )
    ],
    """
from theboss.simulation_strategies.fixed_loss_simulation_strategy import FixedLossSimulationStrategy as S
u = np.array([[1, 1], [1, -1]]) / np.sqrt(2)
seed()
p = freq(S(u, 1, 2).simulate([1, 1], 400))
end(p.get((0, 1), 0) > 0.3, p)
""",
    "two or more particles and a phase sensitive interferometer",
    "every mode gets the same random phase",
)

bug(
    "gccb-losses-leftover-particles",
    "C11",
    [
        (
            SS + "generalized_cliffords_b_uniform_losses_simulation_strategy.py",
            "            self._working_input_state = particle_input_state.copy()\n",
            """            if len(self._working_input_state or []) < self._number_of_particles_in_sample:
                self._working_input_state = particle_input_state.copy()
""",
        )
    ],
    """
from theboss.simulation_strategies.generalized_cliffords_b_uniform_losses_simulation_strategy import GeneralizedCliffordsBUniformLossesSimulationStrategy as S
from theboss.boson_sampling_utilities.permanent_calculators.ryser_permanent_calculator import RyserPermanentCalculator
seed()
pairs = {}
for _ in range(1500):
    a, b = S(RyserPermanentCalculator(np.eye(2), [1, 1], [1, 1]), 0.5).simulate([1, 1], 2)
    k = (tuple(a), tuple(b))
    pairs[k] = pairs.get(k, 0) + 1
same = pairs.get(((1, 0), (1, 0)), 0) + pairs.get(((0, 1), (0, 1)), 0)
end(same > 100, same)
""",
    "losses and more than one sample per call",
    "particles not used in a sample are used up in the next one, so consecutive samples are correlated",
)

bug(
    "ubobs-fork",
    "C11",
    [
        (
            SS + "lossy_state_approximated_simulation_strategy.py",
            """        multiprocessing_context = multiprocessing.get_context("spawn")
""",
            """        multiprocessing_context = multiprocessing.get_context()
""",
        )
    ],
    """
from theboss.simulation_strategies.lossy_state_approximated_simulation_strategy import LossyStateApproximationSimulationStrategy as S
from theboss.boson_sampling_utilities.permanent_calculators.ryser_permanent_calculator import RyserPermanentCalculator
if __name__ == "__main__":
    u = haar(6, 1)
    s = [1, 1, 1, 0, 0, 0]
    same = 0
    for _ in range(5):
        out = S(RyserPermanentCalculator(u, s, s), 1.0, 6, 4).simulate(s, 4)
        same += len(set(tuple(int(v) for v in o) for o in out)) < 4 and len(set(tuple(int(v) for v in o) for o in out)) <= 2
    end(same < 3, same)
""",
    "several worker processes under the fork start method",
    "forked workers inherit the same generator state and return identical samples",
)

bug(
    "bobs-phases-once-per-thread",
    "C11",
    [
        (
            SS + "nonuniform_losses_approximation_strategy.py",
            """            approximate_sampling_matrix = self._get_matrix_for_approximate_sampling()

            helper_strategy.set_new_matrix(approximate_sampling_matrix)
            samples.append""",
            """            samples.append""",
        ),
        (
            SS + "nonuniform_losses_approximation_strategy.py",
            """        for _ in range(samples_number):
            approximate_state = deepcopy""",
            """        helper_strategy.set_new_matrix(self._get_matrix_for_approximate_sampling())

        for _ in range(samples_number):
            approximate_state = deepcopy""",
        ),
    ],
    """
from theboss.simulation_strategies.nonuniform_losses_approximation_strategy import NonuniformLossesApproximationStrategy as S
from theboss.boson_sampling_utilities.permanent_calculators.ryser_permanent_calculator import RyserPermanentCalculator
if __name__ == "__main__":
    np.random.seed(3)
    u = np.array([[1, 1], [1, -1]]) / np.sqrt(2)
    dev = []
    for i in range(12):
        st = S(RyserPermanentCalculator(u, [2, 0], [2, 0]), 2, 1)
        out = st.simulate([2, 0], 300)
        dev.append(abs(sum(o[0] == 1 for o in out) / 300.0 - 0.25))
    end(max(dev) < 0.14, dev)
""",
    "more than one sample per worker and approximated modes",
    "all samples of a worker share their random phases, so they are not independent",
)

bug(
    "gcc-pmfs-survive-matrix-change",
    "C12",
    [
        (
            SS + "generalized_cliffords_simulation_strategy.py",
            """        self.input_state = input_state
        self.number_of_input_photons = sum(input_state)
        self._get_sorted_possible_states()
        self.pmfs = dict()
""",
            """        if list(self.input_state) != list(input_state):
            self.input_state = copy(input_state)
            self.number_of_input_photons = sum(input_state)
            self._get_sorted_possible_states()
            self.pmfs = dict()
""",
        )
    ],
    """
from theboss.simulation_strategies.generalized_cliffords_simulation_strategy import GeneralizedCliffordsSimulationStrategy as S
from theboss.boson_sampling_utilities.permanent_calculators.ryser_permanent_calculator import RyserPermanentCalculator
s = S(RyserPermanentCalculator(np.eye(2), [1, 0], [1, 0]))
s.simulate([1, 0], 2)
s.set_new_matrix(np.array([[0, 1], [1, 0]]))
out = s.simulate([1, 0], 1)
end(tuple(out[0]) == (0, 1), out)
""",
    "a simulation, a new matrix, and another simulation of the same input",
    "the second simulation samples the old interferometer",
)

bug(
    "states-memo-shared",
    "C13",
    [
        (
            UT,
            """    states = []
    starting_number_of_particles = particles_number
""",
            """    key = (particles_number, modes_number, losses)
    if key in _generated_states:
        return _generated_states[key]

    states = _generated_states[key] = []
    starting_number_of_particles = particles_number
""",
        ),
        (
            UT,
            """def generate_possible_states(
    particles_number""",
            """_generated_states = dict()


def generate_possible_states(
    particles_number""",
        ),
    ],
    """
from theboss.boson_sampling_utilities.boson_sampling_utilities import generate_possible_states
a = generate_possible_states(2, 2)
a.pop()
end(len(generate_possible_states(2, 2)) == 3)
""",
    "a caller that edits the returned list and a later call with the same arguments",
    "the memoised list is handed out, so later calls return the edited one",
)

bug(
    "lossy-inputs-digit-hash",
    "C14",
    [
        (
            UT,
            "        lossy_input_hash = hash(tuple(lossy_input))\n",
            '        lossy_input_hash = "".join(str(number) for number in lossy_input)\n',
        )
    ],
    """
from theboss.boson_sampling_utilities.boson_sampling_utilities import generate_lossy_n_particle_input_states
got = generate_lossy_n_particle_input_states([11, 11], 12)
end(sorted(got) == [(i, 12 - i) for i in range(1, 12)], len(got))
""",
    "modes with ten or more particles, e.g. (1, 11) and (11, 1)",
    "lossy inputs with the same digits are taken for duplicates and dropped",
)

bug(
    "dilation-drops-small-losses",
    "C15",
    [
        (
            UT,
            "        if losses_vector[i] < 0:\n",
            "        if losses_vector[i] < 1e-3:\n",
        )
    ],
    """
from theboss.boson_sampling_utilities.boson_sampling_utilities import prepare_interferometer_matrix_in_expanded_space
u = np.diag([np.sqrt(1 - 5e-4), 0.5])
e = prepare_interferometer_matrix_in_expanded_space(u)
end(np.allclose(e @ e.conj().T, np.eye(4), atol=1e-6))
""",
    "a mode with losses between 0 and 0.1 percent",
    "the expanded matrix is not unitary",
)

bug(
    "estimate-normalised-by-matches",
    "C16",
    [
        (
            DC + "bs_sample_based_distribution_calculator.py",
            "        outcomes_probabilities = outcomes_probabilities / samples_number\n",
            "        outcomes_probabilities = outcomes_probabilities / max(sum(outcomes_probabilities), 1)\n",
        )
    ],
    """
from theboss.distribution_calculators.bs_sample_based_distribution_calculator import *


class Fixed:
    def simulate(self, state, n=1):
        return [(1, 0), (0, 1), (1, 0), (0, 0)][:n]


c = BosonSamplingExperimentConfiguration(np.eye(2), [1, 0], 1, 2, 0, 1)
d = BSSampleBasedDistributionCalculator(c, Fixed(), 4, [(1, 0)])
end(abs(d.calculate_distribution()[0] - 0.5) < 1e-9)
""",
    "samples outside the list of outcomes of interest",
    "frequencies are conditional on the sample being of interest",
)

bug(
    "factory-shared-calculator",
    "C17",
    [
        (
            SS + "simulation_strategy_factory.py",
            """        return GeneralizedCliffordsSimulationStrategy(
            deepcopy(self.bs_permanent_calculator)
        )
""",
            """        return GeneralizedCliffordsSimulationStrategy(self.bs_permanent_calculator)
""",
        )
    ],
    """
from theboss.simulation_strategies.simulation_strategy_factory import *
from theboss.boson_sampling_utilities.permanent_calculators.ryser_permanent_calculator import RyserPermanentCalculator
c = BosonSamplingExperimentConfiguration(np.eye(2), [1, 0], 1, 2, 0, 1)
f = SimulationStrategyFactory(c, RyserPermanentCalculator(np.eye(2), [1, 0], [1, 0]), StrategyType.GCC)
a, b = f.generate_strategy(), f.generate_strategy()
b.set_new_matrix(np.array([[0, 1], [1, 0]]))
end(tuple(a.simulate([1, 0])[0]) == (1, 0))
""",
    "two strategies from one factory, one of them given a new matrix",
    "the other strategy changes its matrix too",
)

bug(
    "accuracy-distribution-stale-pmfs",
    "C18",
    [
        (
            SS + "generalized_cliffords_uniform_losses_simulation_strategy.py",
            """        self._get_sorted_possible_states()
        self.pmfs = dict()
""",
            """        self._get_sorted_possible_states()
        if len(samples_key) != len(self._pmfs_key) or samples_key != self._pmfs_key:
            self.pmfs = dict()
        self._pmfs_key = samples_key
""",
        ),
        (
            SS + "generalized_cliffords_uniform_losses_simulation_strategy.py",
            """        self.input_state = input_state
        self.number_of_input_photons = sum(input_state)
""",
            """        samples_key = tuple(input_state) + tuple(map(tuple, self._bs_permanent_calculator.matrix))
        self.input_state = input_state
        self.number_of_input_photons = sum(input_state)
""",
        ),
        (
            SS + "generalized_cliffords_uniform_losses_simulation_strategy.py",
            "        self._possible_outputs = []\n",
            "        self._possible_outputs = []\n        self._pmfs_key = ()\n",
        ),
    ],
    """
import signal
from theboss.simulation_strategies.generalized_cliffords_uniform_losses_simulation_strategy import GeneralizedCliffordsUniformLossesSimulationStrategy as S
from theboss.boson_sampling_utilities.permanent_calculators.ryser_permanent_calculator import RyserPermanentCalculator
signal.signal(signal.SIGALRM, lambda *a: end(False, "never reaches the accuracy"))
u = haar(2, 1)
s = S(RyserPermanentCalculator(u, [1, 1], [1, 1]), 0.5)
s.simulate([1, 1], 200)
signal.alarm(20)
d = s.compute_distribution_up_to_accuracy([1, 1], 0.99)
end(sum(d) > 0.98)
""",
    "a simulation of the same input on the same object before the distribution is asked for",
    "the cached probability mass functions are never turned into probabilities again: the call doesn't end",
)

bug(
    "gcc-zero-draw-takes-impossible-mode",
    "C19",
    [
        (
            SS + "generalized_cliffords_simulation_strategy.py",
            "            if current_probability > random_value:\n",
            "            if current_probability >= random_value:\n",
        )
    ],
    """
import theboss.simulation_strategies.generalized_cliffords_simulation_strategy as g
from theboss.boson_sampling_utilities.permanent_calculators.ryser_permanent_calculator import RyserPermanentCalculator
g.random = lambda *a: 0.0
u = np.array([[0, 1], [1, 0]])
out = g.GeneralizedCliffordsSimulationStrategy(RyserPermanentCalculator(u, [1, 0], [1, 0])).simulate([1, 0])
end(tuple(out[0]) == (0, 1), out)
""",
    "the generator delivering exactly 0.0 while the first mode has probability 0",
    "an outcome of probability 0 is sampled",
)

bug(
    "tvd-dict-second-keys",
    "C20",
    [
        (
            QU,
            "    keys.update(distribution_2.keys())\n",
            "    if not keys:\n        keys.update(distribution_2.keys())\n",
        )
    ],
    """
from theboss.quantum_computations_utilities import count_total_variation_distance_dicts as f
end(abs(f({(1, 0): 1.0}, {(1, 0): 0.5, (0, 1): 0.5}) - 0.5) < 1e-12)
""",
    "outcomes present only in the second distribution",
    "their probability is ignored and the distance is too small and not symmetric",
)

bug(
    "r-matrix-not-transposed",
    "C21",
    [
        (
            SS + "cliffords_r_simulation_strategy.py",
            "            [val for val in numpy_array.transpose().reshape(numpy_array.size)]\n",
            "            [val for val in numpy_array.reshape(numpy_array.size)]\n",
        )
    ],
    """
import types
calls = []


def sampler(mtx, sampleSize=1, perm=False):
    calls.append(mtx)
    return [1] * (sampleSize * mtx["ncol"]), None, None


rob = types.ModuleType("rpy2.robjects")
rob.ComplexVector = list
rob.r = types.SimpleNamespace(matrix=lambda v, nrow, ncol: dict(v=list(v), nrow=nrow, ncol=ncol))
pk = types.ModuleType("rpy2.robjects.packages")
pk.importr = lambda n: types.SimpleNamespace(bosonSampler=sampler)
pk.isinstalled = lambda n: True
rob.packages = pk
top = types.ModuleType("rpy2")
top.robjects = rob
sys.modules.update({"rpy2": top, "rpy2.robjects": rob, "rpy2.robjects.packages": pk})
from theboss.simulation_strategies.cliffords_r_simulation_strategy import CliffordsRSimulationStrategy as S
ok = True
for s in ([1, 1, 0], [1, 0, 1]):
    for u in (haar(3, 1), np.asfortranarray(haar(3, 2))):
        S(u).simulate(s, 1)
        c = calls[-1]
        got = np.array(c["v"]).reshape((c["ncol"], c["nrow"])).T
        ok = ok and np.allclose(got, u[:, [i for i, x in enumerate(s) if x]])
end(ok)
""",
    "matrices whose memory layout is not column-major once the occupied columns are taken",
    "R gets the entries row by row: another matrix",
)
