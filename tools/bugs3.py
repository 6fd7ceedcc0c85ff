"""Planted bugs, third wave.  Specification for seed.py."""
import os, runpy

_d = os.path.dirname(os.path.abspath(__file__))
_b = runpy.run_path(os.path.join(_d, "bugs.py"))
_b2 = runpy.run_path(os.path.join(_d, "bugs2.py"))
PRE, SS, PC, UT, DC, QU = (_b[k] for k in ("PRE", "SS", "PC", "UT", "DC", "QU"))
RYS = _b2["RYS"]
BUGS = {}


def bug(id, prop, edits, demo, needs, breaks):
    assert id not in BUGS and id not in _b["BUGS"] and id not in _b2["BUGS"]
    BUGS[id] = dict(property=prop, edits=edits, demo=PRE + demo, needs=needs, breaks=breaks)


GB = "from theboss.simulation_strategies.generalized_cliffords_b_simulation_strategy import GeneralizedCliffordsBSimulationStrategy as S\n"

bug(
    "gccb-one-order-per-call",
    "C11",
    [
        (
            SS + "generalized_cliffords_b_simulation_strategy.py",
            "        particle_input_state = list(mode_occupation_to_mode_assignment(input_state))\n",
            "        particle_input_state = list(\n            permutation(mode_occupation_to_mode_assignment(input_state)).astype(int)\n        )\n",
        ),
        (
            SS + "generalized_cliffords_b_simulation_strategy.py",
            "            self._working_input_state.pop(randint(0, len(self._working_input_state)))\n",
            "            self._working_input_state.pop()\n",
        ),
        (
            SS + "generalized_cliffords_b_simulation_strategy.py",
            "from numpy.random import choice, randint\n",
            "from numpy.random import choice, permutation\n",
        ),
    ],
    RYS + GB + """
seed()
c, s = np.sqrt(0.9), np.sqrt(0.1)
u = np.array([[c, s], [s, -c]])
st = S(RyserPermanentCalculator(u, [1, 1], [1, 1]))
both = sum(1 for _ in range(4000) if [tuple(x) for x in st.simulate([1, 1], 2)] == [(2, 0), (2, 0)])
end(abs(both / 4000 - 0.18 ** 2) < 0.012, both / 4000)
""",
    "at least two samples in one call",
    "the particles are put in random order once per call: each sample has the right law, but they are correlated",
)

bug(
    "uniform-loss-rounded-weights",
    "C10",
    [
        (
            SS + "uniform_loss_simulation_strategy.py",
            "        samples: List[Tuple[int, ...]] = []\n",
            """        # Rounding noise in the weights makes numpy's choice complain.
        separable_states_weights = [round(w, 3) for w in separable_states_weights]
        total_weight = sum(separable_states_weights)
        separable_states_weights = [w / total_weight for w in separable_states_weights]

        samples: List[Tuple[int, ...]] = []
""",
        )
    ],
    """
from theboss.simulation_strategies.uniform_loss_simulation_strategy import UniformLossSimulationStrategy as S
seed()
out = S(np.eye(2), 2, 0.02).simulate([1, 1], 20000)
two = sum(1 for o in out if sum(o) == 2)
out = S(np.eye(2), 2, 0.9997).simulate([1, 0], 30000)
none = sum(1 for o in out if sum(o) == 0)
end(two > 0 and none > 0, (two, none))
""",
    "improbable particle numbers",
    "particle numbers of probability below 0.0005 never occur, others are distorted",
)

bug(
    "r-modes-int8",
    "C21",
    [
        (
            SS + "cliffords_r_simulation_strategy.py",
            """        python_result = array([mode_value - 1 for mode_value in result], dtype=int64)
        samples_in""",
            """        python_result = array(result, dtype=int64).astype("int8") - 1
        samples_in""",
        )
    ],
    """
import types
r = types.ModuleType("rpy2"); ro = types.ModuleType("rpy2.robjects"); pk = types.ModuleType("rpy2.robjects.packages")


class _R:
    @staticmethod
    def matrix(values, nrow, ncol):
        return values


ro.r = _R()
ro.ComplexVector = list
pk.importr = lambda name: types.SimpleNamespace(bosonSampler=lambda m, sampleSize, perm: ([1, 130, 200, 129], None, None))
r.robjects = ro; ro.packages = pk
sys.modules.update({"rpy2": r, "rpy2.robjects": ro, "rpy2.robjects.packages": pk})
from theboss.simulation_strategies.cliffords_r_simulation_strategy import CliffordsRSimulationStrategy
out = CliffordsRSimulationStrategy(np.eye(200)).simulate([1, 1] + [0] * 198, 2)
got = [tuple(i for i, x in enumerate(o) for _ in range(x)) for o in out]
end(got == [(0, 129), (128, 199)], got)
""",
    "more than 128 modes",
    "modes beyond the 128th wrap around",
)

bug(
    "fixed-losses-counts-outcomes-first",
    "C03",
    [
        (
            DC + "bs_distribution_calculator_with_fixed_losses.py",
            "        outcomes_probabilities = [\n",
            """        # Nothing to do for the outcomes that cannot occur.
        left = self.configuration.number_of_particles_left
        if not any(sum(outcome) == left for outcome in outcomes):
            return [0.0 for _ in outcomes]

        outcomes_probabilities = [
""",
        )
    ],
    RYS + """
from theboss.distribution_calculators.bs_distribution_calculator_with_fixed_losses import BSDistributionCalculatorWithFixedLosses as D
from theboss.distribution_calculators.bs_distribution_calculator_interface import BosonSamplingExperimentConfiguration as C
u = haar(2, 3)
c = C(u, [1, 1], 2, 2, 0, 2)
d = D(c, RyserPermanentCalculator(u, [1, 1], [1, 1]))
o = d.get_outcomes_in_proper_order()
end(len(d.calculate_probabilities_of_outcomes(iter(o))) == 3 and len(d.calculate_probabilities_of_outcomes(x for x in o)) == 3)
""",
    "outcomes given as an iterator (the interface says Iterable)",
    "the first outcomes are consumed by the test, so probabilities are missing and misaligned",
)

bug(
    "gccb-skips-small-amplitudes",
    "C05",
    [
        (
            SS + "generalized_cliffords_b_simulation_strategy.py",
            "            for i in range(len(self._current_input)):\n",
            """            for i in range(len(self._current_input)):
                # Most of the modes don't contribute.
                if abs(self._bs_permanent_calculator.matrix[m][i]) ** 2 < 1e-4:
                    continue
""",
        )
    ],
    RYS + GB + """
import theboss.simulation_strategies.generalized_cliffords_b_simulation_strategy as M
t = 0.0099
u = np.array([[t, np.sqrt(1 - t * t)], [np.sqrt(1 - t * t), -t]])
seed()
worst = 0
st = S(RyserPermanentCalculator(u, [1, 0], [1, 0]))
out = freq(st.simulate([1, 0], 60000))
out2 = freq(st.simulate([9, 0], 4000))
end(out.get((1, 0), 0) > 0 and out2.get((1, 8), 0) > 0, (out, out2))
""",
    "entries of the interferometer below 0.01",
    "their contributions are left out of the law",
)

bug(
    "ubobs-kept-modes-equally-likely",
    "C09",
    [
        (
            SS + "lossy_state_approximated_simulation_strategy.py",
            "            self._not_approximated_lossy_mixed_state_parts_weights.append(weight)\n",
            """            self._not_approximated_lossy_mixed_state_parts_weights.append(weight)

        # All the ways of losing the same number of particles are equally likely.
        for number_of_particles in range(int(n) + 1):
            same = [
                i
                for i, part in enumerate(self._not_approximated_lossy_mixed_state_parts)
                if sum(part) == number_of_particles
            ]
            for i in same:
                self._not_approximated_lossy_mixed_state_parts_weights[
                    i
                ] = possible_weights[number_of_particles] / len(same)
""",
        )
    ],
    RYS + """
from theboss.simulation_strategies.lossy_state_approximated_simulation_strategy import LossyStateApproximationSimulationStrategy as S
if __name__ == "__main__":
    out = S(RyserPermanentCalculator(np.eye(2), [2, 1], [2, 1]), 0.5, 2, 2).simulate([2, 1], 6000)
    f = freq(out)
    end(abs(f.get((1, 0), 0) - 0.25) < 0.03 and abs(f.get((0, 1), 0) - 0.125) < 0.03, f)
""",
    "a bunched mode among the modes that are not approximated, and losses",
    "the multiplicities of the lossy inputs are ignored",
)

bug(
    "partitions-memo-key",
    "C14",
    [
        (
            UT,
            """    if k > n or n == 0 or k < 1:
        return 0
""",
            """    if k > n or n == 0 or k < 1:
        return 0

    if 100 * k + n in _known_partitions_numbers:
        return _known_partitions_numbers[100 * k + n]
""",
        ),
        (
            UT,
            """        k - 1, n - 1
    )

    return integer_partitions_number
""",
            """        k - 1, n - 1
    )
    _known_partitions_numbers[100 * k + n] = integer_partitions_number

    return integer_partitions_number


_known_partitions_numbers = {}
""",
        ),
    ],
    """
from theboss.boson_sampling_utilities.boson_sampling_utilities import compute_number_of_k_element_integer_partitions_of_n as p
p(2, 103), p(3, 103), p(3, 120)
end(p(2, 103) == 51 and p(3, 3) == 1 and p(3, 103) == 884, (p(2, 103), p(3, 3), p(3, 103)))
""",
    "at least 100 particles",
    "the numbers of different partitions are mixed up",
)

bug(
    "estimate-in-batches",
    "C16",
    [
        (
            DC + "bs_sample_based_distribution_calculator.py",
            """        samples = simulator.get_classical_simulation_results(
            self.configuration.initial_state, samples_number
        )
""",
            """        samples = []
        batch = min(samples_number, 500)  # Keep the memory usage low.
        while len(samples) + batch <= samples_number and batch > 0:
            samples.extend(
                simulator.get_classical_simulation_results(
                    self.configuration.initial_state, batch
                )
            )
""",
        )
    ],
    """
from theboss.distribution_calculators.bs_sample_based_distribution_calculator import BSSampleBasedDistributionCalculator as D
from theboss.distribution_calculators.bs_distribution_calculator_interface import BosonSamplingExperimentConfiguration as C


class St:
    def simulate(self, input_state, samples_number=1):
        return [(1, 0)] * samples_number


d = D(C(np.eye(2), [1, 0], 1, 2, 0, 1), St(), 700)
got = d.calculate_distribution()
end(abs(sum(got) - 1) < 1e-12, got)
""",
    "more than 500 samples, not a multiple of 500",
    "the last samples are not drawn, so the frequencies are too small",
)

bug(
    "factory-zero-transmissivity",
    "C17",
    [
        (
            SS + "simulation_strategy_factory.py",
            """            self._experiment_configuration.number_of_modes,
            self._experiment_configuration.uniform_transmissivity,
        )""",
            """            self._experiment_configuration.number_of_modes,
            self._experiment_configuration.uniform_transmissivity or 1.0,
        )""",
        )
    ],
    RYS + """
from theboss.simulation_strategies.simulation_strategy_factory import SimulationStrategyFactory as F, StrategyType as T
from theboss.distribution_calculators.bs_distribution_calculator_interface import BosonSamplingExperimentConfiguration as C
c = C(np.eye(2), [1, 0], 1, 2, 0, 1, uniform_transmissivity=0)
out = F(c, RyserPermanentCalculator(np.eye(2), [1, 0], [1, 0]), T.UNIFORM_LOSS).generate_strategy().simulate([1, 0], 10)
end(all(sum(o) == 0 for o in out), out)
""",
    "a transmissivity of 0",
    "the configured total loss is taken for not configured",
)

bug(
    "permanent-remembered-by-identity",
    "C01",
    [
        (
            PC + "bs_permanent_calculator_base.py",
            """        if not self._can_calculation_be_performed():
            raise AttributeError

        self._initialize_permanent_computation()
""",
            """        if not self._can_calculation_be_performed():
            raise AttributeError

        experiment = (
            id(self._matrix),
            tuple(self._input_state),
            tuple(self._output_state),
        )
        if experiment == self._last_experiment:
            return self.permanent
        self._last_experiment = experiment

        self._initialize_permanent_computation()
""",
        ),
        (
            PC + "bs_permanent_calculator_base.py",
            "        self._binomials_product: int = 1\n        self._multiplier: int = 1\n",
            "        self._binomials_product: int = 1\n        self._last_experiment = None\n        self._multiplier: int = 1\n",
        ),
    ],
    RYS + """
a = haar(2, 1)
c = RyserPermanentCalculator(a, [1, 1], [1, 1])
c.compute_permanent()
a[:] = haar(2, 2)
end(abs(c.compute_permanent() - perm(haar(2, 2))) < 1e-9)
""",
    "the matrix object is overwritten in place between two computations of the same experiment",
    "the permanent of the old matrix is returned",
)

bug(
    "submatrices-single-mode-phases",
    "C02",
    [
        (
            PC + "bs_submatrices_permanent_calculator_base.py",
            "        self._initialize_permanents_computation()\n\n        while",
            """        if max(self.input_state) == sum(self.input_state) > 3:
            # All the columns are equal.
            permanent = complex128(1)
            for k in range(1, int(sum(self.input_state))):
                permanent *= k
            i = nonzero(self.input_state)[0][0]
            for j in nonzero(self.output_state)[0]:
                permanent *= abs(self._matrix[j][i]) ** self.output_state[j]
            return [
                permanent if mode == i else complex128(0)
                for mode in range(len(self.input_state))
            ]

        self._initialize_permanents_computation()

        while""",
        )
    ],
    """
from theboss.boson_sampling_utilities.permanent_calculators.bs_cc_ryser_submatrices_permanent_calculator import BSCCRyserSubmatricesPermanentCalculator as C
u = haar(3, 1)
p = C(u, [0, 4, 0], [1, 0, 2]).compute_permanents()
end(abs(p[1] - perm(scat(u, [0, 3, 0], [1, 0, 2]))) < 1e-9, p)
""",
    "at least four particles, all in one mode",
    "the phase of the permanent is lost (the probabilities stay right)",
)
