"""Generates properties.jsonl (kept so the wording stays reviewable)."""
import json, os
B = "theboss/boson_sampling_utilities/boson_sampling_utilities.py"
PC = "theboss/boson_sampling_utilities/permanent_calculators/"
DC = "theboss/distribution_calculators/"
SS = "theboss/simulation_strategies/"
NS = "theboss/network_simulation_strategy/"
Q = "theboss/quantum_computations_utilities.py"

def P(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    return dict(id=id, title=title, statement=statement,
                quantifier=dict(over=over, text=text), why_tests_cant=why,
                anchors=dict(files=files,
                             state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                             mechanism=[dict(name=a, where=b) for a, b in mechanism],
                             observe_at=list(observe), hook_needed=hook))

props = [
P("C01", "Every permanent calculator returns the true permanent",
  "For every square complex matrix and every pair of input and output occupations with equally many particles, each permanent calculator (classic, Glynn, Chin-Huh, Ryser) returns the permanent of the effective scattering matrix (column j repeated once per input particle in mode j, row i repeated once per output particle in mode i; 1 for the vacuum). "
  "The value depends only on the matrix, input and output set last, not on earlier computations on the same calculator, nor on whether they are given as lists, tuples or arrays.",
  ["inputs", "histories"],
  "all matrices over a small alphabet plus generic ones, all (input, output) pairs up to m modes and n particles, all set/compute histories of a calculator up to a bound",
  "Tests compare the four calculators with one another on nine hand-picked occupation pairs of one random 4x4 matrix, always set up in the same order; a bug shared by all, a bunching pattern, an odd size or a stale-state bug on reuse is out of reach.",
  [PC + f for f in ("bs_permanent_calculator_base.py", "ryser_permanent_calculator.py", "chin_huh_permanent_calculator.py", "glynn_gray_permanent_calculator.py", "classic_permanent_calculator.py")] + [B],
  [("Guan/Gray code iteration with incrementally updated sums, binomial product and sign", PC + "bs_permanent_calculator_base.py"), ("re-initialisation at the start of each computation", PC + "bs_permanent_calculator_base.py"), ("effective scattering matrix construction", B)],
  [("sums / binomial product / multiplier / code vector", "incremental accumulators of the iteration", PC + "bs_permanent_calculator_base.py")],
  ["compute_permanent()", "EffectiveScatteringMatrixCalculator.calculate()"]),
P("C02", "Submatrix permanents agree with removing one input particle at a time",
  "For every matrix, input occupation s (at least one particle) and output occupation t with one particle fewer, both submatrix-permanent calculators return a list whose i-th entry is the permanent for input s with one particle removed from mode i, and 0 when mode i is empty. "
  "This holds for any earlier use of the same calculator object.",
  ["inputs", "histories"],
  "all (s, t) pairs up to m modes and n particles, alphabet and generic matrices, all reuse histories up to a bound",
  "Tests compare only absolute values, for three inputs in four modes and one output each; relative phases (which the sampler sums) and reuse are never checked.",
  [PC + f for f in ("bs_submatrices_permanent_calculator_base.py", "bs_cc_ryser_submatrices_permanent_calculator.py", "bs_cc_ch_submatrices_permanent_calculator.py")],
  [("shared Guan iteration with per-submatrix binomial correction", PC + "bs_cc_ryser_submatrices_permanent_calculator.py")],
  (), ["compute_permanents()"]),
P("C03", "The fixed-loss exact distribution is the physical output law",
  "For every interferometer, initial state and number of particles left, the fixed-loss distribution calculator assigns each outcome the probability of the boson sampling law after losing exactly that many particles uniformly at random; over all outcomes these are non-negative, sum to 1 for a unitary, and stand in the order the calculator reports. "
  "The results are the same for every permanent calculator, for repeated and partial queries, and whatever is later done to the configuration object the calculator was built from.",
  ["inputs", "histories", "configurations"],
  "all initial states and losses up to (m, n), all permanent calculators, several interferometers, query histories up to a bound",
  "Tests check that the distribution sums to 1 for two inputs and equality for one permutation matrix; wrong individual probabilities that still sum to 1 pass.",
  [DC + "bs_distribution_calculator_with_fixed_losses.py", B],
  [("symmetrisation over lossy inputs with multiplicities and factorial normalisation", DC + "bs_distribution_calculator_with_fixed_losses.py"), ("deep copy of the configuration", DC + "bs_distribution_calculator_with_fixed_losses.py")],
  (), ["calculate_distribution()", "calculate_probabilities_of_outcomes()", "get_outcomes_in_proper_order()"]),
P("C04", "The uniform-loss exact distribution is the binomial mixture, in any pool",
  "For every interferometer, initial state and transmissivity, the uniform-loss distribution calculator gives each outcome with l particles the fixed-l law weighted by the binomial probability of keeping l of n particles (unweighted while the weightless switch is on; the switch is fully reversible), in the order of the outcomes asked for or reported. "
  "This holds for every number of processors, every distribution of the work over the worker processes and every completion order.",
  ["inputs", "schedules", "configurations", "histories"],
  "all initial states up to (m, n), transmissivities incl. 0 and 1, CPU counts, task-to-worker assignments and completion orders, toggle/query histories up to a bound",
  "Tests run one real pool schedule on one machine and check sums for two inputs and one permutation matrix with collision-free input.",
  [DC + "bs_exact_distribution_with_uniform_losses.py", DC + "bs_distribution_calculator_with_fixed_losses.py"],
  [("binomial weights and per-outcome sub-calculators", DC + "bs_exact_distribution_with_uniform_losses.py"), ("order-preserving process pool map", DC + "bs_exact_distribution_with_uniform_losses.py")],
  [("weights", "binomial weights or ones", DC + "bs_exact_distribution_with_uniform_losses.py")],
  ["calculate_distribution()", "set_weightless()"], None),
P("C05", "Lossless exact samplers sample the exact boson sampling law",
  "For every unitary interferometer and every input occupation (empty, bunched or with gaps), the generalized Clifford & Clifford samplers (version A, the mode-assignment version and version B) return samples whose probability law is exactly |perm|^2 / (prod s! prod t!) over all m-mode outcomes t with the particle number of the input, whichever permanent calculator they are built on.",
  ["inputs", "configurations"],
  "all random choices of the sampler (every random outcome with its exact probability), all inputs up to (m, n), several unitaries incl. ones with zero-probability outcomes",
  "Tests compare 1000 samples with the law through a total-variation bound of about 0.3 and mostly use one permutation matrix; small or rare distortions of the law cannot be seen by sampling.",
  [SS + f for f in ("generalized_cliffords_simulation_strategy.py", "mode_assignment_generalized_cliffords_simulation_strategy.py", "generalized_cliffords_b_simulation_strategy.py")] + [B],
  [("chain rule over partial outputs with symmetrised sub-inputs", SS + "generalized_cliffords_simulation_strategy.py"), ("random particle order plus Laplace-expanded permanents", SS + "generalized_cliffords_b_simulation_strategy.py")],
  [("pmfs", "cached per-prefix mass functions", SS + "generalized_cliffords_simulation_strategy.py")],
  ["simulate()"]),
P("C06", "Uniform-loss exact samplers sample the uniformly lossy law",
  "For every unitary, input occupation and transmissivity in [0, 1], both uniform-loss Clifford & Clifford samplers return samples following the exact uniformly lossy law: the number of surviving particles is binomial, and given that number the sample follows the law of the input with uniformly random particles removed.",
  ["inputs", "configurations"],
  "all random choices with exact probabilities, all inputs up to (m, n), transmissivities incl. 0 and 1",
  "Version B has no test at all; version A is tested with 1000 samples, a permutation matrix and one transmissivity through a loose bound.",
  [SS + "generalized_cliffords_uniform_losses_simulation_strategy.py", SS + "generalized_cliffords_b_uniform_losses_simulation_strategy.py"],
  [("per-particle loss draw before each sampling step", SS + "generalized_cliffords_uniform_losses_simulation_strategy.py"), ("binomial survivor count then version B on a random subset", SS + "generalized_cliffords_b_uniform_losses_simulation_strategy.py")],
  (), ["simulate()"]),
P("C07", "Lossy-network samplers sample the exact law of a non-uniformly lossy network",
  "For every sub-unitary interferometer matrix (uniform, mode-dependent or total losses, lossless included) and every input occupation, the lossy-network sampler, and the general BOBS sampler when no mode is approximated, return m-mode samples whose law is that of the network with lost particles traced out, also after a new matrix is set.",
  ["inputs", "configurations"],
  "all random choices with exact probabilities, all inputs up to (m, n), several lossy and lossless matrices",
  "Tests compare about 1000 samples with a block-diagonal or uniformly lossy case through a tolerance of 0.1 or more.",
  [SS + "lossy_networks_generalized_cliffords_simulation_strategy.py", SS + "nonuniform_losses_approximation_strategy.py", B],
  [("2m x 2m expansion of the interferometer and trimming of samples", SS + "lossy_networks_generalized_cliffords_simulation_strategy.py"), ("extraction of the uniform part of the losses to the input", SS + "nonuniform_losses_approximation_strategy.py")],
  (), ["simulate()", "set_new_matrix()"]),
P("C08", "General BOBS with approximated modes samples its defining mixed state",
  "With the first k modes approximated, the general BOBS sampler follows exactly the law of this experiment: all particles of the first k modes are put in one uniformly chosen approximated mode and smeared over the k modes by a Fourier transform with independent uniformly random phases, the remaining particles stay in their modes, and everything passes the given lossy network with its losses. "
  "In particular the law of the number of surviving particles is that of a uniformly lossy network when the losses are uniform, and k outside [0, m] behaves like the nearest bound.",
  ["inputs", "configurations"],
  "all random choices with exact probabilities (phases by an exact finite quadrature), all inputs up to (m, n), all k, several networks",
  "Tests only bound the total variation distance from the exact law by about 0.4 or more, which almost any sampler meets.",
  [SS + "nonuniform_losses_approximation_strategy.py", B],
  [("bunching and symmetrisation of the approximated modes", SS + "nonuniform_losses_approximation_strategy.py"), ("per-sample random phases and Fourier matrix", SS + "nonuniform_losses_approximation_strategy.py")],
  [("particles in approximated modes", "number bunched into one mode", SS + "nonuniform_losses_approximation_strategy.py")],
  ["simulate()"]),
P("C09", "Uniform-loss BOBS is exact at full hierarchy level and smears only the rest",
  "For every unitary, input occupation, transmissivity and hierarchy level 0 <= k <= m, the uniform-loss BOBS sampler keeps the particles of the first k modes in their modes, replaces those of the remaining m - k modes by as many particles in one common random-phase equal superposition of the remaining modes, loses every particle independently with the given transmissivity, and samples the interferometer's exact law of that state. "
  "At level k = m this is the exact uniformly lossy law.",
  ["inputs", "configurations"],
  "all random choices with exact probabilities (phases by an exact finite quadrature), all inputs up to (m, n), all levels k, several transmissivities",
  "This strategy has no tests at all.",
  [SS + "lossy_state_approximated_simulation_strategy.py", B],
  [("lossy mixed-state preparation for exact and approximated parts", SS + "lossy_state_approximated_simulation_strategy.py"), ("per-sample phases, Fourier matrix and column order", SS + "lossy_state_approximated_simulation_strategy.py")],
  (), ["simulate()"]),
P("C10", "The fully approximate samplers follow the mean-field law",
  "For every interferometer (lossy or not) and every collision-free input of n particles in the first n of m modes, the fixed-loss sampler distributes exactly l particles independently over the modes according to one common random-phase equal superposition of the first n modes sent through the network, a particle being lost exactly with the network's loss probability. "
  "The uniform-loss sampler draws l from the binomial law and does the same.",
  ["inputs", "configurations"],
  "all random choices with exact probabilities (phases by an exact finite quadrature), all (n, l, m) up to a bound, transmissivities incl. 0 and 1, both network models",
  "Tests bound a distance of around 0.5 from the exact law on 1000 samples.",
  [SS + "fixed_loss_simulation_strategy.py", SS + "uniform_loss_simulation_strategy.py", NS + "lossy_network_simulation_strategy.py", NS + "lossless_network_simulation_strategy.py"],
  [("random-phase superposition and per-photon inverse-CDF draw", SS + "fixed_loss_simulation_strategy.py"), ("binomial number of survivors", SS + "uniform_loss_simulation_strategy.py")],
  (), ["simulate()"]),
P("C11", "A call for N samples returns exactly N mutually independent samples",
  "For every strategy, every N >= 0, every requested thread number and every processor count, simulate(state, N) returns exactly N samples, and their joint law is the product of N copies of the single-sample law. "
  "This must hold for every assignment of work to worker processes and every completion order; in particular no two workers may produce their samples from the same random stream.",
  ["schedules", "configurations", "inputs"],
  "all random choices with exact probabilities for N up to 3, all assignments of tasks to workers, process start methods as the code requests them, thread numbers and CPU counts up to a bound",
  "Tests only look at marginal frequencies, so duplicated or correlated samples and a surplus or shortage of samples go unnoticed.",
  [SS + f for f in ("nonuniform_losses_approximation_strategy.py", "lossy_state_approximated_simulation_strategy.py", "generalized_cliffords_simulation_strategy.py", "generalized_cliffords_b_simulation_strategy.py", "fixed_loss_simulation_strategy.py", "uniform_loss_simulation_strategy.py")] + ["theboss/boson_sampling_simulator.py"],
  [("spawned (not forked) worker processes", SS + "lossy_state_approximated_simulation_strategy.py"), ("division of the samples over the threads", SS + "nonuniform_losses_approximation_strategy.py"), ("re-initialisation of the sampling state for each sample", SS + "generalized_cliffords_simulation_strategy.py")],
  (), ["simulate()", "BosonSamplingSimulator.get_classical_simulation_results()"]),
P("C12", "Samplers have no memory: earlier calls never change later laws",
  "On one strategy object, after any sequence of simulations (of any inputs and sample counts, whatever samples they returned) and matrix changes, the next simulation follows exactly the law of a freshly built strategy with the current matrix and the given input.",
  ["histories"],
  "all operation sequences up to a bounded length over two inputs and two matrices, combined with all random choices; the law of the last call is checked conditionally on every earlier outcome",
  "Every test builds a new strategy and calls simulate once or for one input; state carried between calls (cached mass functions, accumulated counters) is never observed.",
  [SS + f for f in ("generalized_cliffords_simulation_strategy.py", "generalized_cliffords_b_simulation_strategy.py", "generalized_cliffords_uniform_losses_simulation_strategy.py", "nonuniform_losses_approximation_strategy.py", "lossy_state_approximated_simulation_strategy.py", "lossy_networks_generalized_cliffords_simulation_strategy.py")],
  [("reset of cached mass functions and per-call state in simulate", SS + "generalized_cliffords_simulation_strategy.py")],
  [("pmfs / possible outputs / particle counters", "per-call caches", SS + "generalized_cliffords_simulation_strategy.py")],
  ["simulate()", "set_new_matrix()"]),
P("C13", "No call modifies what the caller passed in or what it returned earlier",
  "Simulating, computing permanents or distributions, expanding matrices and generating states never modifies the caller's input states, matrices, configurations or outcome lists, and works on read-only ones; overwriting returned samples, probabilities, permanents, states or matrices never changes what later calls return. "
  "Strategies produced by the factory leave the factory's and the caller's permanent calculator unchanged.",
  ["inputs", "histories"],
  "every public operation x every container kind of its arguments x all random choices on small configurations",
  "No test looks at its arguments after the call.",
  [SS + "lossy_networks_generalized_cliffords_simulation_strategy.py", SS + "simulation_strategy_factory.py", DC + "bs_distribution_calculator_with_fixed_losses.py", B],
  [("copies of states, configurations and calculators", SS + "simulation_strategy_factory.py")],
  (), ["arguments and results of all public operations"]),
P("C14", "Fock-space enumeration and counting are complete, exact and consistent",
  "For every particle and mode number the generators of (lossy) states, of lossy inputs with a given number of survivors and of state types return every such object exactly once, in the documented form, and the counting functions return exactly the number of these objects as far as integers go. "
  "Conversion between mode occupation and mode assignment loses nothing in either direction.",
  ["inputs"],
  "all (n, m) and all occupations up to a bound for generators, larger bounds for counting functions",
  "Tests check one (n, m) pair, and of some generators only the number of results.",
  [B],
  [("successor rule, partitions and stars-and-bars formulas", B)],
  (), ["generate_possible_states()", "generate_lossy_n_particle_input_states()", "generate_state_types()", "bosonic_space_dimension()", "compute_number_of_*()", "mode_*_to_mode_*()"]),
P("C15", "Interferometer expansion is a unitary dilation and networks act linearly",
  "Every matrix with singular values in [0, 1] is expanded to a unitary matrix of twice the size whose upper left block is that matrix; the lossy and lossless network models send every mode amplitude vector to matrix times vector, and the transmissivities read off a matrix are its squared singular values. "
  "The Fourier and random-phase matrices on the first k of m modes are unitary, act only there, and have exactly the discrete Fourier entries respectively independent uniformly distributed phases.",
  ["inputs"],
  "all products of small-alphabet orthogonal/unitary factors with all singular value tuples from an alphabet incl. 0 and 1, all (k, m), all basis and superposition vectors over an alphabet",
  "The tests of the expansion compare with a method object ('.all' without a call) and therefore always pass.",
  [B, NS + "lossy_network_simulation_strategy.py", NS + "lossless_network_simulation_strategy.py", Q],
  [("SVD based block construction", B), ("trimming after evolution", NS + "lossy_network_simulation_strategy.py")],
  (), ["prepare_interferometer_matrix_in_expanded_space()", "simulate() of network strategies", "compute_qft_matrix()"]),
P("C16", "Estimated distributions are the relative frequencies of the drawn samples",
  "The sample-based distribution calculator asks its strategy for exactly the configured number of samples of the configured input and returns, in the order of the outcomes it was given or reports, the fraction of samples equal to each outcome. "
  "Its answers depend only on the samples of that call, and follow changes of its strategy, configuration, outcomes and sample number. The simulator front end it uses asks the strategy exactly what it is asked and returns its samples unchanged.",
  ["inputs", "histories", "configurations"],
  "all sample sequences up to a bounded length over all outcomes (also unlisted ones) delivered by a scripted strategy, all setter/query histories up to a bound",
  "Tests use it only as a tool and with one explicit sample number.",
  [DC + "bs_sample_based_distribution_calculator.py", "theboss/boson_sampling_simulator.py"],
  [("counting loop over samples and outcomes", DC + "bs_sample_based_distribution_calculator.py")],
  (), ["calculate_distribution()", "calculate_probabilities_of_outcomes()", "calculate_approximate_distribution()", "get_outcomes_in_proper_order()", "get_classical_simulation_results()"]),
P("C17", "Factories build what is currently configured, and their products are isolated",
  "After any sequence of changes of type, configuration, calculator and thread number, the strategy factory yields a sampler following the law its strategy type names for the current configuration and using at most the configured number of worker processes, and the permanent-calculator factory a calculator of the current type over the current matrix and states. "
  "Later changes to the factory, to the calculator it was given or to other products do not affect a strategy already produced.",
  ["histories", "configurations"],
  "all setter/generate sequences up to a bounded length for every strategy and calculator type, law of the product decided over all random choices",
  "Tests generate a strategy right after construction and look at sample frequencies only.",
  [SS + "simulation_strategy_factory.py", PC + "bs_permanent_calculator_factory.py"],
  [("type-to-handler mapping and deep copies", SS + "simulation_strategy_factory.py")],
  (), ["generate_strategy()", "generate_calculator()"]),
P("C18", "Distributions computed up to an accuracy are exact where filled",
  "The uniform-loss Clifford sampler's accuracy-bounded distribution (weighted and unweighted) contains for every possible outcome, in the documented state order, either its exact probability (unweighted: its probability given its number of particles) or the not-computed marker, its filled weight (unweighted: divided by n+1) reaches the requested accuracy when it returns, and it can always still reach it. "
  "Earlier simulations or computations on the same object do not change this.",
  ["inputs", "histories"],
  "all random choices up to a bounded number of sampling rounds, all inputs up to (m, n), accuracies and transmissivities from an alphabet",
  "These methods have no tests.",
  [SS + "generalized_cliffords_uniform_losses_simulation_strategy.py"],
  [("distribution entries filled while mass functions are computed", SS + "generalized_cliffords_uniform_losses_simulation_strategy.py")],
  (), ["compute_distribution_up_to_accuracy()", "compute_unweighted_distribution_up_to_accuracy()"]),
P("C19", "No admissible random draw breaks a sampler or yields an impossible sample",
  "For every sequence of values the random generators may deliver, including exactly 0 and the largest number below 1, every sampler terminates without error and returns only outcomes of positive probability, with the right number of modes and particles.",
  ["inputs", "fault_sequences"],
  "all tapes over boundary values {0, interior values, the largest float below 1} for every uniform draw of a simulation, on small configurations incl. ones with zero-probability modes",
  "Boundary draws have probability about 1e-16 in a test run.",
  [SS + "generalized_cliffords_simulation_strategy.py", SS + "generalized_cliffords_b_uniform_losses_simulation_strategy.py", SS + "fixed_loss_simulation_strategy.py", SS + "nonuniform_losses_approximation_strategy.py"],
  [("inverse-CDF loops with strict comparisons", SS + "generalized_cliffords_simulation_strategy.py")],
  (), ["simulate()"]),
P("C20", "Statistical and number helpers satisfy their defining equations",
  "Total variation distances (lists and dictionaries) agree with each other and are metrics with values in [0, 1] on distributions, missing outcomes counting as 0; the error bound of an N-sample estimate over K outcomes is sqrt((K ln 2 - ln p) / 2N) and the sample number for a desired accuracy is the least one whose bound does not exceed it; the prime factorisation of every positive integer consists of primes with that product.",
  ["inputs"],
  "all distributions on a rational grid over up to 3-4 outcomes (triples for the triangle inequality), all parameter combinations from an alphabet, all integers up to a bound",
  "These helpers are used by tests but not tested.",
  [Q],
  [("closed formulas", Q)],
  (), ["count_total_variation_distance*()", "count_tv_distance_error_bound_of_experiment_results()", "compute_minimal_number_of_samples_for_desired_accuracy()", "get_prime_factors()"]),
P("C21", "The R-backed sampler hands over and translates experiments faithfully",
  "The wrapper of the R Clifford & Clifford sampler passes to R the interferometer columns of the occupied input modes and the requested sample number, and returns for every answer R may give the corresponding mode occupations, all samples, in order.",
  ["inputs", "fault_sequences"],
  "all collision-free inputs up to m modes and every possible answer (sample sequence) of a stand-in for the R sampler",
  "R and rpy2 are absent, the only test skips itself.",
  [SS + "cliffords_r_simulation_strategy.py"],
  [("column selection, column-major conversion and index shift", SS + "cliffords_r_simulation_strategy.py")],
  (), ["simulate()"]),
P("C22", "Failures surface and leave no trace",
  "When a random draw, a permanent computation or a worker process fails in the middle of a simulation or a distribution computation, the call raises an error or still returns a complete and valid result: it never returns fewer samples or probabilities than asked for, impossible samples or wrong values. "
  "Afterwards the same object answers every simulation and query exactly as if the failed call had not been made.",
  ["fault_sequences", "histories", "schedules"],
  "every point of failure (each random draw, permanent computation, worker task) of every execution of a first call, then all executions of further calls on the same object, for all samplers and distribution calculators on small configurations",
  "Tests never make a draw, a permanent or a worker fail; interrupted long simulations are everyday use.",
  [SS + "generalized_cliffords_simulation_strategy.py", SS + "generalized_cliffords_uniform_losses_simulation_strategy.py", SS + "nonuniform_losses_approximation_strategy.py", SS + "lossy_state_approximated_simulation_strategy.py", DC + "bs_exact_distribution_with_uniform_losses.py", DC + "bs_distribution_calculator_with_fixed_losses.py"],
  [("state kept on the objects is rebuilt by every call, results of pools are consumed in full", SS + "generalized_cliffords_simulation_strategy.py")],
  (), ["simulate()", "calculate_distribution()", "compute_distribution_up_to_accuracy()"]),
]
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl"), "w") as f:
    for p in props:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(props))
