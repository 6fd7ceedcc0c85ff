From d15a5aec2048cea8e300d25c4c690d48c491e5ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:21 +0000
Subject: [PATCH 01/26] fix: expand lossy interferometers to a unitary matrix

The expanded singular values matrix [[S, L], [L, S]] is not unitary unless
S L = 0; [[S, -L], [L, S]] is.
---
 theboss/boson_sampling_utilities/boson_sampling_utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/theboss/boson_sampling_utilities/boson_sampling_utilities.py b/theboss/boson_sampling_utilities/boson_sampling_utilities.py
index 338cf85..5b0d584 100644
--- a/theboss/boson_sampling_utilities/boson_sampling_utilities.py
+++ b/theboss/boson_sampling_utilities/boson_sampling_utilities.py
@@ -335,7 +335,7 @@ def prepare_interferometer_matrix_in_expanded_space(
     # This is the most specific thing here.
     expanded_singular_values_matrix = block(
         [
-            [diag(singular_values), loss_transfer_extension_matrix],
+            [diag(singular_values), -loss_transfer_extension_matrix],
             [loss_transfer_extension_matrix, diag(singular_values)],
         ]
     )
-- 
2.43.0


From 45ec040c6631b869e0afd8d16bd8b9ef62e84b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:21 +0000
Subject: [PATCH 02/26] fix: count states in exact integer arithmetic

Floating point factorials and binomials gave wrong (and non-integer typed)
numbers of states from about 20 modes on.
---
 .../boson_sampling_utilities.py                    | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/theboss/boson_sampling_utilities/boson_sampling_utilities.py b/theboss/boson_sampling_utilities/boson_sampling_utilities.py
index 5b0d584..1cc00d4 100644
--- a/theboss/boson_sampling_utilities/boson_sampling_utilities.py
+++ b/theboss/boson_sampling_utilities/boson_sampling_utilities.py
@@ -6,6 +6,7 @@ __author__ = "Tomasz Rybotycki"
 """
 
 import itertools
+from math import comb, factorial
 from typing import List, Optional, Sequence, Tuple
 
 from numpy import (
@@ -25,7 +26,6 @@ from numpy import (
     exp,
 )
 from numpy.linalg import svd
-from scipy.special import binom, factorial
 from numpy.random import rand
 
 from theboss.quantum_computations_utilities import compute_qft_matrix
@@ -226,13 +226,16 @@ def bosonic_space_dimension(
             :math:`n` particles.
     """
 
-    dimension: int = round(binom(particles_number + modes_number - 1, particles_number))
+    if particles_number < 0 or modes_number < 1:
+        return 0
+
+    dimension: int = comb(particles_number + modes_number - 1, particles_number)
 
     if not losses:
         return dimension
 
     for n in range(particles_number):
-        dimension += round(binom(n + modes_number - 1, n))
+        dimension += comb(n + modes_number - 1, n)
 
     return dimension
 
@@ -462,11 +465,6 @@ def compute_number_of_states_of_given_type(state_type: Sequence[int]) -> int:
     for val in vals:
         counts.append(state_type.count(val))
 
-    type_count = factorial(modes_number)
-
-    for count in counts:
-        type_count /= factorial(count)
-
     number_of_states_of_given_type = factorial(modes_number)
 
     for count in counts:
-- 
2.43.0


From 9f79b413b958274de4ea1fd20fb99ce237087d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:21 +0000
Subject: [PATCH 03/26] fix: return only prime integers from get_prime_factors

A trailing 1.0 was appended whenever the remaining cofactor was 1, and float
division made the last factor a (for large numbers inexact) float.
---
 theboss/quantum_computations_utilities.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/theboss/quantum_computations_utilities.py b/theboss/quantum_computations_utilities.py
index 83e2d70..f01a2c9 100644
--- a/theboss/quantum_computations_utilities.py
+++ b/theboss/quantum_computations_utilities.py
@@ -132,14 +132,15 @@ def get_prime_factors(number: int) -> List[int]:
 
     while number % 2 == 0:
         prime_factors.append(2)
-        number = number / 2
+        number //= 2
 
     for i in range(3, int(sqrt(number)) + 1, 2):
         while number % i == 0:
             prime_factors.append(i)
-            number = number / i
+            number //= i
 
-    prime_factors.append(number)
+    if number > 1:
+        prime_factors.append(number)
 
     return prime_factors
 
-- 
2.43.0


From ec16b772f822572b4d84f1af50e359f1535f83ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:47 +0000
Subject: [PATCH 04/26] fix: do not carry approximated particles over between
 BOBS simulations

Every simulate() call added its particles to those of the earlier calls.
---
 .../nonuniform_losses_approximation_strategy.py                  | 1 +
 1 file changed, 1 insertion(+)

diff --git a/theboss/simulation_strategies/nonuniform_losses_approximation_strategy.py b/theboss/simulation_strategies/nonuniform_losses_approximation_strategy.py
index 0f59ebd..ccaec95 100644
--- a/theboss/simulation_strategies/nonuniform_losses_approximation_strategy.py
+++ b/theboss/simulation_strategies/nonuniform_losses_approximation_strategy.py
@@ -228,6 +228,7 @@ class NonuniformLossesApproximationStrategy:
 
         # Prepare the state used in the approximate simulation.
         self._state_without_approximated_modes = list(input_state)
+        self._approximated_modes_particles_number = 0
 
         for i in range(self._approximated_modes_number):
             self._approximated_modes_particles_number += input_state[i]
-- 
2.43.0


From c6741c19decb57dd66125d176bd79d24951afdaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:47 +0000
Subject: [PATCH 05/26] fix: return exactly the requested number of BOBS
 samples

The number was rounded up to the next multiple of the threads number, strictly
above it (one sample asked of one thread gave two).
---
 .../nonuniform_losses_approximation_strategy.py      | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/theboss/simulation_strategies/nonuniform_losses_approximation_strategy.py b/theboss/simulation_strategies/nonuniform_losses_approximation_strategy.py
index ccaec95..ab93dc3 100644
--- a/theboss/simulation_strategies/nonuniform_losses_approximation_strategy.py
+++ b/theboss/simulation_strategies/nonuniform_losses_approximation_strategy.py
@@ -242,13 +242,11 @@ class NonuniformLossesApproximationStrategy:
         )
 
         # Get samples number per thread
-        samples_per_thread = (
-            samples_number
-            + self._threads_number
-            - (samples_number % self._threads_number)
-        )
-        samples_per_thread = int(samples_per_thread / self._threads_number)
-        samples_for_threads = [samples_per_thread] * self._threads_number
+        samples_per_thread, remainder = divmod(samples_number, self._threads_number)
+        samples_for_threads = [
+            samples_per_thread + (1 if i < remainder else 0)
+            for i in range(self._threads_number)
+        ]
 
         # Context is required on Linux systems, as the default (fork) produces undesired
         # results! Spawn is default on osX and Windows and works as expected.
-- 
2.43.0


From c4dded81ca6ba642322d87a3e78d461d6294c2bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:47 +0000
Subject: [PATCH 06/26] fix: accept totally lossy interferometers in the BOBS
 strategy

Extracting the uniform losses divided 0 by 0.
---
 .../nonuniform_losses_approximation_strategy.py        | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/theboss/simulation_strategies/nonuniform_losses_approximation_strategy.py b/theboss/simulation_strategies/nonuniform_losses_approximation_strategy.py
index ab93dc3..0c29b51 100644
--- a/theboss/simulation_strategies/nonuniform_losses_approximation_strategy.py
+++ b/theboss/simulation_strategies/nonuniform_losses_approximation_strategy.py
@@ -136,10 +136,12 @@ class NonuniformLossesApproximationStrategy:
         losses: List[float] = [1 - eta for eta in transmissivities]
         self._uniform_losses = min(losses)
 
-        # Form the interferometer_matrx with losses extracted.
-        transmissivities = [
-            eta / (1 - self._uniform_losses) for eta in transmissivities
-        ]
+        # Form the interferometer_matrx with losses extracted. If everything is lost
+        # there's nothing left to rescale.
+        if self._uniform_losses < 1:
+            transmissivities = [
+                eta / (1 - self._uniform_losses) for eta in transmissivities
+            ]
         s = [sqrt(eta) for eta in transmissivities]
         self._initial_matrix = u @ diag(s) @ v
 
-- 
2.43.0


From e43330f435274b087809bf2616850bf447b30d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:18:18 +0000
Subject: [PATCH 07/26] fix: weight lossy bunched inputs properly in the
 uniform losses BOBS

The multiplicities of the lossy states were left out, hence the weights did not
sum up to 1 (ValueError) if a non-approximated mode held several particles.
---
 .../lossy_state_approximated_simulation_strategy.py   | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/theboss/simulation_strategies/lossy_state_approximated_simulation_strategy.py b/theboss/simulation_strategies/lossy_state_approximated_simulation_strategy.py
index fa2f51e..263f219 100644
--- a/theboss/simulation_strategies/lossy_state_approximated_simulation_strategy.py
+++ b/theboss/simulation_strategies/lossy_state_approximated_simulation_strategy.py
@@ -173,12 +173,15 @@ class LossyStateApproximationSimulationStrategy(SimulationStrategyInterface):
         )
         self._not_approximated_lossy_mixed_state_parts_weights = []
 
-        n = sum(self._not_approximated_lossy_mixed_state_parts[-1])
+        whole_part = self._not_approximated_lossy_mixed_state_parts[-1]
+        n = sum(whole_part)
 
         for state_part in self._not_approximated_lossy_mixed_state_parts:
-            self._not_approximated_lossy_mixed_state_parts_weights.append(
-                possible_weights[int(sum(state_part))] / binom(n, sum(state_part))
-            )
+            weight = possible_weights[int(sum(state_part))] / binom(n, sum(state_part))
+            # Bunched particles may be lost in several ways giving the same state.
+            for initial, left in zip(whole_part, state_part):
+                weight *= binom(initial, left)
+            self._not_approximated_lossy_mixed_state_parts_weights.append(weight)
 
     def _get_possible_lossy_inputs_weights(
         self, input_state: Sequence[int]
-- 
2.43.0


From eca00d4fd21be9297ab3d9be430e6832e3941be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:18:18 +0000
Subject: [PATCH 08/26] fix: run the uniform losses BOBS at hierarchy levels 0
 and m

Stacking with an empty (float) part made the input state float: TypeError.
---
 .../lossy_state_approximated_simulation_strategy.py            | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/theboss/simulation_strategies/lossy_state_approximated_simulation_strategy.py b/theboss/simulation_strategies/lossy_state_approximated_simulation_strategy.py
index 263f219..20789c2 100644
--- a/theboss/simulation_strategies/lossy_state_approximated_simulation_strategy.py
+++ b/theboss/simulation_strategies/lossy_state_approximated_simulation_strategy.py
@@ -332,7 +332,8 @@ class LossyStateApproximationSimulationStrategy(SimulationStrategyInterface):
                 p=self._not_approximated_lossy_mixed_state_parts_weights,
             )
         ]
-        return hstack([not_approximated_part, approximated_part])
+        # Either part may be empty, and an empty array would make the result float.
+        return hstack([not_approximated_part, approximated_part]).astype(int)
 
     def _permuted_interferometer_matrix(self) -> ndarray:
         """
-- 
2.43.0


From e05ed8fb10faf3ba211f5c2193054bcef13698bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:18:18 +0000
Subject: [PATCH 09/26] fix: smear the approximated modes in the uniform losses
 BOBS

The last m - k modes are approximated, but the QFT and the random phases acted
on the first m - k ones; and all the columns were shuffled, so that particles of
modes that are not approximated entered random modes (even for k = m).
---
 ..._state_approximated_simulation_strategy.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/theboss/simulation_strategies/lossy_state_approximated_simulation_strategy.py b/theboss/simulation_strategies/lossy_state_approximated_simulation_strategy.py
index 20789c2..ea7836a 100644
--- a/theboss/simulation_strategies/lossy_state_approximated_simulation_strategy.py
+++ b/theboss/simulation_strategies/lossy_state_approximated_simulation_strategy.py
@@ -332,21 +332,24 @@ class LossyStateApproximationSimulationStrategy(SimulationStrategyInterface):
                 p=self._not_approximated_lossy_mixed_state_parts_weights,
             )
         ]
-        # Either part may be empty, and an empty array would make the result float.
-        return hstack([not_approximated_part, approximated_part]).astype(int)
+        # Approximated part goes first, where the QFT and the random phases act. Either
+        # part may be empty, and an empty array would make the result float.
+        return hstack([approximated_part, not_approximated_part]).astype(int)
 
     def _permuted_interferometer_matrix(self) -> ndarray:
         """
-        Permute the columns of the matrix for better symmetrization and possibly
-        more accurate sampling.
+        Permute the columns of the approximated modes for better symmetrization, and
+        put them first, as in the input state. The columns of the modes that aren't
+        approximated follow in their order.
 
         :return:
             The interferometer matrix with permuted columns.
         """
-        permutation = arange(
-            len(self._permanent_calculator.matrix)
-        )  # We work with unitary matrices.
-        shuffle(permutation)
+        # We work with unitary matrices.
+        modes = arange(len(self._permanent_calculator.matrix))
+        approximated_modes = modes[self._hierarchy_level :]
+        shuffle(approximated_modes)
+        permutation = hstack([approximated_modes, modes[: self._hierarchy_level]])
         return array(self._permanent_calculator.matrix)[:, permutation]
 
     def _get_matrix_for_approximate_sampling(self) -> ndarray:
-- 
2.43.0


From 0f99c8244412ca5c4c57f4e0aebcf81e7be0259c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:18:18 +0000
Subject: [PATCH 10/26] fix: give the uniform losses BOBS its own permanent
 calculator

The strategy shared the factory's calculator, unlike all the other strategies.
---
 theboss/simulation_strategies/simulation_strategy_factory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/theboss/simulation_strategies/simulation_strategy_factory.py b/theboss/simulation_strategies/simulation_strategy_factory.py
index 8ed6180..90c180a 100644
--- a/theboss/simulation_strategies/simulation_strategy_factory.py
+++ b/theboss/simulation_strategies/simulation_strategy_factory.py
@@ -219,7 +219,7 @@ class SimulationStrategyFactory:
         self,
     ) -> LossyStateApproximationSimulationStrategy:
         return LossyStateApproximationSimulationStrategy(
-            bs_permanent_calculator=self._bs_permanent_calculator,
+            bs_permanent_calculator=deepcopy(self._bs_permanent_calculator),
             uniform_transmissivity=self._experiment_configuration.uniform_transmissivity,
             hierarchy_level=self._experiment_configuration.hierarchy_level,
             threads_number=self._available_threads_number,
-- 
2.43.0


From a1049d66f71a1435617478a9e59fe807821ed38d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:17 +0000
Subject: [PATCH 11/26] fix: factorise integers beyond 64 bits in
 get_prime_factors

---
 theboss/quantum_computations_utilities.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/theboss/quantum_computations_utilities.py b/theboss/quantum_computations_utilities.py
index f01a2c9..02af510 100644
--- a/theboss/quantum_computations_utilities.py
+++ b/theboss/quantum_computations_utilities.py
@@ -134,10 +134,12 @@ def get_prime_factors(number: int) -> List[int]:
         prime_factors.append(2)
         number //= 2
 
-    for i in range(3, int(sqrt(number)) + 1, 2):
+    i = 3
+    while i * i <= number:
         while number % i == 0:
             prime_factors.append(i)
             number //= i
+        i += 2
 
     if number > 1:
         prime_factors.append(number)
-- 
2.43.0


From 0bfe85b44d83618edc6815a1e7d640eceaab0805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:17 +0000
Subject: [PATCH 12/26] fix: draw the configured number of samples in the
 sample based calculator

---
 .../bs_sample_based_distribution_calculator.py            | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/theboss/distribution_calculators/bs_sample_based_distribution_calculator.py b/theboss/distribution_calculators/bs_sample_based_distribution_calculator.py
index 065dbe2..7d62d40 100644
--- a/theboss/distribution_calculators/bs_sample_based_distribution_calculator.py
+++ b/theboss/distribution_calculators/bs_sample_based_distribution_calculator.py
@@ -1,6 +1,6 @@
 __author__ = "Tomasz Rybotycki"
 
-from typing import List, Iterable
+from typing import List, Iterable, Optional
 
 from numpy import float64, ndarray, zeros, asarray
 
@@ -72,14 +72,18 @@ class BSSampleBasedDistributionCalculator(BSDistributionCalculatorInterface):
         return self.calculate_approximate_distribution()
 
     def calculate_approximate_distribution(
-        self, samples_number: int = 5000
+        self, samples_number: Optional[int] = None
     ) -> List[float]:
         """
             Prepares the approximate distribution using boson sampling simulation method
             described by Oszmaniec and Brod. Obviously higher number of samples will
             generate better approximation.
+            :param samples_number: Number of samples to draw. By default the number the
+                calculator has been configured with.
             :return: Approximate distribution as a list.
         """
+        if samples_number is None:
+            samples_number = self._samples_number
 
         if self._outcomes is not None:
             possible_outcomes = self._outcomes
-- 
2.43.0


From b378e097216368fd2edfe1d553829687797db625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:17 +0000
Subject: [PATCH 13/26] fix: report the default outcomes of the sample based
 calculator

---
 .../bs_sample_based_distribution_calculator.py   | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/theboss/distribution_calculators/bs_sample_based_distribution_calculator.py b/theboss/distribution_calculators/bs_sample_based_distribution_calculator.py
index 7d62d40..bfde755 100644
--- a/theboss/distribution_calculators/bs_sample_based_distribution_calculator.py
+++ b/theboss/distribution_calculators/bs_sample_based_distribution_calculator.py
@@ -85,13 +85,7 @@ class BSSampleBasedDistributionCalculator(BSDistributionCalculatorInterface):
         if samples_number is None:
             samples_number = self._samples_number
 
-        if self._outcomes is not None:
-            possible_outcomes = self._outcomes
-        else:
-            possible_outcomes = generate_possible_states(
-                self.configuration.number_of_particles_left,
-                self.configuration.number_of_modes,
-            )
+        possible_outcomes = self.get_outcomes_in_proper_order()
 
         simulator = BosonSamplingSimulator(self._strategy)
 
@@ -114,4 +108,10 @@ class BSSampleBasedDistributionCalculator(BSDistributionCalculatorInterface):
         return list(outcomes_probabilities)
 
     def get_outcomes_in_proper_order(self) -> List[ndarray]:
-        return self._outcomes
+        if self._outcomes is not None:
+            return self._outcomes
+
+        return generate_possible_states(
+            self.configuration.number_of_particles_left,
+            self.configuration.number_of_modes,
+        )
-- 
2.43.0


From 66ca6cfea9238d8cc10c361b43dc581fe971358d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:17 +0000
Subject: [PATCH 14/26] fix: do not count missing values as negative weight

---
 ...ords_uniform_losses_simulation_strategy.py | 22 +++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/theboss/simulation_strategies/generalized_cliffords_uniform_losses_simulation_strategy.py b/theboss/simulation_strategies/generalized_cliffords_uniform_losses_simulation_strategy.py
index 1bc05be..b5c7483 100644
--- a/theboss/simulation_strategies/generalized_cliffords_uniform_losses_simulation_strategy.py
+++ b/theboss/simulation_strategies/generalized_cliffords_uniform_losses_simulation_strategy.py
@@ -97,7 +97,9 @@ class GeneralizedCliffordsUniformLossesSimulationStrategy(
 
         self._initialize_simulation(input_state)
 
-        while not isclose(max(accuracy - sum(self.distribution), 0), 0):
+        while not isclose(
+            max(accuracy - self._get_filled_weight(self.distribution), 0), 0
+        ):
             self._fill_r_sample()
 
         return self.distribution
@@ -116,12 +118,28 @@ class GeneralizedCliffordsUniformLossesSimulationStrategy(
         self._initialize_simulation(input_state)
 
         while not isclose(
-            max(accuracy - sum(self.unweighted_distribution) / sum(input_state), 0), 0
+            max(
+                accuracy
+                - self._get_filled_weight(self.unweighted_distribution)
+                / sum(input_state),
+                0,
+            ),
+            0,
         ):
             self._fill_r_sample()
 
         return self.unweighted_distribution
 
+    @staticmethod
+    def _get_filled_weight(distribution: List[float]) -> float:
+        """
+            Sums up the probabilities computed so far, skipping the missing spots.
+
+            :param distribution: Distribution with possible missing spots.
+            :return: Total weight of the outcomes with already computed probabilities.
+        """
+        return sum(max(probability, 0) for probability in distribution)
+
     def _fill_r_sample(self) -> None:
         """
             Fills the r_sample, but it's possible for the photons to be lost.
-- 
2.43.0


From 2d02f58df876dc4d1a5fccb1d761e4231e99dc74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:17 +0000
Subject: [PATCH 15/26] fix: include the vacuum in the unweighted distribution

---
 ...generalized_cliffords_uniform_losses_simulation_strategy.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/theboss/simulation_strategies/generalized_cliffords_uniform_losses_simulation_strategy.py b/theboss/simulation_strategies/generalized_cliffords_uniform_losses_simulation_strategy.py
index b5c7483..dae4835 100644
--- a/theboss/simulation_strategies/generalized_cliffords_uniform_losses_simulation_strategy.py
+++ b/theboss/simulation_strategies/generalized_cliffords_uniform_losses_simulation_strategy.py
@@ -83,6 +83,7 @@ class GeneralizedCliffordsUniformLossesSimulationStrategy(
             for left in range(n + 1)
         ]
         self.distribution[0] = self._binomial_weights[0]
+        self.unweighted_distribution[0] = 1  # There's only one state without particles.
 
     def compute_distribution_up_to_accuracy(
         self, input_state: ndarray, accuracy: float = 1.0
@@ -121,7 +122,7 @@ class GeneralizedCliffordsUniformLossesSimulationStrategy(
             max(
                 accuracy
                 - self._get_filled_weight(self.unweighted_distribution)
-                / sum(input_state),
+                / (sum(input_state) + 1),  # Each number of particles weights 1.
                 0,
             ),
             0,
-- 
2.43.0


From be8fcd5b307d184cde93fdb53198c377622e20a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:17 +0000
Subject: [PATCH 16/26] fix: compute the unweighted distribution also when
 everything is lost

---
 ...eralized_cliffords_uniform_losses_simulation_strategy.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/theboss/simulation_strategies/generalized_cliffords_uniform_losses_simulation_strategy.py b/theboss/simulation_strategies/generalized_cliffords_uniform_losses_simulation_strategy.py
index dae4835..00cbf98 100644
--- a/theboss/simulation_strategies/generalized_cliffords_uniform_losses_simulation_strategy.py
+++ b/theboss/simulation_strategies/generalized_cliffords_uniform_losses_simulation_strategy.py
@@ -118,6 +118,10 @@ class GeneralizedCliffordsUniformLossesSimulationStrategy(
 
         self._initialize_simulation(input_state)
 
+        # Unweighted values don't depend on the losses. Without them every number of
+        # particles can be reached, no matter what the transmissivity is.
+        transmissivity, self._transmissivity = self._transmissivity, 1
+
         while not isclose(
             max(
                 accuracy
@@ -129,6 +133,8 @@ class GeneralizedCliffordsUniformLossesSimulationStrategy(
         ):
             self._fill_r_sample()
 
+        self._transmissivity = transmissivity
+
         return self.unweighted_distribution
 
     @staticmethod
-- 
2.43.0


From 9f73c50b6282c179ebb03b52677d0c041e652eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:17 +0000
Subject: [PATCH 17/26] fix: never leave more particles than there are in the
 input

---
 ...neralized_cliffords_b_uniform_losses_simulation_strategy.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/theboss/simulation_strategies/generalized_cliffords_b_uniform_losses_simulation_strategy.py b/theboss/simulation_strategies/generalized_cliffords_b_uniform_losses_simulation_strategy.py
index f2ffcee..0ebb045 100644
--- a/theboss/simulation_strategies/generalized_cliffords_b_uniform_losses_simulation_strategy.py
+++ b/theboss/simulation_strategies/generalized_cliffords_b_uniform_losses_simulation_strategy.py
@@ -82,7 +82,8 @@ class GeneralizedCliffordsBUniformLossesSimulationStrategy(
 
             number_of_particles_left += 1
 
-        return number_of_particles_left
+        # Due to the rounding the weights may sum up to slightly less than 1.
+        return self.number_of_input_photons
 
     def simulate(self, input_state: ndarray, samples_number: int = 1) -> List[ndarray]:
         """
-- 
2.43.0


From 6f805bbcacc7eba08a829ff9da2929b5d762b138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:17 +0000
Subject: [PATCH 18/26] fix: always choose one of the values in BOBS

---
 .../nonuniform_losses_approximation_strategy.py                | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/theboss/simulation_strategies/nonuniform_losses_approximation_strategy.py b/theboss/simulation_strategies/nonuniform_losses_approximation_strategy.py
index 0c29b51..56ed5b1 100644
--- a/theboss/simulation_strategies/nonuniform_losses_approximation_strategy.py
+++ b/theboss/simulation_strategies/nonuniform_losses_approximation_strategy.py
@@ -61,6 +61,9 @@ def choice(values: Sequence[int], weights: Sequence[float] = None) -> int:
         if weights_sum > random_number:
             return values[i]
 
+    # Due to the rounding the weights may sum up to slightly less than 1.
+    return [value for value, weight in zip(values, weights) if weight > 0][-1]
+
 
 class NonuniformLossesApproximationStrategy:
     """
-- 
2.43.0


From 919e9dccdbdff817c80c5f0c386fed2aa54dbabe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:17 +0000
Subject: [PATCH 19/26] fix: sample only possible outcomes in the fixed losses
 strategy

---
 .../fixed_loss_simulation_strategy.py                      | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/theboss/simulation_strategies/fixed_loss_simulation_strategy.py b/theboss/simulation_strategies/fixed_loss_simulation_strategy.py
index 37fbd95..cc41606 100644
--- a/theboss/simulation_strategies/fixed_loss_simulation_strategy.py
+++ b/theboss/simulation_strategies/fixed_loss_simulation_strategy.py
@@ -130,11 +130,14 @@ class FixedLossSimulationStrategy(SimulationStrategyInterface):
             described in first quantization (mode assignment representation).
         """
         output = zeros(self.number_of_observed_modes)
+        total = sum(probabilities).real
+        # Don't lose particles in lossless networks due to the rounding.
+        scale = total if abs(1 - total) < 1e-12 else 1
         for photon in range(self.number_of_photons_left):
-            x = random()
+            x = random() * scale
             i = 0
             prob = probabilities[i]
-            while x > prob:
+            while x >= prob:
                 i += 1
                 if len(probabilities) == i:
                     break
-- 
2.43.0


From 420c87501c162bbf7d9555ee3b304f13766cac21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:17 +0000
Subject: [PATCH 20/26] fix: pass the number of threads to the BOBS strategy

---
 theboss/simulation_strategies/simulation_strategy_factory.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/theboss/simulation_strategies/simulation_strategy_factory.py b/theboss/simulation_strategies/simulation_strategy_factory.py
index 90c180a..cfa6773 100644
--- a/theboss/simulation_strategies/simulation_strategy_factory.py
+++ b/theboss/simulation_strategies/simulation_strategy_factory.py
@@ -213,6 +213,7 @@ class SimulationStrategyFactory:
         return NonuniformLossesApproximationStrategy(
             bs_permanent_calculator=deepcopy(self.bs_permanent_calculator),
             approximated_modes_number=approximated_modes_number,
+            threads_number=self._available_threads_number,
         )
 
     def _generate_uniform_losses_bobs_strategy(
-- 
2.43.0


From 1b3322fd3e46eb71dbc7b08efe8ca69661e4ade8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:17 +0000
Subject: [PATCH 21/26] fix: no input has more particles left than it had

---
 theboss/boson_sampling_utilities/boson_sampling_utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/theboss/boson_sampling_utilities/boson_sampling_utilities.py b/theboss/boson_sampling_utilities/boson_sampling_utilities.py
index 1cc00d4..587f0a5 100644
--- a/theboss/boson_sampling_utilities/boson_sampling_utilities.py
+++ b/theboss/boson_sampling_utilities/boson_sampling_utilities.py
@@ -181,7 +181,7 @@ def generate_lossy_n_particle_input_states(
     lossy_inputs_list = []
     lossy_inputs_hashes = []
 
-    if sum(initial_state) == 0:
+    if sum(initial_state) == 0 and number_of_particles_left == 0:
         return [tuple(initial_state)]
 
     # Symmetrization.
-- 
2.43.0


From 654f2c99c345aafc44a9e7072f95a3b61f468775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:17 +0000
Subject: [PATCH 22/26] fix: pass the columns of the occupied modes to the R
 sampler

---
 .../cliffords_r_simulation_strategy.py        | 27 +++++++++++++------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/theboss/simulation_strategies/cliffords_r_simulation_strategy.py b/theboss/simulation_strategies/cliffords_r_simulation_strategy.py
index ca6ad11..26321c1 100644
--- a/theboss/simulation_strategies/cliffords_r_simulation_strategy.py
+++ b/theboss/simulation_strategies/cliffords_r_simulation_strategy.py
@@ -7,7 +7,7 @@ __author__ = "Tomasz Rybotycki"
     https://cran.r-project.org/web/packages/BosonSampling/index.html
 """
 
-from numpy import arange, array, array_split, int64, ndarray, isclose
+from numpy import array, array_split, int64, ndarray, isclose
 from scipy.special import binom
 from collections import defaultdict
 from typing import List, Dict, Tuple, DefaultDict, Sequence
@@ -20,6 +20,7 @@ from theboss.simulation_strategies.simulation_strategy_interface import (
 
 from ..boson_sampling_utilities.boson_sampling_utilities import (
     mode_assignment_to_mode_occupation,
+    mode_occupation_to_mode_assignment,
 )
 
 
@@ -61,6 +62,20 @@ class CliffordsRSimulationStrategy(SimulationStrategyInterface):
         )
         return robjects.r.matrix(r_values, nrow=rows_number, ncol=columns_number)
 
+    def _get_columns_of_occupied_modes(self, initial_state: Sequence[int]) -> ndarray:
+        """
+        R sampler expects one column of the interferometer matrix per particle.
+
+        :param initial_state:
+            Input state in the modes occupation description.
+
+        :return:
+            The columns corresponding to the modes the particles are in.
+        """
+        return array(self.interferometer_matrix)[
+            :, list(mode_occupation_to_mode_assignment(initial_state))
+        ]
+
     def simulate(
         self, initial_state: Sequence[int], samples_number: int = 1
     ) -> List[Tuple[int, ...]]:
@@ -78,10 +93,8 @@ class CliffordsRSimulationStrategy(SimulationStrategyInterface):
         :return:
             List of samples in the mode occupation representation.
         """
-        number_of_bosons = int(sum(initial_state))
-
         boson_sampler_input_matrix = self._numpy_array_to_r_matrix(
-            array(self.interferometer_matrix)[:, arange(number_of_bosons)]
+            self._get_columns_of_occupied_modes(initial_state)
         )
 
         result, permanent, probability_mass_function = self.cliffords_r_sampler(
@@ -122,14 +135,12 @@ class CliffordsRSimulationStrategy(SimulationStrategyInterface):
             Probabilities of the specified outcomes.
         """
 
-        number_of_bosons = int(sum(initial_state))
-
         outcomes_of_interest = [tuple(o) for o in outcomes_of_interest]
 
         outcomes_probabilities: dict = {}
 
         boson_sampler_input_matrix = self._numpy_array_to_r_matrix(
-            array(self.interferometer_matrix)[:, arange(number_of_bosons)]
+            self._get_columns_of_occupied_modes(initial_state)
         )
 
         number_of_samplings = 0
@@ -185,7 +196,7 @@ class CliffordsRSimulationStrategy(SimulationStrategyInterface):
         m = len(initial_state)
 
         boson_sampler_input_matrix = self._numpy_array_to_r_matrix(
-            array(self.interferometer_matrix)[:, arange(n)]
+            self._get_columns_of_occupied_modes(initial_state)
         )
 
         if int(binom(n + m - 1, m - 1)) < number_of_random_states:
-- 
2.43.0


From 62f7a01196e6c9166bb7cf99bf462c0e821605df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:01:04 +0000
Subject: [PATCH 23/26] fix: permanents of integer-typed matrices do not
 overflow

---
 .../permanent_calculators/chin_huh_permanent_calculator.py      | 2 +-
 .../permanent_calculators/ryser_permanent_calculator.py         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/theboss/boson_sampling_utilities/permanent_calculators/chin_huh_permanent_calculator.py b/theboss/boson_sampling_utilities/permanent_calculators/chin_huh_permanent_calculator.py
index 37744b8..37d1969 100644
--- a/theboss/boson_sampling_utilities/permanent_calculators/chin_huh_permanent_calculator.py
+++ b/theboss/boson_sampling_utilities/permanent_calculators/chin_huh_permanent_calculator.py
@@ -41,7 +41,7 @@ class ChinHuhPermanentCalculator(BSGuanCodeBasedPermanentCalculatorBase):
         self._multiplier = 1 / pow(2, sum(self._input_state))
 
         for i in self._considered_columns_indices:
-            self._sums[i] = 0
+            self._sums[i] = complex128(0)
             for j in range(len(self._input_state)):
                 self._sums[i] += self._input_state[j] * self._matrix[i][j]
 
diff --git a/theboss/boson_sampling_utilities/permanent_calculators/ryser_permanent_calculator.py b/theboss/boson_sampling_utilities/permanent_calculators/ryser_permanent_calculator.py
index b44976c..8be1001 100644
--- a/theboss/boson_sampling_utilities/permanent_calculators/ryser_permanent_calculator.py
+++ b/theboss/boson_sampling_utilities/permanent_calculators/ryser_permanent_calculator.py
@@ -48,7 +48,7 @@ class RyserPermanentCalculator(BSGuanCodeBasedPermanentCalculatorBase):
         self._multiplier = pow(-1, sum(self._input_state))
 
         for j in self._considered_columns_indices:
-            self._sums[j] = 0
+            self._sums[j] = complex128(0)
 
         self._update_permanent()
 
-- 
2.43.0


From efc321072a6cb28551f26a45447983b535352f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:01:04 +0000
Subject: [PATCH 24/26] fix: submatrix permanents of integer-typed matrices do
 not overflow

---
 .../bs_cc_ch_submatrices_permanent_calculator.py                | 2 +-
 .../bs_cc_ryser_submatrices_permanent_calculator.py             | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/theboss/boson_sampling_utilities/permanent_calculators/bs_cc_ch_submatrices_permanent_calculator.py b/theboss/boson_sampling_utilities/permanent_calculators/bs_cc_ch_submatrices_permanent_calculator.py
index 3a3d9b0..a1d9b6f 100644
--- a/theboss/boson_sampling_utilities/permanent_calculators/bs_cc_ch_submatrices_permanent_calculator.py
+++ b/theboss/boson_sampling_utilities/permanent_calculators/bs_cc_ch_submatrices_permanent_calculator.py
@@ -57,7 +57,7 @@ class BSCCCHSubmatricesPermanentCalculator(
         self._multiplier = 1 / pow(2, sum(self.input_state) - 1)
 
         for i in self._considered_columns_indices:
-            self._sums[i] = 0
+            self._sums[i] = complex128(0)
             for j in range(len(self._input_state)):
                 self._sums[i] += self._input_state[j] * self._matrix[i][j]
 
diff --git a/theboss/boson_sampling_utilities/permanent_calculators/bs_cc_ryser_submatrices_permanent_calculator.py b/theboss/boson_sampling_utilities/permanent_calculators/bs_cc_ryser_submatrices_permanent_calculator.py
index f37c607..fbd6f17 100644
--- a/theboss/boson_sampling_utilities/permanent_calculators/bs_cc_ryser_submatrices_permanent_calculator.py
+++ b/theboss/boson_sampling_utilities/permanent_calculators/bs_cc_ryser_submatrices_permanent_calculator.py
@@ -75,7 +75,7 @@ class BSCCRyserSubmatricesPermanentCalculator(
         super()._initialize_permanents_computation()
 
         for j in self._considered_columns_indices:
-            self._sums[j] = 0
+            self._sums[j] = complex128(0)
 
     def _update_sums(self) -> None:
         """
-- 
2.43.0


From 2da3c643e342b33cd3339223ee24498f89e9594a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:01:04 +0000
Subject: [PATCH 25/26] fix: an interrupted unweighted distribution leaves the
 transmissivity as it was

---
 ...ords_uniform_losses_simulation_strategy.py | 23 ++++++++++---------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/theboss/simulation_strategies/generalized_cliffords_uniform_losses_simulation_strategy.py b/theboss/simulation_strategies/generalized_cliffords_uniform_losses_simulation_strategy.py
index 00cbf98..1f49036 100644
--- a/theboss/simulation_strategies/generalized_cliffords_uniform_losses_simulation_strategy.py
+++ b/theboss/simulation_strategies/generalized_cliffords_uniform_losses_simulation_strategy.py
@@ -122,18 +122,19 @@ class GeneralizedCliffordsUniformLossesSimulationStrategy(
         # particles can be reached, no matter what the transmissivity is.
         transmissivity, self._transmissivity = self._transmissivity, 1
 
-        while not isclose(
-            max(
-                accuracy
-                - self._get_filled_weight(self.unweighted_distribution)
-                / (sum(input_state) + 1),  # Each number of particles weights 1.
+        try:
+            while not isclose(
+                max(
+                    accuracy
+                    - self._get_filled_weight(self.unweighted_distribution)
+                    / (sum(input_state) + 1),  # Each number of particles weights 1.
+                    0,
+                ),
                 0,
-            ),
-            0,
-        ):
-            self._fill_r_sample()
-
-        self._transmissivity = transmissivity
+            ):
+                self._fill_r_sample()
+        finally:
+            self._transmissivity = transmissivity
 
         return self.unweighted_distribution
 
-- 
2.43.0


From fe48c862944a42aa6cd4742dca8fcedb634a062b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:40 +0000
Subject: [PATCH 26/26] fix: a failed estimate doesn't replace the outcomes of
 interest

---
 .../bs_sample_based_distribution_calculator.py            | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/theboss/distribution_calculators/bs_sample_based_distribution_calculator.py b/theboss/distribution_calculators/bs_sample_based_distribution_calculator.py
index bfde755..9a15d17 100644
--- a/theboss/distribution_calculators/bs_sample_based_distribution_calculator.py
+++ b/theboss/distribution_calculators/bs_sample_based_distribution_calculator.py
@@ -68,8 +68,12 @@ class BSSampleBasedDistributionCalculator(BSDistributionCalculatorInterface):
     def calculate_probabilities_of_outcomes(
         self, outcomes: Iterable[Iterable[int]]
     ) -> List[float]:
-        self._outcomes = outcomes
-        return self.calculate_approximate_distribution()
+        previous_outcomes, self._outcomes = self._outcomes, outcomes
+        try:
+            return self.calculate_approximate_distribution()
+        except BaseException:
+            self._outcomes = previous_outcomes
+            raise
 
     def calculate_approximate_distribution(
         self, samples_number: Optional[int] = None
-- 
2.43.0

