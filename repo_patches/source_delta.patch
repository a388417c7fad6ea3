From 1409f831615de92c86d9a607c41c0cbb77b2aa47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:44 +0000
Subject: [PATCH 01/32] fix: insertion_selection lets every offspring compete,
 not only the first

---
 leap_ec/ops.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/leap_ec/ops.py b/leap_ec/ops.py
index 4a098de..8be52c0 100644
--- a/leap_ec/ops.py
+++ b/leap_ec/ops.py
@@ -990,7 +990,7 @@ def insertion_selection(offspring: List, parents: List, key = None) -> List:
                                                         copied_parents[
                                                             selected_parent_index])
 
-        return copied_parents
+    return copied_parents
 
 
 ##############################
-- 
2.43.0


From 3d0fc58103ad9a8c861de110683a034fe221ce4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:44 +0000
Subject: [PATCH 02/32] fix: elitist_survival no longer grows the caller's
 offspring list

---
 leap_ec/ops.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/leap_ec/ops.py b/leap_ec/ops.py
index 8be52c0..0606f04 100644
--- a/leap_ec/ops.py
+++ b/leap_ec/ops.py
@@ -890,7 +890,7 @@ def elitist_survival(offspring: List, parents: List, k: int = 1, key = None) ->
         elites = list(toolz.itertoolz.topk(k, parents, key=key))
     else:
         elites = list(toolz.itertoolz.topk(k, parents))
-    offspring.extend(elites)
+    offspring = offspring + elites
 
     # Now return the offspring (plus possibly an elite) truncating the least
     # fit individual.
-- 
2.43.0


From 17ab8e20415c8dab684697e681a3943d327f3f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:44 +0000
Subject: [PATCH 03/32] fix: rank_ordinal_sort no longer grows the caller's
 population list

---
 leap_ec/multiobjective/ops.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/leap_ec/multiobjective/ops.py b/leap_ec/multiobjective/ops.py
index 3f9749c..4609ddc 100644
--- a/leap_ec/multiobjective/ops.py
+++ b/leap_ec/multiobjective/ops.py
@@ -126,7 +126,7 @@ def rank_ordinal_sort(population: list, parents: list = None) -> list:
     :returns: individuals binned by ranks
     """
     if parents is not None:
-        population += parents
+        population = population + parents
 
     # De-duplicate indentical fitness values, using the returned fitnesses for the sorting
     unique_fitnesses, orig_inv_idx = np.unique([
-- 
2.43.0


From 92bb2d1c3413293ab4f1cf065b57134b0836f0b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:44 +0000
Subject: [PATCH 04/32] fix: crowding distance no longer drops ranks whose
 fitnesses are all the same

---
 leap_ec/multiobjective/ops.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/leap_ec/multiobjective/ops.py b/leap_ec/multiobjective/ops.py
index 4609ddc..704773e 100644
--- a/leap_ec/multiobjective/ops.py
+++ b/leap_ec/multiobjective/ops.py
@@ -209,7 +209,9 @@ def per_rank_crowding_calc(ranked_population: list, is_maximizing) -> list:
 
     objective_ranges = f_max - f_min
 
-    sorted_pop = []
+    # If no objective has a range (e.g., a lone individual or all duplicates)
+    # there is nothing to sort by, but the individuals still belong to the rank.
+    sorted_pop = ranked_population
 
     for objective in range(num_objectives):
         if objective_ranges[objective] == 0:
-- 
2.43.0


From b19d3bb69a642b1511c4d8afbd7c17b3ba5b15e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:44 +0000
Subject: [PATCH 05/32] fix: ENLU keeps layer members dominated only by the
 zenith in their layer

---
 leap_ec/multiobjective/asynchronous.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/leap_ec/multiobjective/asynchronous.py b/leap_ec/multiobjective/asynchronous.py
index b208aff..f351e12 100644
--- a/leap_ec/multiobjective/asynchronous.py
+++ b/leap_ec/multiobjective/asynchronous.py
@@ -90,8 +90,8 @@ def enlu_inds_rank(start_point, layer_pops):
         # Further check if those individuals are properly dominated
         true_dominated = _set_domination(moving_points, dominated)
 
-        # CASE III: If nondominated is empty, insert moving points as a layer and re-update all ranks
-        if not nondominated:
+        # CASE III: If the entire layer is dominated, insert moving points as a layer and re-update all ranks
+        if not nondominated and all(true_dominated):
             layer_pops.insert(depth, moving_points)
             for i, lp in enumerate(layer_pops[depth:]):
                 for ind in lp:
-- 
2.43.0


From bbb03cb945496958a0b542cd8009f9c219db8281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:44 +0000
Subject: [PATCH 06/32] fix: evaluate_multiple accepts the individuals that
 grouped_evaluate passes

---
 leap_ec/problem.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/leap_ec/problem.py b/leap_ec/problem.py
index 71adc50..9e3f1b6 100644
--- a/leap_ec/problem.py
+++ b/leap_ec/problem.py
@@ -55,7 +55,7 @@ class Problem(ABC):
         """
         raise NotImplementedError
 
-    def evaluate_multiple(self, phenomes):
+    def evaluate_multiple(self, phenomes, *args, **kwargs):
         """Evaluate multiple phenomes all at once, returning a list of fitness
         values.
 
@@ -344,7 +344,7 @@ class AverageFitnessProblem(Problem):
         fitnesses = [ self.wrapped_problem.evaluate(phenome) for _ in range(self.n) ]
         return np.mean(fitnesses)
 
-    def evaluate_multiple(self, phenomes: list):
+    def evaluate_multiple(self, phenomes: list, *args, **kwargs):
         """
         Evaluate a collections of phenomes by creating n jobs for each phenome,
         sending all the jobs to the wrapped evaluate_multiple() function, and then
-- 
2.43.0


From 76805298acd13e84d2fbfa675fa2148eb3bb439f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:44 +0000
Subject: [PATCH 07/32] fix: clones and grouped_evaluate no longer reuse a
 stale phenome

---
 leap_ec/individual.py | 1 +
 leap_ec/ops.py        | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/leap_ec/individual.py b/leap_ec/individual.py
index b734ada..237ab63 100644
--- a/leap_ec/individual.py
+++ b/leap_ec/individual.py
@@ -144,6 +144,7 @@ class Individual:
         cloned = copy(self)
         cloned.genome = deepcopy(self.genome)
         cloned.fitness = None
+        cloned._phenome = None  # the parent's decoded phenome does not carry over
 
         cloned.uuid = uuid.uuid4()
         cloned.parents = {self.uuid}
diff --git a/leap_ec/ops.py b/leap_ec/ops.py
index 0606f04..e0bbdf4 100644
--- a/leap_ec/ops.py
+++ b/leap_ec/ops.py
@@ -290,7 +290,7 @@ def grouped_evaluate(population: list, max_individuals_per_chunk: int = None) ->
     for chunk in chunks(population, max_individuals_per_chunk):
         # XXX Always passing individuals along to the problem.
         #     Does this create problems with dask, even when we aren't using individuals?
-        fit = problem.evaluate_multiple([c.phenome for c in chunk], individuals=chunk)
+        fit = problem.evaluate_multiple([c.decode() for c in chunk], individuals=chunk)
         fitnesses.extend(fit)
 
     for fit, ind in zip(fitnesses, population):
-- 
2.43.0


From 49ce1e8b4dfbf224d1849db9180de210df53a06b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:45 +0000
Subject: [PATCH 08/32] fix: UniformCrossover works on parents of unequal
 length

---
 leap_ec/ops.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/leap_ec/ops.py b/leap_ec/ops.py
index e0bbdf4..7063350 100644
--- a/leap_ec/ops.py
+++ b/leap_ec/ops.py
@@ -489,7 +489,7 @@ class UniformCrossover(Crossover):
 
         # generate which indices we should swap
         min_length = min(parent_a.genome.shape[0], parent_b.genome.shape[0])
-        indices_to_swap = random_bernoulli_vector(min_length, self.p_swap)
+        indices_to_swap = np.flatnonzero(random_bernoulli_vector(min_length, self.p_swap))
 
         # perform swap
         tmp = parent_a.genome[indices_to_swap]
-- 
2.43.0


From dfebbfc655d7b6eb083fdf9da8b9687fe961f980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:45 +0000
Subject: [PATCH 09/32] fix: NAryCrossover keeps all genes of parents of
 unequal length

---
 leap_ec/ops.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/leap_ec/ops.py b/leap_ec/ops.py
index 7063350..0aa9775 100644
--- a/leap_ec/ops.py
+++ b/leap_ec/ops.py
@@ -588,8 +588,11 @@ class NAryCrossover(Crossover):
         # Used to toggle which sub-test_sequence is copied between offspring
         src1, src2 = 0, 1
 
-        # Pick crossover points
-        xpts = self._pick_crossover_points(len(parent_a.genome))
+        # Pick crossover points that lie in both parents; the last section runs
+        # to the end of each genome, so that no genes are lost
+        lengths = (len(parent_a.genome), len(parent_b.genome))
+        xpts = self._pick_crossover_points(min(lengths))
+        xpts[-1] = max(lengths)
 
         for start, stop in toolz.itertoolz.sliding_window(2, xpts):
             genome1_sections.append(children[src1].genome[start:stop])
-- 
2.43.0


From 7edeb7b32be7625b82ec5616ef38f990dbd8cac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:45 +0000
Subject: [PATCH 10/32] fix: copy_segment inserts an independent copy of the
 segment

---
 leap_ec/segmented_rep/ops.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/leap_ec/segmented_rep/ops.py b/leap_ec/segmented_rep/ops.py
index daa8b6e..351b23c 100644
--- a/leap_ec/segmented_rep/ops.py
+++ b/leap_ec/segmented_rep/ops.py
@@ -2,6 +2,7 @@
 """
     Segmented representation specific pipeline operators.
 """
+from copy import deepcopy
 from typing import Iterator, Callable
 import random
 
@@ -203,8 +204,8 @@ def copy_segment(next_individual: Iterator,
         individual = next(next_individual)
 
         if random.random() < probability:
-            copied_segment = \
-                individual.genome[random.randrange(len(individual.genome))]
+            copied_segment = deepcopy(
+                individual.genome[random.randrange(len(individual.genome))])
 
             if append:
                 individual.genome.append(copied_segment)
-- 
2.43.0


From 1b8cd20df35eb7f78f1d5cd8eec996fa1d146e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:45 +0000
Subject: [PATCH 11/32] fix: birth_brander works on pipelines and on more than
 one population

---
 leap_ec/util.py | 22 ++++------------------
 1 file changed, 4 insertions(+), 18 deletions(-)

diff --git a/leap_ec/util.py b/leap_ec/util.py
index e45e889..30e6e98 100644
--- a/leap_ec/util.py
+++ b/leap_ec/util.py
@@ -326,10 +326,6 @@ def birth_brander():
     # incremented with each birth
     num_births = itertools.count()
 
-    # sometimes next_thing is a population, so we need this to track that
-    # the next individual in the population
-    iterator = None
-
     def brand(individual):
         """ brand the given individual
         :param individual: to be branded
@@ -358,22 +354,12 @@ def birth_brander():
         :param next_thing: either the next individual in the pipeline or a population of individuals to be branded
         :return: branded individual
         """
-        nonlocal num_births
-        nonlocal iterator
+        # sometimes next_thing is a population, so we need this to track the
+        # next individual in the population
+        iterator = iter(next_thing)
 
         while True:
-            if is_iterable(next_thing):
-                # We're being passed in a single individual in a pipeline
-                next_thing = next(next_thing)
-            else:
-                # We're being passed a test_sequence/population
-                if iterator is None:
-                    iterator = iter(next_thing)
-                next_thing = next(iterator)
-
-            next_thing = brand(next_thing)
-
-            yield next_thing
+            yield brand(next(iterator))
 
     do_birth_branding.brand_population = brand_population
 
-- 
2.43.0


From 1ef05c11d7aca0abea3eef90fbaf6697d253bb64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:45 +0000
Subject: [PATCH 12/32] fix: random_search counts in the context it is given

---
 leap_ec/algorithm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/leap_ec/algorithm.py b/leap_ec/algorithm.py
index 380207d..dc31ad4 100644
--- a/leap_ec/algorithm.py
+++ b/leap_ec/algorithm.py
@@ -355,7 +355,8 @@ def random_search(evaluations, problem, representation, pipeline,
 
     # Set up an evaluation counter that records the current generation to
     # context; start at 1 to account for individual we already created.
-    evaluation_counter = util.inc_generation(start_generation=1)
+    evaluation_counter = util.inc_generation(start_generation=1,
+                                             context=context)
 
     while evaluation_counter.generation() < evaluations:
         # Apply the provided reproductive operators to create a new individual.
-- 
2.43.0


From 122bbea230d5eaab7986588eb89d4f5e866a350a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:45 +0000
Subject: [PATCH 13/32] fix: a successful evaluation clears an earlier
 evaluation's exception

---
 leap_ec/individual.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/leap_ec/individual.py b/leap_ec/individual.py
index 237ab63..7fb3fa0 100644
--- a/leap_ec/individual.py
+++ b/leap_ec/individual.py
@@ -293,6 +293,7 @@ class RobustIndividual(Individual):
         """
         try:
             self.fitness = self.evaluate_imp()
+            self.exception = None
             self.is_viable = True  # we were able to evaluate
         except Exception as e:
             self.fitness = nan
-- 
2.43.0


From 3beef9ef83a06982684614fa5f98fa7999cf2fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:45 +0000
Subject: [PATCH 14/32] fix: a failed evaluation no longer aborts runs whose
 context has no non-viable count

---
 leap_ec/distrib/evaluate.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/leap_ec/distrib/evaluate.py b/leap_ec/distrib/evaluate.py
index 0d33a38..c765cd9 100644
--- a/leap_ec/distrib/evaluate.py
+++ b/leap_ec/distrib/evaluate.py
@@ -53,7 +53,8 @@ def evaluate(individual, context=context):
         # is_viable will be False if an exception was thrown during evaluation.
         # We track the number of such failures on the off chance that this
         # might be useful.
-        context['leap']['distrib']['non_viable'] += 1
+        distrib = context['leap'].setdefault('distrib', {})
+        distrib['non_viable'] = distrib.get('non_viable', 0) + 1
 
         if hasattr(worker, 'logger'):
             worker.logger.warning(
-- 
2.43.0


From 83fe835c5357068aaf016756810196c25353b3bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:45 +0000
Subject: [PATCH 15/32] fix: CooperativeProblem can log its trials

---
 leap_ec/problem.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/leap_ec/problem.py b/leap_ec/problem.py
index 9e3f1b6..5587a52 100644
--- a/leap_ec/problem.py
+++ b/leap_ec/problem.py
@@ -464,8 +464,6 @@ class CooperativeProblem(Problem):
         assert('individual' in kwargs), "CooperativeProblem.evaluate() requires an 'individual' to be passed in via kwargs, but none was found.  Are you using an evaluation operator that supports passing individuals to problems (rather than just phenomes)?"
         individual = kwargs['individual']
 
-        current_genome = individual.genome
-
         # Pull references to all subpopulations from the context object
         subpopulations = self.context['leap']['subpopulations']
         current_subpop_index = self.context['leap']['current_subpopulation']
@@ -473,8 +471,8 @@ class CooperativeProblem(Problem):
         # Choose collaborators and evaulate
         fitnesses = []
         for i in range(self.num_trials):
-            all_collaborators = self._choose_collaborators(current_genome, current_subpop_index, subpopulations)
-            combined_genome = self.combine_genomes(all_collaborators)
+            all_collaborators = self._choose_collaborators(individual, current_subpop_index, subpopulations)
+            combined_genome = self.combine_genomes([ind.genome for ind in all_collaborators])
             combined_ind = Individual(combined_genome, decoder=self.combined_decoder, problem=self.wrapped_problem)
             fitness = combined_ind.evaluate()
 
@@ -499,10 +497,10 @@ class CooperativeProblem(Problem):
         if you need to, say, send a group of individuals off to parallel """
         return [ self.evaluate(p, individual=i) for p, i in zip(phenomes, individuals) ]
 
-    def _choose_collaborators(self, current_genome, current_subpop_index, subpopulations):
+    def _choose_collaborators(self, current_ind, current_subpop_index, subpopulations):
         """Choose collaborators from the subpopulations, returning a list that contains
-        the genome for the current individual and all of the genomes for collaborators,
-        in the order that they will be combined."""
+        the current individual and all of its collaborators, in the order that they
+        will be combined."""
 
         # Create iterators that select individuals from each subpopulation
         selection_iterators = [self.collaborator_selector(subpop) for subpop in subpopulations]
@@ -514,10 +512,10 @@ class CooperativeProblem(Problem):
                 ind = next(selection_iterators[i])
                 # Make sure we actually got something with a genome back
                 assert (hasattr(ind, 'genome'))
-                all_collaborators.append(ind.genome)
+                all_collaborators.append(ind)
             else:
                 # Stick this subpop's individual in as-is
-                all_collaborators.append(current_genome)
+                all_collaborators.append(current_ind)
 
         assert (len(all_collaborators) == len(subpopulations))
 
-- 
2.43.0


From ede7aa73b1e327834dab16ad7056f6e47550a80f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:01 +0000
Subject: [PATCH 16/32] fix: Pitt rule initializer pairs conditions per input
 for multi-dimensional input spaces

---
 leap_ec/executable_rep/rules.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/leap_ec/executable_rep/rules.py b/leap_ec/executable_rep/rules.py
index 5a915ec..6dcb548 100644
--- a/leap_ec/executable_rep/rules.py
+++ b/leap_ec/executable_rep/rules.py
@@ -229,7 +229,7 @@ class PittRulesDecoder(Decoder):
                 # Sample values uniformly within each variable's range
                 low = self.input_space.sample()
                 high = self.input_space.sample()
-                condition_pairs = list(zip(low, high))
+                condition_pairs = list(zip(low.flatten(), high.flatten()))
                 condition_genes = np.array(condition_pairs).flatten()
 
 
-- 
2.43.0


From 2a96a0cdae847eba6792ba4808b6c630e657aa74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:01 +0000
Subject: [PATCH 17/32] fix: PlotPittRuleProbe plots every modulo-th generation
 instead of raising NameError

---
 leap_ec/executable_rep/rules.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/leap_ec/executable_rep/rules.py b/leap_ec/executable_rep/rules.py
index 6dcb548..41914db 100644
--- a/leap_ec/executable_rep/rules.py
+++ b/leap_ec/executable_rep/rules.py
@@ -847,7 +847,7 @@ class PlotPittRuleProbe:
         if self.modulo > 1:
             assert ('generation' in self.context['leap'])
             step = self.context['leap']['generation']
-            if step % modulo == 0:
+            if step % self.modulo != 0:
                 return population
 
         # Otherwise, do our thang!
-- 
2.43.0


From 093f0a6cdfefd2aff1b5b165e71b6e4b9846cfce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:08 +0000
Subject: [PATCH 18/32] fix: EnvironmentProblem.num_inputs/num_outputs return
 their value

---
 leap_ec/executable_rep/problems.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/leap_ec/executable_rep/problems.py b/leap_ec/executable_rep/problems.py
index 008312b..7bb67a7 100644
--- a/leap_ec/executable_rep/problems.py
+++ b/leap_ec/executable_rep/problems.py
@@ -41,12 +41,12 @@ class EnvironmentProblem(ScalarProblem):
     @property
     def num_inputs(self):
         """Return the number of dimensions in the environment's input space."""
-        self.space_dimensions(self.environment.observation_space)
+        return self.space_dimensions(self.environment.observation_space)
 
     @property
     def num_outputs(self):
         """Return the number of dimensions in the environment's action space."""
-        self.space_dimensions(self.environment.action_space)
+        return self.space_dimensions(self.environment.action_space)
 
     @classmethod
     def _reward_fitness(cls, observations, rewards):
-- 
2.43.0


From ef0c2b2faf94d091155346b367c911a8f63754c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:42 +0000
Subject: [PATCH 19/32] fix: seeding repertoire loaded from a file holds array
 genomes, as operators require

---
 leap_ec/contrib/transfer/sequential.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/leap_ec/contrib/transfer/sequential.py b/leap_ec/contrib/transfer/sequential.py
index fdf0315..556e693 100644
--- a/leap_ec/contrib/transfer/sequential.py
+++ b/leap_ec/contrib/transfer/sequential.py
@@ -9,6 +9,8 @@ on future problems.
 import abc
 import csv
 
+import numpy as np
+
 
 class Repertoire(abc.ABC):
     """Abstract definition of a 'repertoire' algorithm for evolutionary transfer.
@@ -59,8 +61,8 @@ class PopulationSeedingRepertoire:
         assert(algorithm is not None)
         if repfile:
             with open(repfile, 'r') as f:
-                self.repertoire = list(csv.reader(
-                    f, quoting=csv.QUOTE_NONNUMERIC))
+                self.repertoire = [np.array(row) for row in csv.reader(
+                    f, quoting=csv.QUOTE_NONNUMERIC)]
         else:
             self.repertoire = []
         self.initialize = initialize
-- 
2.43.0


From 175981bd608fb7d9c2153cd4c2343762137fa604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:36 +0000
Subject: [PATCH 20/32] fix: GaussianProblem uses the width and height it is
 given

---
 leap_ec/real_rep/problems.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/leap_ec/real_rep/problems.py b/leap_ec/real_rep/problems.py
index 9bf44bd..da8db4d 100644
--- a/leap_ec/real_rep/problems.py
+++ b/leap_ec/real_rep/problems.py
@@ -934,8 +934,8 @@ class GaussianProblem(ScalarProblem):
     def __init__(self, width=1, height=1, maximize=True):
         assert(width > 0)
         super().__init__(maximize)
-        self.width = 1
-        self.height = 1
+        self.width = width
+        self.height = height
 
     def evaluate(self, phenome):
         assert(phenome is not None)
-- 
2.43.0


From 16378d894b7d34c2e164ffe00732dfa598577318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:36 +0000
Subject: [PATCH 21/32] fix: ELAConvexity.linear_p compares |delta| with the
 magnitude of its (negative) threshold

---
 leap_ec/landscape_features/exploratory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/leap_ec/landscape_features/exploratory.py b/leap_ec/landscape_features/exploratory.py
index 3bf2d0d..d4c0772 100644
--- a/leap_ec/landscape_features/exploratory.py
+++ b/leap_ec/landscape_features/exploratory.py
@@ -255,7 +255,7 @@ class ELAConvexity():
         assert(threshold < 0)
         lessthan_count = 0
         for d in self.deltas:
-            if np.abs(d) < threshold:
+            if np.abs(d) < np.abs(threshold):
                 lessthan_count += 1
         
         ratio = lessthan_count/len(self.deltas)
-- 
2.43.0


From 1ce34072f94783db44d3ebfeb1138a9c64a2a126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:36 +0000
Subject: [PATCH 22/32] fix: random_orthonormal_matrix works for one dimension

---
 leap_ec/real_rep/problems.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/leap_ec/real_rep/problems.py b/leap_ec/real_rep/problems.py
index da8db4d..5b60dc5 100644
--- a/leap_ec/real_rep/problems.py
+++ b/leap_ec/real_rep/problems.py
@@ -1410,7 +1410,7 @@ def random_orthonormal_matrix(dimensions: int):
                             f"norm of {np.linalg.norm(matrix[0])}, " \
                             f"but it should always be approximately 1.0. "
     # Any pair of vectors will be linearly independent
-    assert (abs(round(np.dot(matrix[0], matrix[1]), 5)) ==
+    assert (dimensions < 2 or abs(round(np.dot(matrix[0], matrix[1]), 5)) ==
             0.0), f"A pair of columns in the transformation matrix has " \
                     f"dot product of {round(np.dot(matrix[0], matrix[1]),5)},"\
                     f" but it should always be approximately 0.0. "
-- 
2.43.0


From ac5e577a6a7cea200ee92b1973cedd75f2763fa6 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 05:44:56 +0000
Subject: [PATCH 23/32] fix: ParetoPlotProbe2D without axes draws on the figure
 it creates

---
 leap_ec/multiobjective/probe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/leap_ec/multiobjective/probe.py b/leap_ec/multiobjective/probe.py
index 23e1de5..04668b6 100644
--- a/leap_ec/multiobjective/probe.py
+++ b/leap_ec/multiobjective/probe.py
@@ -41,7 +41,7 @@ class ParetoPlotProbe2D(PopulationMetricsPlotProbe):
                          title=title, modulo=step,
                          context=context)
 
-        self.scatterplot = ax.scatter([], []) # scatterplot for fitnesses
+        self.scatterplot = self.ax.scatter([], []) # scatterplot for fitnesses
 
     def __call__(self, population):
         assert (population is not None)
-- 
2.43.0


From 00d03dd21c5d07139d59d089eb1f9292d203af35 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 06:04:53 +0000
Subject: [PATCH 24/32] fix: equals_uniform accepts counts whose uniform
 expectation does not sum exactly in floating point

---
 leap_ec/statistical_helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/leap_ec/statistical_helpers.py b/leap_ec/statistical_helpers.py
index c046daf..e882595 100644
--- a/leap_ec/statistical_helpers.py
+++ b/leap_ec/statistical_helpers.py
@@ -74,7 +74,7 @@ def stochastic_chisquare(expected_distribution, distribution):
     >>> stochastic_chisquare(expected_distribution, distribution)
     1.0
     """
-    assert(sum(expected_distribution.values()) == sum(distribution.values())), f"The distributions have {sum(expected_distribution.values())} and {sum(distribution.values())} samples, respectively, but must be equal."
+    assert(np.isclose(sum(expected_distribution.values()), sum(distribution.values()), rtol=1e-9)), f"The distributions have {sum(expected_distribution.values())} and {sum(distribution.values())} samples, respectively, but must be equal."
     
     values, expected_values = _normalize_dicts(distribution, expected_distribution)
 
-- 
2.43.0


From fa4d81c715c316a07628f000b72bc643b5102374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:13:18 +0000
Subject: [PATCH 25/32] fix: proportional and SUS selection reject negative
 shifted values for even exponents too

---
 leap_ec/ops.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/leap_ec/ops.py b/leap_ec/ops.py
index 0aa9775..20f2590 100644
--- a/leap_ec/ops.py
+++ b/leap_ec/ops.py
@@ -1495,7 +1495,13 @@ def compute_population_values(population: List, offset=0, exponent: int = 1,
     values = np.array([key(ind) for ind in population])
     if offset == 'pop-min':
         offset = -values.min(axis=0)
-    return (values + offset) ** exponent
+    values = values + offset
+
+    # an even exponent would hide a negative value from our callers
+    if (values < 0.0).any():
+        raise ValueError('negative value found after applying offset.')
+
+    return values ** exponent
 
 
 ##############################
-- 
2.43.0


From 24314b1f40c94cd75720788b1cf68a43efe5e483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:08:30 +0000
Subject: [PATCH 26/32] fix: PlotPittRuleProbe honours plot_dimensions

---
 leap_ec/executable_rep/rules.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/leap_ec/executable_rep/rules.py b/leap_ec/executable_rep/rules.py
index 41914db..4ad3756 100644
--- a/leap_ec/executable_rep/rules.py
+++ b/leap_ec/executable_rep/rules.py
@@ -778,7 +778,7 @@ class PlotPittRuleProbe:
         assert(len(plot_dimensions) == 2)
         self.decoder = decoder
         if self.decoder.num_inputs > 2:
-            logging.warn(f"The given rule system specification has more than 2 dimensions per rule, but {PlotPittRuleProbe.__name__} will only visualize the first two conditions on each rule.")
+            logging.warn(f"The given rule system specification has more than 2 dimensions per rule, but {PlotPittRuleProbe.__name__} will only visualize two conditions (plot_dimensions) on each rule.")
         if self.decoder.num_outputs > 1:
             logging.warn(f"The given rule system specification has more than 1 output action per rule, but {PlotPittRuleProbe.__name__} will only use the first action to determine box color.")
 
@@ -816,9 +816,10 @@ class PlotPittRuleProbe:
             if len(rule.conditions) < 2:
                 raise ValueError(f"Found a rule with less than two input dimensions when trying to run {PlotPittRuleProbe.__name__}.  We need at least two conditions to plot a rule box!")
                 
-            # Get bounds for the first two conditions
-            x_low, x_high = rule.conditions[0]
-            y_low, y_high = rule.conditions[1]
+            # Get bounds for the two conditions we are asked to visualize
+            x_dim, y_dim = self.plot_dimensions
+            x_low, x_high = rule.conditions[x_dim]
+            y_low, y_high = rule.conditions[y_dim]
 
             # Visualize wildcard rules as covering the whole range
             if x_low > x_high:
-- 
2.43.0


From ed9dadf9bbd6a6706d73b2e0be069ffc29ba85fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:11:51 +0000
Subject: [PATCH 27/32] fix: interleaved uses of a crossover operator keep
 their own second children

---
 leap_ec/ops.py | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/leap_ec/ops.py b/leap_ec/ops.py
index 20f2590..ed60bbf 100644
--- a/leap_ec/ops.py
+++ b/leap_ec/ops.py
@@ -359,7 +359,7 @@ class Crossover(Operator):
 
     def __init__(self, persist_children, p_xover):
         self.persist_children = persist_children
-        self.second_child = None
+        self.waiting_children = []  # second children nobody has taken yet
         self.p_xover = p_xover
 
     @abc.abstractmethod
@@ -379,35 +379,39 @@ class Crossover(Operator):
         # There has to be an inner function so we can properly use @iteriter_op
         @iteriter_op
         def _call(next_individual):
-            if self.persist_children and self.second_child is not None:
+            while self.waiting_children:
                 # Return a child left from another run
-                # Swap with None has to happen before the yield to be certain its executed
-                ret_child, self.second_child = self.second_child, None
-                yield ret_child
+                yield self.waiting_children.pop(0)
 
             while True:
                 parent_a = next(next_individual)
                 parent_b = next(next_individual)
 
                 if np.random.uniform() > self.p_xover:
-                    first_child, self.second_child = parent_a, parent_b
+                    first_child, second_child = parent_a, parent_b
                 else:
-                    first_child, self.second_child = self.recombine(parent_a, parent_b)
+                    first_child, second_child = self.recombine(parent_a, parent_b)
                     
-                    first_child.parents |= self.second_child.parents
-                    self.second_child.parents |= first_child.parents
+                    first_child.parents |= second_child.parents
+                    second_child.parents |= first_child.parents
 
-                    first_child.fitness = self.second_child.fitness = None
+                    first_child.fitness = second_child.fitness = None
 
                 # Generators only execute code if necessary, so children will only be generated
                 # if the first child needs to be yielded. That's why it doesn't need to be stored
                 # in the class as well.
+                if self.persist_children:
+                    self.waiting_children.append(second_child)
                 yield first_child
 
                 # Remove the second child from the class and yield it if the generator does
-                # get requested for it
-                ret_child, self.second_child = self.second_child, None
-                yield ret_child
+                # get requested for it, unless another run has returned it meanwhile
+                if self.persist_children:
+                    still_waiting = [c for c in self.waiting_children if c is not second_child]
+                    if len(still_waiting) == len(self.waiting_children):
+                        continue
+                    self.waiting_children = still_waiting
+                yield second_child
 
         return _call(next_individual)
 
-- 
2.43.0


From 729966fc257ec1a75a464dc4def2b451c7b795f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:14:34 +0000
Subject: [PATCH 28/32] fix: binomial mutation clips before casting back to a
 narrow genome type

---
 leap_ec/int_rep/ops.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/leap_ec/int_rep/ops.py b/leap_ec/int_rep/ops.py
index 62217f3..14328bb 100644
--- a/leap_ec/int_rep/ops.py
+++ b/leap_ec/int_rep/ops.py
@@ -283,9 +283,12 @@ def genome_mutate_binomial(std,
         # Apply binomial perturbations
         additive = np.random.binomial(n, selected_p_values, size=sum(indices_to_mutate)) - np.floor(binom_mean)
         mutated = genome[indices_to_mutate] + additive
-        genome[indices_to_mutate] = mutated
+        # clip before going back to the genome's own type, which may be too
+        # narrow for a value outside of the bounds
+        wide_genome = genome.astype(np.result_type(genome, mutated))
+        wide_genome[indices_to_mutate] = mutated
 
-        genome = apply_hard_bounds(genome, bounds).astype(datatype)
+        genome = apply_hard_bounds(wide_genome, bounds).astype(datatype)
 
         # consistency check on data type
         assert datatype == genome.dtype
-- 
2.43.0


From 3e8694213abea61c61c71ed877c07c8a3328bf39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:15:55 +0000
Subject: [PATCH 29/32] fix: Gaussian mutation keeps the genome's float type
 under per-gene bounds

---
 leap_ec/real_rep/ops.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/leap_ec/real_rep/ops.py b/leap_ec/real_rep/ops.py
index e17f730..07022b5 100644
--- a/leap_ec/real_rep/ops.py
+++ b/leap_ec/real_rep/ops.py
@@ -134,9 +134,12 @@ def genome_mutate_gaussian(genome,
     genome[indices_to_mutate] = new_gene_values
 
     # Implement hard bounds
-    genome = apply_hard_bounds(genome, bounds)
+    clipped = apply_hard_bounds(genome, bounds)
+    if np.issubdtype(genome.dtype, np.floating):
+        # lists of bounds would turn a genome of narrower floats into float64
+        clipped = clipped.astype(genome.dtype)
 
-    return genome
+    return clipped
 
 
 ##############################
-- 
2.43.0


From aae27bfeb4b4853da143509b895242c58f28a246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:16:57 +0000
Subject: [PATCH 30/32] fix: proportional and SUS selection do not overflow on
 integer fitness values

---
 leap_ec/ops.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/leap_ec/ops.py b/leap_ec/ops.py
index ed60bbf..95f1120 100644
--- a/leap_ec/ops.py
+++ b/leap_ec/ops.py
@@ -1496,7 +1496,8 @@ def compute_population_values(population: List, offset=0, exponent: int = 1,
             scaled by `exponent` corresponding to each individual in the
             population.
     """
-    values = np.array([key(ind) for ind in population])
+    # floats, as integer powers overflow silently
+    values = np.array([key(ind) for ind in population], dtype=float)
     if offset == 'pop-min':
         offset = -values.min(axis=0)
     values = values + offset
-- 
2.43.0


From 6bc75f888725795fbff7f896d82fe803c1b4160f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:22:24 +0000
Subject: [PATCH 31/32] fix: fast_nondominated_sort counts an individual that
 is present more than once only once

---
 leap_ec/multiobjective/ops.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/leap_ec/multiobjective/ops.py b/leap_ec/multiobjective/ops.py
index 704773e..a7caaef 100644
--- a/leap_ec/multiobjective/ops.py
+++ b/leap_ec/multiobjective/ops.py
@@ -67,8 +67,12 @@ def fast_nondominated_sort(population: list, parents: list = None) -> list:
 
     ranks = {1: []}  # rank 1 initially empty
 
+    # An individual may be there more than once (e.g., selected, but never
+    # cloned); it still counts once.
+    distinct = list({id(ind): ind for ind in working_pop}.values())
+
     # First, find rank 1
-    for individual in working_pop:
+    for individual in distinct:
         individual.dominates = []
         individual.dominated_by = 0
         # there is no rank 0, we're just including in initialization as a
@@ -76,7 +80,7 @@ def fast_nondominated_sort(population: list, parents: list = None) -> list:
         # debugging, we know something went wrong
         individual.rank = 0
 
-        for other_individual in working_pop:
+        for other_individual in distinct:
             if individual is other_individual:
                 continue
             if individual > other_individual:
-- 
2.43.0


From 56c63b607901fcc470c8307f63215d21177a164a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:25:31 +0000
Subject: [PATCH 32/32] fix: migrate leaves islands without neighbors in place
 instead of raising

---
 leap_ec/ops.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/leap_ec/ops.py b/leap_ec/ops.py
index 95f1120..b9d99f7 100644
--- a/leap_ec/ops.py
+++ b/leap_ec/ops.py
@@ -1234,7 +1234,9 @@ def migrate(topology, emigrant_selector,
         immigrants[current_subpop] = []
 
         # Emigration
-        if generation % migration_gap == 0:
+        # (an island without neighbors has nowhere to send anyone)
+        neighbors = list(topology.neighbors(current_subpop))
+        if generation % migration_gap == 0 and neighbors:
             logger.debug(f"migration_gap reached: doing emigration on subpop {current_subpop}.")
             # Choose an emigrant individual
             sponsor = next(emigrant_selector(population))
@@ -1243,10 +1245,8 @@ def migrate(topology, emigrant_selector,
             emi = sponsor.clone()
             emi.fitness = sponsor.fitness
             logger.debug(f"Emigrant individual (copy of sponsor): {emi}")
-            neighbors = topology.neighbors(
-                current_subpop)  # Get neighboring islands
             # Randomly select a neighboring island
-            dest = random.choice(list(neighbors))
+            dest = random.choice(neighbors)
             logger.debug(f"Destination island: {dest}")
             # Add the emigrant to its immigration list
             immigrants[dest].append(emi)
-- 
2.43.0

