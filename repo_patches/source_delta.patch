From d71beb402d0357e36bfebf700b752131f814aadf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:07 +0000
Subject: [PATCH 01/11] fix: order_crossover with an empty range returned
 repeated genes or never ended

---
 src/operators/crossover.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/operators/crossover.rs b/src/operators/crossover.rs
index ef05a53..38c2de9 100644
--- a/src/operators/crossover.rs
+++ b/src/operators/crossover.rs
@@ -492,6 +492,11 @@ where
 
     let p1 = range.start;
     let p2 = range.end;
+    if p1 == p2 {
+        // No gene is inherited from parent1
+        return parent2.to_vec();
+    }
+
     let mut genome = vec![parent1[0]; n];
 
     // Copy the genes from the range in parent1 to the offspring
-- 
2.43.0


From 46538c53cde89ab88ca3a5a03b226b1d38c2c248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:07 +0000
Subject: [PATCH 02/11] fix: GPX2 accepted parents of different lengths instead
 of panicking as documented

---
 src/operators/crossover.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/operators/crossover.rs b/src/operators/crossover.rs
index 38c2de9..7e1d3a1 100644
--- a/src/operators/crossover.rs
+++ b/src/operators/crossover.rs
@@ -127,6 +127,9 @@ impl CrossoverStrategy {
 /// # Note
 /// GPX2 is applicable to permutation-based problems.
 ///
+/// # Panics
+/// This method will panic if the parent genomes have different lengths.
+///
 /// # Example
 /// ```
 /// use rusty_genes::*;
@@ -158,6 +161,8 @@ where
     G: Copy + PartialOrd + Eq + Hash,
     F: FnMut(Option<&G>, &[Vec<G>]) -> usize,
 {
+    assert!(parent1.len() == parent2.len());
+
     let mut offspring = Vec::with_capacity(parent1.len());
 
     let mut genes_in_selected_partition = HashSet::with_capacity(offspring.len());
-- 
2.43.0


From 5851502d9cbea45d9ee1f87e2831254835de65b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:07 +0000
Subject: [PATCH 03/11] fix: crossover strategies panicked on empty genomes

---
 src/operators/crossover.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/operators/crossover.rs b/src/operators/crossover.rs
index 7e1d3a1..077c72a 100644
--- a/src/operators/crossover.rs
+++ b/src/operators/crossover.rs
@@ -71,6 +71,10 @@ impl CrossoverStrategy {
         parent2: &[G],
         rng: &mut R,
     ) -> Vec<G> {
+        if parent1.is_empty() && parent2.is_empty() {
+            return Vec::new();
+        }
+
         match self {
             Self::GeneralizedPartition2 => {
                 generalized_partition_2_crossover(parent1, parent2, |_, partitions| {
-- 
2.43.0


From fe6e3a6e62fd18f26744c8be691bc1f1a0362ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:07 +0000
Subject: [PATCH 04/11] fix: common_neighbors found no neighbors when the
 second genome has two genes

---
 src/operators.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/operators.rs b/src/operators.rs
index 2c09bc9..86c89ae 100644
--- a/src/operators.rs
+++ b/src/operators.rs
@@ -137,7 +137,7 @@ pub fn common_neighbors<G>(genome1: &[G], genome2: &[G]) -> Vec<(G, G)>
 where
     G: Copy + PartialOrd + Eq + Hash,
 {
-    if genome1.len() < 2 || genome2.len() <= 2 {
+    if genome1.len() < 2 || genome2.len() < 2 {
         return Vec::new();
     }
 
-- 
2.43.0


From e21bdcb1b51a718f6c7dab2a55a505702c9109ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:07 +0000
Subject: [PATCH 05/11] fix: linear selection with bias 1 always chose the
 fittest and rounding could leave the population

---
 src/operators/selection.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/operators/selection.rs b/src/operators/selection.rs
index abdaa27..2f4fd1d 100644
--- a/src/operators/selection.rs
+++ b/src/operators/selection.rs
@@ -464,14 +464,12 @@ where
 
     #[inline]
     fn select<'a>(&self, population: &'a Population<I>, rng: &mut R) -> (usize, &'a I) {
-        let index = population.len()
-            - ((population.len() as f64)
-                * (self.bias
-                    - ((self.bias * self.bias - 4.0 * (self.bias - 1.0) * rng.gen::<f64>())
-                        .sqrt()))
-                / 2.0
-                / (self.bias - 1.0)) as usize
-            - 1;
+        // Inverse of the cumulative distribution, in a form that is also defined for a bias of 1
+        let r = rng.gen::<f64>();
+        let position = 2.0 * r
+            / (self.bias + (self.bias * self.bias - 4.0 * (self.bias - 1.0) * r).sqrt());
+        let last = population.len() - 1;
+        let index = last - ((population.len() as f64 * position) as usize).min(last);
         (index, &population[index])
     }
 }
-- 
2.43.0


From d097d924218bc1d01b374816a3cc2a525db5c8c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:07 +0000
Subject: [PATCH 06/11] fix: Boltzmann selection lost its distribution when the
 scaled fitness over- or underflowed

---
 src/operators/selection.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/operators/selection.rs b/src/operators/selection.rs
index 2f4fd1d..2d655a8 100644
--- a/src/operators/selection.rs
+++ b/src/operators/selection.rs
@@ -241,6 +241,7 @@ where
 pub struct BoltzmannSelection {
     temperature: f64,
     cooling_rate: f64,
+    reference_fitness: f64,
     total_scaled_fitness: f64,
 }
 
@@ -254,6 +255,7 @@ impl BoltzmannSelection {
         Self {
             temperature,
             cooling_rate,
+            reference_fitness: 0.0,
             total_scaled_fitness: 0.0,
         }
     }
@@ -285,7 +287,7 @@ impl BoltzmannSelection {
     /// Calculates the Boltzmann scaled fitness of an individual.
     #[inline]
     fn scaled_fitness<I: Individual>(&self, individual: &I) -> f64 {
-        (individual.fitness() / self.temperature).exp()
+        ((individual.fitness() - self.reference_fitness) / self.temperature).exp()
     }
 }
 
@@ -297,6 +299,12 @@ where
     #[inline]
     fn prepare(&mut self, population: &Population<I>) {
         self.temperature *= self.cooling_rate;
+        // Scale relative to the most likely individual, so that the exponential cannot overflow
+        self.reference_fitness = if self.temperature < 0.0 {
+            population.stats().min()
+        } else {
+            population.stats().max()
+        };
         self.total_scaled_fitness = population
             .par_iter()
             .map(|i| self.scaled_fitness(i))
-- 
2.43.0


From 59616c3915430b886365dffdf95d42fec97afb4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:07 +0000
Subject: [PATCH 07/11] fix: the offspring was dropped when only one had to be
 bred

---
 src/algorithms.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/algorithms.rs b/src/algorithms.rs
index bea0880..a25ecdd 100644
--- a/src/algorithms.rs
+++ b/src/algorithms.rs
@@ -219,8 +219,10 @@ pub trait EvolutionAlgorithm<M: EvolutionModel> {
             0 => {}
             1 => {
                 let mut rng = rng_pool.pull(M::rng);
-                self.model()
-                    .breed(population, breeding_parameters, &mut *rng);
+                offspring.push(
+                    self.model()
+                        .breed(population, breeding_parameters, &mut *rng),
+                );
             }
             size => {
                 offspring.par_extend(rayon::iter::repeatn(self.model(), size).map_init(
-- 
2.43.0


From 5927df53fe34b1aad78b4703f84b035eb2cf25a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:07 +0000
Subject: [PATCH 08/11] fix: adaptive rates became NaN when the initial
 population had no spread

---
 src/algorithms/aga.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/algorithms/aga.rs b/src/algorithms/aga.rs
index 17464f7..d6ad82b 100644
--- a/src/algorithms/aga.rs
+++ b/src/algorithms/aga.rs
@@ -203,7 +203,12 @@ impl<M: EvolutionModel> EvolutionAlgorithm<M> for AdaptiveGeneticAlgorithm<M> {
                 self.breeding.mutation_rate = self.mutation_rate_range.start;
             }
             n if self.adjustment_interval != 0 && n % self.adjustment_interval == 0 => {
-                let diversity = (population.stats().std() / self.reference_std).clamp(0.0, 1.0);
+                let diversity = population.stats().std() / self.reference_std;
+                let diversity = if diversity.is_nan() {
+                    0.0 // Neither the current nor the initial population has any spread
+                } else {
+                    diversity.clamp(0.0, 1.0)
+                };
 
                 self.breeding.crossover_rate = interpolate_f64(
                     self.crossover_rate_range.start,
-- 
2.43.0


From 326613a8ecd6f2ea3e12001593983ccb1e2e1104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:07 +0000
Subject: [PATCH 09/11] fix: populations kept duplicates separated by other
 individuals of the same fitness

---
 src/population.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/population.rs b/src/population.rs
index d96fb99..a47a563 100644
--- a/src/population.rs
+++ b/src/population.rs
@@ -130,6 +130,7 @@ impl<I: Individual> From<Population<I>> for Vec<I> {
 fn sort_dedup_and_collect_stats<I: Individual>(individuals: &mut Vec<I>) -> PopulatedStats {
     individuals.par_sort_unstable_by(compare_fitness);
     individuals.dedup();
+    dedup_equally_fit(individuals);
     individuals
         .iter()
         .map(|i| i.fitness())
@@ -137,3 +138,19 @@ fn sort_dedup_and_collect_stats<I: Individual>(individuals: &mut Vec<I>) -> Popu
         .try_into()
         .unwrap()
 }
+
+/// Removes the duplicates that other individuals with the same fitness separate after sorting.
+fn dedup_equally_fit<I: Individual>(individuals: &mut Vec<I>) {
+    let mut kept = 0;
+    let mut run_start = 0;
+    for index in 0..individuals.len() {
+        if compare_fitness(&individuals[run_start], &individuals[index]).is_ne() {
+            run_start = kept;
+        }
+        if !individuals[run_start..kept].contains(&individuals[index]) {
+            individuals.swap(kept, index);
+            kept += 1;
+        }
+    }
+    individuals.truncate(kept);
+}
-- 
2.43.0


From 9ae9872af5535765afdc2ca97e448935f750d988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:42 +0000
Subject: [PATCH 10/11] fix: runs returned the fittest of the last generation
 instead of the best individual found

---
 src/evolution.rs | 32 ++++++++++++++++++++++++++++----
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/src/evolution.rs b/src/evolution.rs
index 5fae56e..699f839 100644
--- a/src/evolution.rs
+++ b/src/evolution.rs
@@ -57,8 +57,7 @@ where
             parameters.initial_population_size(),
             args,
         );
-        self.evolve_population(individuals, parameters, progress)
-            .take_fittest()
+        self.evolve_to_best(individuals, parameters, progress)
     }
 
     /// Runs the evolutionary algorithm with an initial population based on a single individual.
@@ -100,8 +99,7 @@ where
             parameters.initial_population_size(),
             individual,
         );
-        self.evolve_population(individuals, parameters, progress)
-            .take_fittest()
+        self.evolve_to_best(individuals, parameters, progress)
     }
 
     /// Runs the evolutionary algorithm on a given population.
@@ -181,6 +179,32 @@ where
 
         population
     }
+
+    /// Runs the evolutionary algorithm on a given population and returns the fittest individual of all
+    /// its generations, which is not necessarily in the last one.
+    fn evolve_to_best<F>(
+        &self,
+        initial_population: Vec<M::Individual>,
+        parameters: &A::Parameters,
+        mut progress: F,
+    ) -> M::Individual
+    where
+        F: FnMut(&Population<M::Individual>) -> bool,
+    {
+        let mut best: Option<M::Individual> = None;
+        let population = self.evolve_population(initial_population, parameters, |population| {
+            let fittest = population.fittest();
+            if !matches!(&best, Some(best) if best.fitness() >= fittest.fitness()) {
+                best = Some(fittest.clone());
+            }
+            progress(population)
+        });
+
+        match best {
+            Some(best) if best.fitness() > population.fittest().fitness() => best,
+            _ => population.take_fittest(),
+        }
+    }
 }
 
 impl<A, M> Default for Evolution<A, M>
-- 
2.43.0


From 59159e18c86bf9d4385fa589ba7e66adef80da85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:23 +0000
Subject: [PATCH 11/11] fix: common_neighbors missed pairs of genes that are
 not ordered relative to each other

---
 src/operators.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/operators.rs b/src/operators.rs
index 86c89ae..95cb4fe 100644
--- a/src/operators.rs
+++ b/src/operators.rs
@@ -171,7 +171,8 @@ where
             ))),
     );
 
-    neighbors1.retain(|neighbor| neighbors2.contains(neighbor));
+    // Genes need not be totally ordered, so incomparable ones may be paired either way around
+    neighbors1.retain(|&(a, b)| neighbors2.contains(&(a, b)) || neighbors2.contains(&(b, a)));
     neighbors1
 }
 
-- 
2.43.0

