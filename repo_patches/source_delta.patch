From 58cff6c38ae4c4f98ad905622a9594ea66b3c595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:07 +0000
Subject: [PATCH 01/26] fix: per-label mean and variance of sparse features

The mean kept the rows of every other label and paired the k-th stored
entry with the k-th target; the variance counted absent entries of all labels.
---
 src/sample/feature_struct.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/sample/feature_struct.rs b/src/sample/feature_struct.rs
index 93c2a6d..9c3e575 100644
--- a/src/sample/feature_struct.rs
+++ b/src/sample/feature_struct.rs
@@ -450,9 +450,8 @@ impl SparseFeature {
         let mut total_weight = utils::total_weight_for_label(y, target, weight);
         if total_weight == 0.0 { total_weight = MINIMAL_WEIGHT_SUM; }
         self.sample.iter()
-            .zip(target)
-            .map(|((i, f), &t)|
-                if t == y { 0.0 } else { weight[*i] * f }
+            .map(|&(i, f)|
+                if target[i] != y { 0.0 } else { weight[i] * f }
             )
             .sum::<f64>()
             / total_weight
@@ -497,14 +496,18 @@ impl SparseFeature {
         let mut zero_weight = 0.0;
         let mut prev = 0;
         for &(i, f) in self.sample.iter() {
-            zero_weight += weight[prev..i].iter().sum::<f64>();
+            zero_weight += utils::total_weight_for_label(
+                y, &target[prev..i], &weight[prev..i]
+            );
             prev = i + 1;
             if target[i] == y {
                 variance += weight[i] * (f - mean).powi(2);
             }
         }
 
-        zero_weight += weight[prev..].iter().sum::<f64>();
+        zero_weight += utils::total_weight_for_label(
+            y, &target[prev..], &weight[prev..]
+        );
 
         variance += zero_weight * mean.powi(2);
         variance / total_weight
-- 
2.43.0


From 75a79b5c4c8236c64be63fe2d8b3b60675d88bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:07 +0000
Subject: [PATCH 02/26] fix: do not count the value zero twice in sparse
 features

---
 src/sample/feature_struct.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sample/feature_struct.rs b/src/sample/feature_struct.rs
index 9c3e575..08debf7 100644
--- a/src/sample/feature_struct.rs
+++ b/src/sample/feature_struct.rs
@@ -425,8 +425,10 @@ impl SparseFeature {
             .iter()
             .map(|(_, v)| *v)
             .collect::<Vec<_>>();
+        // A zero may also be stored explicitly, so do not count it twice.
+        let stores_zero = values.contains(&0.0);
         let mut uniq_value_count = inner_distinct_value_count(values);
-        if self.has_zero() {
+        if self.has_zero() && !stores_zero {
             uniq_value_count += 1;
         }
         uniq_value_count
-- 
2.43.0


From 3fef94fc002f01d73d356bda693dbb092cb00f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:07 +0000
Subject: [PATCH 03/26] fix: number the rows of a split from zero in each part

Sparse columns stored the position in the whole sample, so the values of
the test part (and of the training rows after it) were unreachable.
---
 src/sample/sample_struct.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/sample/sample_struct.rs b/src/sample/sample_struct.rs
index 4d1a77f..2c52487 100644
--- a/src/sample/sample_struct.rs
+++ b/src/sample/sample_struct.rs
@@ -521,7 +521,9 @@ impl Sample {
     }
 
 
-    fn append(&mut self, row: usize, feat: Vec<f64>, y: f64) {
+    fn append(&mut self, feat: Vec<f64>, y: f64) {
+        // The position of the new row in `self`.
+        let row = self.target.len();
         self.features.par_iter_mut()
             .zip(feat)
             .for_each(|(col, f)| {
@@ -571,19 +573,19 @@ impl Sample {
             }
         }
 
-        for (i, &ii) in ix.iter().enumerate().take(start) {
+        for &ii in ix.iter().take(start) {
             let (x, y) = self.at(ii);
-            train.append(i, x, y);
+            train.append(x, y);
         }
 
-        for (i, &ii) in ix.iter().enumerate().take(end).skip(start) {
+        for &ii in ix.iter().take(end).skip(start) {
             let (x, y) = self.at(ii);
-            test.append(i, x, y);
+            test.append(x, y);
         }
 
-        for (i, &ii) in ix.iter().enumerate().take(self.n_sample).skip(end) {
+        for &ii in ix.iter().take(self.n_sample).skip(end) {
             let (x, y) = self.at(ii);
-            train.append(i, x, y);
+            train.append(x, y);
         }
 
         (train, test)
-- 
2.43.0


From 9e2544fd99aff4ea7f55dde69ca25b17742b1cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:07 +0000
Subject: [PATCH 04/26] fix: cross validation panicked when a fold starts after
 the last row

---
 src/research/cross_validation.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/research/cross_validation.rs b/src/research/cross_validation.rs
index 6eeec32..4d5e820 100644
--- a/src/research/cross_validation.rs
+++ b/src/research/cross_validation.rs
@@ -146,7 +146,8 @@ impl<'a> CrossValidation<'a> {
     fn fold_at(&self, i: usize) -> (Sample, Sample) {
         let sample_size = self.sample.shape().0;
         let test_size = sample_size - self.train_size;
-        let (start, end) = (i*test_size, ((i+1)*test_size).min(sample_size));
+        let start = (i*test_size).min(sample_size);
+        let end = ((i+1)*test_size).min(sample_size);
         self.sample.split(&self.ix, start, end)
     }
 }
-- 
2.43.0


From c7140df9733ff46ce7bd8a4e97b5beb8d7b290d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:07 +0000
Subject: [PATCH 05/26] fix: keep members of negative weight in
 WeightedMajority::from_slices

AdaBoost, AdaBoostV and MadaBoost stop with the single weight -1 when a
hypothesis has edge -1; dropping it left nothing to normalize (panic), and
negative votes of earlier rounds were silently lost.
---
 src/hypothesis/weighted_majority.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hypothesis/weighted_majority.rs b/src/hypothesis/weighted_majority.rs
index 5e0a9a6..b4d62e1 100644
--- a/src/hypothesis/weighted_majority.rs
+++ b/src/hypothesis/weighted_majority.rs
@@ -20,6 +20,7 @@ pub struct WeightedMajority<H> {
 
 impl<H: Clone> WeightedMajority<H> {
     /// Construct a new `WeightedMajority` from given slices.
+    /// Members of weight zero are dropped.
     #[inline]
     pub fn from_slices(weights: &[f64], hypotheses: &[H]) -> Self {
         let mut new_weights = Vec::with_capacity(weights.len());
@@ -29,7 +30,7 @@ impl<H: Clone> WeightedMajority<H> {
             .copied()
             .zip(hypotheses)
             .for_each(|(w, h)| {
-                if w > 0.0 {
+                if w != 0.0 {
                     new_weights.push(w);
                     new_hypotheses.push(h.clone());
                 }
-- 
2.43.0


From 21df8e96b0cff107cd7557fc299f22d0ee6f1c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:05 +0000
Subject: [PATCH 06/26] fix: MadaBoost accumulates and caps the logarithms of
 beta

---
 src/booster/madaboost/madaboost_algorithm.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/booster/madaboost/madaboost_algorithm.rs b/src/booster/madaboost/madaboost_algorithm.rs
index d98c87f..db60a62 100644
--- a/src/booster/madaboost/madaboost_algorithm.rs
+++ b/src/booster/madaboost/madaboost_algorithm.rs
@@ -211,7 +211,7 @@ impl<'a, F> MadaBoost<'a, F> {
         // To prevent overflow, take the logarithm.
         self.betas.par_iter_mut()
             .zip(margins)
-            .for_each(|(b, yh)| { *b += yh * beta; });
+            .for_each(|(b, yh)| { *b += yh * beta.ln(); });
 
 
         alpha
@@ -224,7 +224,7 @@ impl<'a, F> MadaBoost<'a, F> {
         let weights = {
             let mut weights = self.betas.iter()
                 .copied()
-                .map(|b| b.min(1f64))
+                .map(|b| b.min(0f64))
                 .collect::<Vec<_>>();
             weights.shrink_to_fit();
             weights
@@ -296,8 +296,7 @@ impl<F> Booster<F> for MadaBoost<'_, F>
         self.sample.is_valid_binary_instance();
         // Initialize parameters
         let n_sample = self.sample.shape().0;
-        let uni = 1.0 / n_sample as f64;
-        self.betas = vec![uni; n_sample];
+        self.betas = vec![0f64; n_sample];
 
         self.alphas = Vec::new();
         self.hypotheses = Vec::new();
-- 
2.43.0


From 0f7a419871f6d157f5f20c2f08f58cc140af52d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:05 +0000
Subject: [PATCH 07/26] fix: SmoothBoost result contains every obtained
 hypothesis

---
 src/booster/smoothboost/smoothboost_algorithm.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/booster/smoothboost/smoothboost_algorithm.rs b/src/booster/smoothboost/smoothboost_algorithm.rs
index 545e210..37b59b7 100644
--- a/src/booster/smoothboost/smoothboost_algorithm.rs
+++ b/src/booster/smoothboost/smoothboost_algorithm.rs
@@ -345,7 +345,7 @@ impl<F> Booster<F> for SmoothBoost<'_, F>
         where W: WeakLearner<Hypothesis = F>
     {
         let weight = 1.0 / self.terminated as f64;
-        let weights = vec![weight; self.n_sample];
+        let weights = vec![weight; self.hypotheses.len()];
         WeightedMajority::from_slices(&weights[..], &self.hypotheses[..])
     }
 }
@@ -357,7 +357,7 @@ impl<H> Research for SmoothBoost<'_, H>
     type Output = WeightedMajority<H>;
     fn current_hypothesis(&self) -> Self::Output {
         let weight = 1.0 / self.terminated as f64;
-        let weights = vec![weight; self.n_sample];
+        let weights = vec![weight; self.hypotheses.len()];
         WeightedMajority::from_slices(&weights[..], &self.hypotheses[..])
     }
 }
-- 
2.43.0


From e3db6833d3b68036bf6585af1ceaf228ff415f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:05 +0000
Subject: [PATCH 08/26] fix: LPBoost solves the program capped at 1/nu

---
 src/booster/lpboost/lp_model.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/booster/lpboost/lp_model.rs b/src/booster/lpboost/lp_model.rs
index 4f917bf..5fd3a3f 100644
--- a/src/booster/lpboost/lp_model.rs
+++ b/src/booster/lpboost/lp_model.rs
@@ -76,13 +76,13 @@ impl LPModel {
     /// Initialize the LP model.
     /// arguments.
     /// - `size`: Number of variables (Number of examples).
-    /// - `upper_bound`: Capping parameter. `[1, size]`.
+    /// - `upper_bound`: Upper bound of the distribution, i.e., `1/ν.`
     pub(super) fn init(size: usize, upper_bound: f64) -> Self {
         let n_examples = size;
         // Set the linear part of the objective function 
         // as the minimization form
         // - ρ + (1/ν) Σ_i ξ_i
-        let mut lin_obj = vec![1f64/upper_bound; n_examples+1];
+        let mut lin_obj = vec![upper_bound; n_examples+1];
         lin_obj[0] = -1f64;
 
         let mut col_ptr = vec![0usize];
-- 
2.43.0


From 1fce22af855ce929b99062ba0792e9f34860361d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:05 +0000
Subject: [PATCH 09/26] fix: SoftBoost caps the distribution at 1/nu

---
 src/booster/softboost/qp_model.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/booster/softboost/qp_model.rs b/src/booster/softboost/qp_model.rs
index 1fb95a3..706f4ec 100644
--- a/src/booster/softboost/qp_model.rs
+++ b/src/booster/softboost/qp_model.rs
@@ -236,7 +236,7 @@ impl QPModel {
 
             // capping constraint: `d_i ≤ 1/ν`
             row_val.push(self.n_examples + j + 1);
-            nonzero.push(self.cap_inv);
+            nonzero.push(1f64);
 
             // margin constraints of `i`-th column
             for (i, &yh) in (0..).zip(margins) {
-- 
2.43.0


From afb7bf4c9586ea02a95b11b1949473cdba7aca99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:05 +0000
Subject: [PATCH 10/26] fix: the secondary program of MLPBoost is capped at
 1/nu

---
 src/booster/mlpboost/perturbed_lp_model.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/booster/mlpboost/perturbed_lp_model.rs b/src/booster/mlpboost/perturbed_lp_model.rs
index 7c318d3..a166d87 100644
--- a/src/booster/mlpboost/perturbed_lp_model.rs
+++ b/src/booster/mlpboost/perturbed_lp_model.rs
@@ -179,7 +179,7 @@ impl LPModel {
 
             // capping constraint: `d_i ≤ 1/ν`
             row_val.push(self.n_examples + j);
-            nonzero.push(self.cap_inv);
+            nonzero.push(1f64);
 
             // margin constraints of `i`-th column
             for (i, &yh) in (0..).zip(margins) {
-- 
2.43.0


From d2efe0bf01e7f2c01b83ab7d8f9e8791347e408a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:49 +0000
Subject: [PATCH 11/26] fix: MLPBoost panicked on solver weights slightly
 outside of the simplex

---
 src/booster/mlpboost/perturbed_lp_model.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/booster/mlpboost/perturbed_lp_model.rs b/src/booster/mlpboost/perturbed_lp_model.rs
index a166d87..74bec23 100644
--- a/src/booster/mlpboost/perturbed_lp_model.rs
+++ b/src/booster/mlpboost/perturbed_lp_model.rs
@@ -134,7 +134,12 @@ impl LPModel {
             solver.solve();
 
             let ix = 2 * self.n_examples + 1;
-            self.weights = solver.solution.z[ix..].to_vec();
+            // The solver is exact only up to its tolerance,
+            // so put the weights back to the probability simplex.
+            self.weights = solver.solution.z[ix..].iter()
+                .map(|w| w.max(0f64))
+                .collect();
+            utils::normalize(&mut self.weights[..]);
             self.dist = solver.solution.x[1..].to_vec();
         }
 
-- 
2.43.0


From db38812387339433e17e7bb22918eac2fdfbecfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:49 +0000
Subject: [PATCH 12/26] fix: line-search and pairwise Frank-Wolfe steps lost
 objective

---
 src/common/frank_wolfe.rs | 48 ++++++++++++++++++---------------------
 1 file changed, 22 insertions(+), 26 deletions(-)

diff --git a/src/common/frank_wolfe.rs b/src/common/frank_wolfe.rs
index 7ef873d..5e82b35 100644
--- a/src/common/frank_wolfe.rs
+++ b/src/common/frank_wolfe.rs
@@ -193,6 +193,7 @@ impl FrankWolfe {
     ) -> Vec<f64>
         where H: Classifier,
     {
+        if hypotheses.len() == 1 { return vec![1.0]; }
         // base: w
         // dir:  e_h - w
         let base = weights.clone();
@@ -215,8 +216,11 @@ impl FrankWolfe {
 
 
         // Check the case where the step size is `1`.
-        let dist = utils::exp_distribution(
-            self.eta, self.nu, sample, &dir[..], hypotheses,
+        let margins = base_margins.iter()
+            .zip(&dir_margins[..])
+            .map(|(&b, &d)| b + d);
+        let dist = utils::exp_distribution_from_margins(
+            self.eta, self.nu, margins,
         );
 
 
@@ -224,7 +228,8 @@ impl FrankWolfe {
         let dot = utils::inner_product(&dist[..], &dir_margins[..]);
 
 
-        if dot <= 0.0 {
+        // The objective is concave along `dir` and `dot` is its slope.
+        if dot >= 0.0 {
             let n_weights = weights.len();
             weights = vec![0.0; n_weights];
             weights[position_of_new_one] = 1.0;
@@ -249,9 +254,9 @@ impl FrankWolfe {
             // Compute the gradient for the direction `dir`.
             let dot = utils::inner_product(&dist[..], &dir_margins[..]);
 
-            if dot < 0.0 {
+            if dot > 0.0 {
                 lb = step_size;
-            } else if dot > 0.0 {
+            } else if dot < 0.0 {
                 ub = step_size;
             } else {
                 break;
@@ -279,10 +284,11 @@ impl FrankWolfe {
         // Find a hypothesis that has a smallest edge.
         let mut worst_edge = 2.0;
         let mut local_best_edge = -2.0;
-        let mut global_best_edge = -2.0;
+        let mut global_best_edge = utils::edge_of_hypothesis(
+            sample, dist, &hypotheses[position_of_new_one]
+        );
         let mut position_of_worst_one = hypotheses.len();
         let mut position_of_local_best_one = hypotheses.len();
-        let mut position_of_global_best_one = position_of_new_one;
         weights.iter()
             .zip(hypotheses)
             .enumerate()
@@ -295,14 +301,13 @@ impl FrankWolfe {
                 }
             })
             .for_each(|(j, edge)| {
-                if j != position_of_new_one && edge > local_best_edge {
+                if edge > local_best_edge {
                     local_best_edge = edge;
                     position_of_local_best_one = j;
                 }
 
                 if edge > global_best_edge {
                     global_best_edge = edge;
-                    position_of_global_best_one = j;
                 }
 
 
@@ -312,14 +317,6 @@ impl FrankWolfe {
                 }
             });
 
-        // If the following condition holds,
-        // the global FW atom is not the newly attained one
-        // so that the local one is the same as the global one.
-        if position_of_global_best_one + 1 != hypotheses.len() {
-            local_best_edge = global_best_edge;
-            position_of_local_best_one = position_of_global_best_one;
-        }
-
         let current_edge = utils::edge_of_weighted_hypothesis(
             sample, dist, &weights[..], hypotheses
         );
@@ -353,21 +350,20 @@ impl FrankWolfe {
 
             let margins = dir_margins.iter()
                 .zip(base_margins.iter())
-                .map(|(dir, cur)| cur + max_stepsize * dir)
-                .collect::<Vec<_>>();
+                .map(|(dir, cur)| cur + max_stepsize * dir);
 
 
-            let dist = utils::exp_distribution(
-                self.eta, self.nu, sample, &margins[..], hypotheses,
+            let dist = utils::exp_distribution_from_margins(
+                self.eta, self.nu, margins,
             );
 
 
             // If the max step size is the best one,
             // 1. Set 0 weight on `position_of_worst_one`,
-            // 2. Set `max_stepsize` on `position_of_local_best_one`.
-            if utils::inner_product(&dist[..], &dir_margins[..]) <= 0.0 {
-                weights[position_of_new_one] = max_stepsize;
+            // 2. Move `max_stepsize` to `position_of_local_best_one`.
+            if utils::inner_product(&dist[..], &dir_margins[..]) >= 0.0 {
                 weights[position_of_worst_one] = 0.0;
+                weights[position_of_local_best_one] += max_stepsize;
                 return weights;
             }
 
@@ -387,9 +383,9 @@ impl FrankWolfe {
                 // Compute the gradient for the direction `dir`.
                 let dot = utils::inner_product(&dist[..], &dir_margins[..]);
 
-                if dot < 0.0 {
+                if dot > 0.0 {
                     lb = step_size;
-                } else if dot > 0.0 {
+                } else if dot < 0.0 {
                     ub = step_size;
                 } else {
                     break;
-- 
2.43.0


From a55ca75fc611796b6c34522084b3c0b54d7746a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:49 +0000
Subject: [PATCH 13/26] fix: keep capped exponential distribution below the cap
 despite rounding

---
 src/common/utils.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/common/utils.rs b/src/common/utils.rs
index fcf726f..4277cbf 100644
--- a/src/common/utils.rs
+++ b/src/common/utils.rs
@@ -236,9 +236,9 @@ pub fn project_log_distribution_to_capped_simplex<I>(
 
         // Check the stopping criterion
         if log_xi + d + log_nu <= 0.0 {
-            dist[i_sorted] = (log_xi + d).exp();
+            dist[i_sorted] = (log_xi + d).exp().min(ub);
             for (_, (ii, _)) in ix_with_logsum {
-                dist[ii] = (log_xi + dist[ii]).exp();
+                dist[ii] = (log_xi + dist[ii]).exp().min(ub);
             }
             break;
         }
-- 
2.43.0


From f43d8bfc552de96cafbd57a06a1ca7b90f6554b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:59 +0000
Subject: [PATCH 14/26] fix: CERLPBoost and MLPBoost run at least one round
 when nu equals the sample size

---
 src/booster/cerlpboost/cerlpboost_algorithm.rs | 3 ++-
 src/booster/mlpboost/mlpboost_algorithm.rs     | 4 +++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/booster/cerlpboost/cerlpboost_algorithm.rs b/src/booster/cerlpboost/cerlpboost_algorithm.rs
index 1f02697..1b89c9f 100644
--- a/src/booster/cerlpboost/cerlpboost_algorithm.rs
+++ b/src/booster/cerlpboost/cerlpboost_algorithm.rs
@@ -229,7 +229,8 @@ impl<'a, F> CERLPBoost<'a, F> {
         let ln_m = (m / self.nu).ln();
         let max_iter = 8.0 * ln_m / self.half_tolerance.powi(2);
 
-        max_iter.ceil() as usize
+        // `ln_m` is zero if `nu` equals to the number of examples.
+        max_iter.ceil().max(1.0) as usize
     }
 
 
diff --git a/src/booster/mlpboost/mlpboost_algorithm.rs b/src/booster/mlpboost/mlpboost_algorithm.rs
index d14387c..80eb1b2 100644
--- a/src/booster/mlpboost/mlpboost_algorithm.rs
+++ b/src/booster/mlpboost/mlpboost_algorithm.rs
@@ -297,7 +297,9 @@ impl<'a, F> MLPBoost<'a, F> {
     /// Time complexity: `O(1)`.
     pub fn max_loop(&self) -> usize {
         let ln_m = (self.n_sample as f64 / self.nu).ln();
-        (8.0_f64 * ln_m / self.half_tolerance.powi(2)).ceil() as usize
+        // `ln_m` is zero if `nu` equals to the number of examples.
+        let max_iter = 8.0_f64 * ln_m / self.half_tolerance.powi(2);
+        max_iter.ceil().max(1.0) as usize
     }
 
 
-- 
2.43.0


From f0da918092de2acd14ced9d13dec4455e275e497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:34 +0000
Subject: [PATCH 15/26] fix: SoftBoost runs at least one round when nu equals
 the sample size

---
 src/booster/softboost/softboost_algorithm.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/booster/softboost/softboost_algorithm.rs b/src/booster/softboost/softboost_algorithm.rs
index dfca910..4a10b70 100644
--- a/src/booster/softboost/softboost_algorithm.rs
+++ b/src/booster/softboost/softboost_algorithm.rs
@@ -221,7 +221,8 @@ impl<'a, F> SoftBoost<'a, F>
         let temp = (n_sample / self.nu).ln();
         let max_iter = 2.0 * temp / self.tolerance.powi(2);
 
-        max_iter.ceil() as usize
+        // `temp` is zero if `nu` equals to the number of examples.
+        max_iter.ceil().max(1.0) as usize
     }
 }
 
-- 
2.43.0


From a6aa50552aef568155995ba78b98d4b4d1b8c95c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:02 +0000
Subject: [PATCH 16/26] fix: sign of the gradient of the absolute loss

---
 src/common/loss_functions.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/loss_functions.rs b/src/common/loss_functions.rs
index 2b31147..054c818 100644
--- a/src/common/loss_functions.rs
+++ b/src/common/loss_functions.rs
@@ -101,7 +101,7 @@ impl LossFunction for GBMLoss {
             Self::L1 => {
                 target.iter()
                     .zip(predictions)
-                    .map(|(y, p)| (y - p).signum())
+                    .map(|(y, p)| (p - y).signum())
                     .collect()
             },
             Self::L2 => {
-- 
2.43.0


From 957b901fec1f12ecf9c3462e0a285a6102759fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:02 +0000
Subject: [PATCH 17/26] fix: best coefficient minimises the squared loss and
 accepts zero directions

---
 src/common/loss_functions.rs | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/common/loss_functions.rs b/src/common/loss_functions.rs
index 054c818..9db2cfc 100644
--- a/src/common/loss_functions.rs
+++ b/src/common/loss_functions.rs
@@ -158,28 +158,35 @@ impl LossFunction for GBMLoss {
 
     fn best_coefficient(
         &self, 
-        targets: &[f64],
+        residuals: &[f64],
         predictions: &[f64],
     ) -> f64
     {
         match self {
             Self::L1 => {
-                let mut items = targets.iter()
+                let mut items = residuals.iter()
                     .zip(predictions)
                     .filter_map(|(&r, &p)| 
                         if p == 0.0 { None } else { Some((p.abs(), r / p)) }
                     )
                     .collect::<Vec<_>>();
 
+                // Every coefficient is the best if `predictions` is zero.
+                if items.is_empty() { return 0f64; }
                 weighted_median(&mut items[..])
             },
             Self::L2 => {
-                let y_sum = targets.iter().sum::<f64>();
-                let p_sum = predictions.iter().sum::<f64>();
-
-                assert_ne!(p_sum, 0.0);
-
-                y_sum / p_sum
+                let rp_sum = residuals.iter()
+                    .zip(predictions)
+                    .map(|(r, p)| r * p)
+                    .sum::<f64>();
+                let pp_sum = predictions.iter()
+                    .map(|p| p * p)
+                    .sum::<f64>();
+
+                // Every coefficient is the best if `predictions` is zero.
+                if pp_sum == 0f64 { return 0f64; }
+                rp_sum / pp_sum
             },
         }
     }
-- 
2.43.0


From 9a85457bee8a2d0eb24bd7941fd174b990046230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:02 +0000
Subject: [PATCH 18/26] fix: GBM fits coefficients to the residuals

---
 src/booster/gradient_boost/gbm.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/booster/gradient_boost/gbm.rs b/src/booster/gradient_boost/gbm.rs
index 0d8d01b..44bd577 100644
--- a/src/booster/gradient_boost/gbm.rs
+++ b/src/booster/gradient_boost/gbm.rs
@@ -235,8 +235,13 @@ impl<F, L> Booster<F> for GBM<'_, F, L>
         let h = weak_learner.produce(self.sample, &self.predictions[..]);
 
         let predictions = h.predict_all(self.sample);
+        let residuals = self.sample.target()
+            .iter()
+            .zip(&self.predictions[..])
+            .map(|(y, p)| y - p)
+            .collect::<Vec<_>>();
         let coef = self.loss.best_coefficient(
-            self.sample.target(), &predictions[..]
+            &residuals[..], &predictions[..]
         );
 
         // If the best coefficient is zero,
-- 
2.43.0


From c8b9eefc136a9f712ff9b4c255288cc279aadcf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:02 +0000
Subject: [PATCH 19/26] fix: GBM returns its additive model unnormalized

---
 src/booster/gradient_boost/gbm.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/booster/gradient_boost/gbm.rs b/src/booster/gradient_boost/gbm.rs
index 44bd577..01fe334 100644
--- a/src/booster/gradient_boost/gbm.rs
+++ b/src/booster/gradient_boost/gbm.rs
@@ -271,7 +271,11 @@ impl<F, L> Booster<F> for GBM<'_, F, L>
     ) -> Self::Output
         where W: WeakLearner<Hypothesis = F>
     {
-        WeightedMajority::from_slices(&self.weights[..], &self.hypotheses[..])
+        // The additive model itself, without normalizing its coefficients.
+        WeightedMajority {
+            weights: self.weights.clone(),
+            hypotheses: self.hypotheses.clone(),
+        }
     }
 }
 
-- 
2.43.0


From 22ebd98a9f8886acec1d9ab4a8a44569eea905f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:52 +0000
Subject: [PATCH 20/26] fix: cut bins by index, so that no rounding error adds
 or drops a bin

---
 src/weak_learner/decision_tree/bin.rs   | 23 ++++++++---------------
 src/weak_learner/regression_tree/bin.rs | 23 ++++++++---------------
 2 files changed, 16 insertions(+), 30 deletions(-)

diff --git a/src/weak_learner/decision_tree/bin.rs b/src/weak_learner/decision_tree/bin.rs
index 53e3c24..a5ac5dc 100644
--- a/src/weak_learner/decision_tree/bin.rs
+++ b/src/weak_learner/decision_tree/bin.rs
@@ -17,9 +17,6 @@ use crate::sample::{
 
 
 const EPS: f64 = 0.001;
-/// A tolerance parameter for numerical error.
-/// This program ignores the difference smaller than this value.
-const NUM_TOLERANCE: f64 = 1e-9;
 
 
 /// Binning: A feature processing.
@@ -122,14 +119,12 @@ impl Bins {
         let mut bins = Vec::with_capacity(n_bin);
 
         let mut left = min;
-        while left < max {
-            let right = left + intercept;
+        for k in 1..=n_bin {
+            // Compute the `k`-th boundary directly,
+            // since accumulating `intercept` accumulates rounding errors.
+            let right = min + k as f64 * intercept;
             bins.push(Bin::new(left..right));
 
-            // Numerical error leads an unexpected split.
-            // So, we ignore the bin with width smaller than 1e-9.
-            if (right - max).abs() < NUM_TOLERANCE { break; }
-
             left = right;
         }
 
@@ -176,14 +171,12 @@ impl Bins {
         let mut bins = Vec::with_capacity(n_bin);
 
         let mut left = min;
-        while left < max {
-            let right = left + intercept;
+        for k in 1..=n_bin {
+            // Compute the `k`-th boundary directly,
+            // since accumulating `intercept` accumulates rounding errors.
+            let right = min + k as f64 * intercept;
             bins.push(Bin::new(left..right));
 
-            // Numerical error leads an unexpected split.
-            // So, we ignore the bin with width smaller than 1e-9.
-            if (right - max).abs() < NUM_TOLERANCE { break; }
-
             left = right;
         }
 
diff --git a/src/weak_learner/regression_tree/bin.rs b/src/weak_learner/regression_tree/bin.rs
index 148b1ce..c2143e3 100644
--- a/src/weak_learner/regression_tree/bin.rs
+++ b/src/weak_learner/regression_tree/bin.rs
@@ -13,9 +13,6 @@ use crate::sample::{
 
 
 const EPS: f64 = 0.001;
-/// A tolerance parameter for numerical error.
-/// This program ignores the difference smaller than this value.
-const NUM_TOLERANCE: f64 = 1e-9;
 
 
 type Gradient = f64;
@@ -122,14 +119,12 @@ impl Bins {
         let mut bins = Vec::with_capacity(n_bin);
 
         let mut left = min;
-        while left < max {
-            let right = left + intercept;
+        for k in 1..=n_bin {
+            // Compute the `k`-th boundary directly,
+            // since accumulating `intercept` accumulates rounding errors.
+            let right = min + k as f64 * intercept;
             bins.push(Bin::new(left..right));
 
-            // Numerical error leads an unexpected split.
-            // So, we ignore the bin with width smaller than 1e-9.
-            if (right - max).abs() < NUM_TOLERANCE { break; }
-
             left = right;
         }
 
@@ -176,14 +171,12 @@ impl Bins {
         let mut bins = Vec::with_capacity(n_bin);
 
         let mut left = min;
-        while left < max {
-            let right = left + intercept;
+        for k in 1..=n_bin {
+            // Compute the `k`-th boundary directly,
+            // since accumulating `intercept` accumulates rounding errors.
+            let right = min + k as f64 * intercept;
             bins.push(Bin::new(left..right));
 
-            // Numerical error leads an unexpected split.
-            // So, we ignore the bin with width smaller than 1e-9.
-            if (right - max).abs() < NUM_TOLERANCE { break; }
-
             left = right;
         }
 
-- 
2.43.0


From c127820f6ce415bb86b5daf74818ad6e11dbb85d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:52 +0000
Subject: [PATCH 21/26] fix: Gini split panicked when rounding removes a label
 early

---
 src/weak_learner/decision_tree/criterion.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/weak_learner/decision_tree/criterion.rs b/src/weak_learner/decision_tree/criterion.rs
index 3f510c1..8da9ecd 100644
--- a/src/weak_learner/decision_tree/criterion.rs
+++ b/src/weak_learner/decision_tree/criterion.rs
@@ -285,12 +285,12 @@ fn split_by_gini(pack: Vec<(Bin, LabelToWeight)>) -> (f64, Score) {
             let entry = left_weight.entry(y).or_insert(0f64);
             *entry += w;
             left_weight_sum += w;
-            let entry = right_weight.get_mut(&y).unwrap();
-            *entry -= w;
+            // A rounding error may have removed `y` before.
+            if let Some(entry) = right_weight.get_mut(&y) {
+                *entry -= w;
+                if *entry <= 0f64 { right_weight.remove(&y); }
+            }
             right_weight_sum -= w;
-
-
-            if *entry <= 0f64 { right_weight.remove(&y); }
         }
         let lp = left_weight_sum / weight_sum;
         let rp = (1f64 - lp).max(0f64);
-- 
2.43.0


From dfc9b26eeba388cfdad61b6f2cbc222d85292aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:07 +0000
Subject: [PATCH 22/26] fix: regression-tree bins with cancelling gradients are
 not empty

---
 src/weak_learner/regression_tree/bin.rs | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/weak_learner/regression_tree/bin.rs b/src/weak_learner/regression_tree/bin.rs
index c2143e3..27676e3 100644
--- a/src/weak_learner/regression_tree/bin.rs
+++ b/src/weak_learner/regression_tree/bin.rs
@@ -196,6 +196,7 @@ impl Bins {
     ) -> Vec<(Bin, Gradient, Hessian)>
     {
         let n_bins = self.0.len();
+        let mut n_rows = vec![0usize; n_bins];
         let mut grad_pack = vec![0f64; n_bins];
         let mut hess_pack = vec![0f64; n_bins];
 
@@ -210,10 +211,13 @@ impl Bins {
                     range.0.start.partial_cmp(&xi).unwrap()
                 })
                 .unwrap();
+            n_rows[pos] += 1;
             grad_pack[pos] += gradient[i];
             hess_pack[pos] += hessian[i];
         }
-        self.remove_zero_weight_pack_and_normalize(grad_pack, hess_pack)
+        self.remove_zero_weight_pack_and_normalize(
+            n_rows, grad_pack, hess_pack
+        )
     }
 
 
@@ -238,22 +242,27 @@ impl Bins {
     /// - 
     fn remove_zero_weight_pack_and_normalize(
         &self,
+        n_rows: Vec<usize>,
         grad_pack: Vec<Gradient>,
         hess_pack: Vec<Hessian>,
     ) -> Vec<(Bin, Gradient, Hessian)>
     {
-        let mut iter = self.0.iter().zip(grad_pack.into_iter().zip(hess_pack));
+        let mut iter = self.0.iter()
+            .zip(n_rows)
+            .zip(grad_pack.into_iter().zip(hess_pack));
 
-        let (prev_bin, (mut prev_grad, mut prev_hess)) = iter.next().unwrap();
+        let ((prev_bin, prev_n_rows), (mut prev_grad, mut prev_hess))
+            = iter.next().unwrap();
 
         let mut prev_bin = Bin::new(prev_bin.0.clone());
-        let mut iter = iter.filter(|(_, (grad, hess))| {
-            *grad != 0.0 || *hess != 0.0
-        });
+        // Gradients in a bin may cancel,
+        // so a bin is empty only if it contains no row.
+        let mut iter = iter.filter(|((_, n_rows), _)| *n_rows > 0)
+            .map(|((bin, _), grad_hess)| (bin, grad_hess));
 
         // The left-most bin might have zero weight.
         // In this case, find the next non-zero weight bin and merge.
-        if prev_grad == 0.0 && prev_hess == 0.0 {
+        if prev_n_rows == 0 {
             let (next_bin, (next_grad, next_hess)) = iter.next().unwrap();
 
             let start = prev_bin.0.start;
-- 
2.43.0


From d00ba14d64fea9951cabc00914c5472a0a4488d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:07 +0000
Subject: [PATCH 23/26] fix: Gaussian log density adds each log variance once

---
 src/weak_learner/naive_bayes/probability.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/weak_learner/naive_bayes/probability.rs b/src/weak_learner/naive_bayes/probability.rs
index a529815..aa787f7 100644
--- a/src/weak_learner/naive_bayes/probability.rs
+++ b/src/weak_learner/naive_bayes/probability.rs
@@ -45,7 +45,7 @@ impl Probability for Gaussian {
             .map(|((&mean, &var), feat)| {
                 let x = feat[row];
 
-                ((x - mean).powi(2) / var) + n_features * var.ln()
+                ((x - mean).powi(2) / var) + var.ln()
             })
             .sum::<f64>();
 
-- 
2.43.0


From 5580a29371f348f8d3c1b291c00ea0e3a96c6a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:07 +0000
Subject: [PATCH 24/26] fix: BadBaseLearnerBuilder accepts nu equal to the
 sample size

---
 src/weak_learner/bad_learner/builder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/weak_learner/bad_learner/builder.rs b/src/weak_learner/bad_learner/builder.rs
index e445a02..fe5d937 100644
--- a/src/weak_learner/bad_learner/builder.rs
+++ b/src/weak_learner/bad_learner/builder.rs
@@ -43,7 +43,7 @@ impl BadBaseLearnerBuilder {
     /// By default, it is set as `DEFAULT_NU: f64 = 1f64.`
     pub fn nu(mut self, nu: f64) -> Self {
         assert!(
-            (1f64..self.n_sample as f64).contains(&nu),
+            (1f64..=self.n_sample as f64).contains(&nu),
             "The capping parameter must be in `[1, n_sample]`"
         );
         self.nu = nu;
-- 
2.43.0


From c87a4b1f4ed0cb95d0e9873fb7e6abbcae40987c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:39 +0000
Subject: [PATCH 25/26] fix: derivative of the sigmoid activation

---
 src/weak_learner/neural_network/activation.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/weak_learner/neural_network/activation.rs b/src/weak_learner/neural_network/activation.rs
index c21258a..3732ecd 100644
--- a/src/weak_learner/neural_network/activation.rs
+++ b/src/weak_learner/neural_network/activation.rs
@@ -85,7 +85,7 @@ fn sigmoid_diff<T: AsRef<[f64]>>(eta: f64, x: T) -> Vec<f64> {
     x.iter()
         .map(|xi| {
             let e = (-eta * xi).exp();
-            eta * e / (1.0 + e)
+            eta * e / (1.0 + e).powi(2)
         })
         .collect()
 }
-- 
2.43.0


From 71b72ee5d86ee61f5a6b4a006e3f5636b78cc9b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:39 +0000
Subject: [PATCH 26/26] fix: a single network output is the confidence of +1

---
 src/common/task.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/task.rs b/src/common/task.rs
index 32768a1..3897b85 100644
--- a/src/common/task.rs
+++ b/src/common/task.rs
@@ -39,7 +39,7 @@ pub(crate) fn binarize<T: AsRef<[f64]>>(y: T) -> f64 {
     // this code interprets it 
     // as the confidence to be `+1`
     if y.len() == 1 {
-        1.0 - 2.0 * y[0]
+        2.0 * y[0] - 1.0
         // if y[0] >= 0.5 { y[0] } else { y[0] - 1.0 }
     } else if y.len() == 2 {
         if y[0] > y[1] { -y[0] } else { y[1] }
-- 
2.43.0

