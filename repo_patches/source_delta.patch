From 127aa9dccf85e113be267b557401436afd1eadea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:36 +0000
Subject: [PATCH 01/29] fix: LUCB must sample two distinct arms, also when
 estimates or bounds tie

Ties in the bounds let both masks match any arm, so one arm could be picked
twice (its units counted twice in cum_samples), and min() of an empty set of
remaining arms raised when every variance estimate was equal.
---
 causal_effect_bandits/bandits.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/causal_effect_bandits/bandits.py b/causal_effect_bandits/bandits.py
index da69ce9..bdae55b 100644
--- a/causal_effect_bandits/bandits.py
+++ b/causal_effect_bandits/bandits.py
@@ -398,14 +398,18 @@ class LUCBAlgorithm(BAIBanditAlgorithm):
       return np.random.choice(self._arms, size=2, replace=False)
 
     best_arm_mask = [v == lowest_var for v in var_ests]
+    if all(best_arm_mask):  # there are no remaining arms to compare with
+      return np.random.choice(self._arms, size=2, replace=False)
 
     # Select the arm in this set with the highest ucb
     high_ucb = max(ucbs[best_arm_mask])
-    high_ucb_mask = [u == high_ucb for u in ucbs]
+    high_ucb_mask = [b and u == high_ucb for b, u in zip(best_arm_mask, ucbs)]
 
     # Also select the arm with the lowest lcb of the remaining arms
     low_lcb = min(lcbs[[not i for i in best_arm_mask]])
-    low_lcb_mask = [l == low_lcb for l in lcbs]
+    low_lcb_mask = [
+        not b and l == low_lcb for b, l in zip(best_arm_mask, lcbs)
+    ]
 
     # We will pick between these two arms
     u_index = np.random.choice(np.arange(self._num_arms)[high_ucb_mask])
-- 
2.43.0


From a3d085142c223641f72767efb55e46cf8aa0e476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:36 +0000
Subject: [PATCH 02/29] fix: sample_limit=None means no sample limit

---
 causal_effect_bandits/bandits.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/causal_effect_bandits/bandits.py b/causal_effect_bandits/bandits.py
index bdae55b..5d4aec0 100644
--- a/causal_effect_bandits/bandits.py
+++ b/causal_effect_bandits/bandits.py
@@ -120,6 +120,8 @@ class BAIBanditAlgorithm:
     if error_tol < 0.0:
       raise ValueError(f"error_tol={error_tol}; must be nonnegative.")
     self.error_tol = error_tol
+    if sample_limit is None:  # no limit on the number of samples
+      sample_limit = np.inf
     if confidence is None and np.isinf(sample_limit):
       raise ValueError(
           "Either the confidence or the number of rounds must be specified")
-- 
2.43.0


From 692a77f21bd782ba7b2e639c48ddfe3d1d1ff9a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:36 +0000
Subject: [PATCH 03/29] fix: successive elimination keeps the arms with the
 lowest variance estimate

With a degenerate interval (lcb equal to ucb) the best arm itself was
eliminated, and an empty best_arm was returned.
---
 causal_effect_bandits/bandits.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/causal_effect_bandits/bandits.py b/causal_effect_bandits/bandits.py
index 5d4aec0..c9731d5 100644
--- a/causal_effect_bandits/bandits.py
+++ b/causal_effect_bandits/bandits.py
@@ -534,8 +534,8 @@ class SuccessiveEliminationAlgorithm(BAIBanditAlgorithm):
 
       # We now eliminate all arms with lcbs that are larger than lowest_ucb.
       new_candidate_arms = []
-      for arm in candidate_arms:
-        if lcb_by_arm[arm][-1] < lowest_ucb:
+      for arm, is_low_var in zip(candidate_arms, low_var_mask):
+        if is_low_var or lcb_by_arm[arm][-1] < lowest_ucb:
           new_candidate_arms.append(arm)
       candidate_arms = new_candidate_arms
 
-- 
2.43.0


From 39089c63eacf7254f6e8f46cccad5b7033048f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:36 +0000
Subject: [PATCH 04/29] fix: successive elimination never returns an eliminated
 arm

On reaching the sample limit the winner was selected among all the arms.
---
 causal_effect_bandits/bandits.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/causal_effect_bandits/bandits.py b/causal_effect_bandits/bandits.py
index c9731d5..2bd1316 100644
--- a/causal_effect_bandits/bandits.py
+++ b/causal_effect_bandits/bandits.py
@@ -493,10 +493,11 @@ class SuccessiveEliminationAlgorithm(BAIBanditAlgorithm):
     while len(candidate_arms) > 1:
       epoch += 1
       if total_samples > self.sample_limit:
-        _, _, var_ests = self.collect_bounds()
-        # Select the arms with the lowest var estimates.
-        candidate_arms = self._select_arms_with_mask(
-            [v == min(var_ests) for v in var_ests])
+        var_ests = [arm.cost * arm.var_est for arm in candidate_arms]
+        # Select the remaining arms with the lowest var estimates.
+        candidate_arms = [
+            a for (a, v) in zip(candidate_arms, var_ests) if v == min(var_ests)
+        ]
         break
 
       for arm in candidate_arms:
-- 
2.43.0


From 4937e02099e5c8f0f72f477ff6a5b319e8f19d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:36 +0000
Subject: [PATCH 05/29] fix: error_tol relaxes the stopping condition instead
 of tightening it

---
 causal_effect_bandits/bandits.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/causal_effect_bandits/bandits.py b/causal_effect_bandits/bandits.py
index 2bd1316..122351e 100644
--- a/causal_effect_bandits/bandits.py
+++ b/causal_effect_bandits/bandits.py
@@ -169,7 +169,7 @@ class BAIBanditAlgorithm:
     remaining_lcbs = [
         lcbs[i] for i in range(len(self._arms)) if i != min_var_arm
     ]
-    return (ucbs[min_var_arm] < min(remaining_lcbs) - self.error_tol,
+    return (ucbs[min_var_arm] < min(remaining_lcbs) + self.error_tol,
             [self._arms[min_var_arm]])
 
   def _select_arms_with_mask(self, boolean_mask):
-- 
2.43.0


From b1ab9118b62f066174cb2b30a0d4f21a775f6986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:36 +0000
Subject: [PATCH 06/29] fix: no arm is declared best while any variance
 estimate is nan

The builtin min skips a nan that is not in first position.
---
 causal_effect_bandits/bandits.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/causal_effect_bandits/bandits.py b/causal_effect_bandits/bandits.py
index 122351e..e176e55 100644
--- a/causal_effect_bandits/bandits.py
+++ b/causal_effect_bandits/bandits.py
@@ -158,8 +158,7 @@ class BAIBanditAlgorithm:
     lcbs, ucbs, var_ests = self.collect_bounds()
     if any(np.isinf(ucbs)):  # one of the ucbs is infinity
       return (False, [])
-    min_var = min(var_ests)
-    if np.isnan(min_var):  # one of the arms returned a nan
+    if any(np.isnan(var_ests)):  # one of the arms returned a nan
       return (False, [])
 
     # find the arm with the smallest variance.
-- 
2.43.0


From 499be97dae39acea110984d440ebbd5e3140e02e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:36 +0000
Subject: [PATCH 07/29] fix: reset restores the initial confidence interval of
 an arm

---
 causal_effect_bandits/arms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/causal_effect_bandits/arms.py b/causal_effect_bandits/arms.py
index 6d7d320..bcdd489 100644
--- a/causal_effect_bandits/arms.py
+++ b/causal_effect_bandits/arms.py
@@ -93,7 +93,7 @@ class VarianceEstimatorArm:
 
   def reset(self) -> None:
     """Resets the arm to its default state."""
-    self._ci = (None, None)
+    self._ci = (-np.inf, np.inf)
     self._eta.reset()
     self._ate = None
     self._var_est = None
-- 
2.43.0


From 450dc432579b6b6c8ff63ea9400af01f3b0a07d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:36 +0000
Subject: [PATCH 08/29] fix: the default arm update counts the pull without
 raising

---
 causal_effect_bandits/arms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/causal_effect_bandits/arms.py b/causal_effect_bandits/arms.py
index bcdd489..144d54e 100644
--- a/causal_effect_bandits/arms.py
+++ b/causal_effect_bandits/arms.py
@@ -88,7 +88,7 @@ class VarianceEstimatorArm:
     """
     del new_data, delta  # for subclassing
     self._ci = (0, np.inf)  # default ci.
-    self.num_pulled += 1
+    self._num_pulled += 1
     return self._ci
 
   def reset(self) -> None:
-- 
2.43.0


From 414abd0b962e20540b32f78031525077afec38da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:36 +0000
Subject: [PATCH 09/29] fix: arms without stable splits keep the data of
 earlier updates

---
 causal_effect_bandits/arms.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/causal_effect_bandits/arms.py b/causal_effect_bandits/arms.py
index 144d54e..bb7d335 100644
--- a/causal_effect_bandits/arms.py
+++ b/causal_effect_bandits/arms.py
@@ -213,7 +213,10 @@ class SampleSplittingArm(VarianceEstimatorArm):
         for i in range(2):
           self._split_data[i].append(new_split[i])
       else:
-        self._split_data = self._data_transformer(new_data).k_fold(2)
+        all_data = self._split_data[0]
+        all_data.append(self._split_data[1])
+        all_data.append(self._data_transformer(new_data))
+        self._split_data = all_data.k_fold(2)
 
     # Use the first split to train eta
     self._eta.fit(self._split_data[0])
@@ -340,8 +343,11 @@ class BootstrapArm(VarianceEstimatorArm):
         for i in range(self.n_splits):
           self._split_data[i].append(new_split[i])
       else:
-        self._split_data = self._data_transformer(new_data).k_fold(
-            self.n_splits)
+        all_data = self._split_data[0]
+        for i in range(1, self.n_splits):
+          all_data.append(self._split_data[i])
+        all_data.append(self._data_transformer(new_data))
+        self._split_data = all_data.k_fold(self.n_splits)
 
     # Use the first split to train eta
     self._eta.fit(self._split_data[0])
-- 
2.43.0


From 0de5a7624144352882b972f106fc9a97d9b270e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:36 +0000
Subject: [PATCH 10/29] fix: the CLT error levels of all the updates sum to at
 most delta

sum_k delta / k**2 is delta * pi**2 / 6.
---
 causal_effect_bandits/arms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/causal_effect_bandits/arms.py b/causal_effect_bandits/arms.py
index bb7d335..95904a1 100644
--- a/causal_effect_bandits/arms.py
+++ b/causal_effect_bandits/arms.py
@@ -248,7 +248,7 @@ class SampleSplittingArm(VarianceEstimatorArm):
       self._ci = (ci_low, ci_high)
 
     elif self._ci_algorithm is CIAlgorithm.CLT:
-      clt_delta = delta / self._num_pulled**2
+      clt_delta = 6 * delta / (np.pi * self._num_pulled)**2
       n = self._split_data[1].n_units
       scores = self._eta.calculate_score(self._split_data[1])
       var_of_var = np.var((scores - self._ate)**2)
-- 
2.43.0


From 69074398411cbb98fac5591f0d02349d3e1bb2cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:36 +0000
Subject: [PATCH 11/29] fix: LinearParameterBinaryTreatment detects a missing
 treatment group

---
 causal_effect_bandits/parameters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/causal_effect_bandits/parameters.py b/causal_effect_bandits/parameters.py
index f9a953d..d28ab7c 100644
--- a/causal_effect_bandits/parameters.py
+++ b/causal_effect_bandits/parameters.py
@@ -195,7 +195,7 @@ class LinearParameterBinaryTreatment(NuisanceParameter):
 
     self.recent_data = d
 
-    if treat_data == 0 or cont_data == 0:
+    if not treat_data or not cont_data:
       logging.warning(
           "Nuisance parameter was fit on data not including treatment and control"
       )
-- 
2.43.0


From 116eeefd53fd5233e5274d437dbaa8c6cefe58af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:36 +0000
Subject: [PATCH 12/29] fix: LinearParameterBinaryTreatment reports when it has
 been fit

Without has_enough_samples an arm never produced an estimate.
---
 causal_effect_bandits/parameters.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/causal_effect_bandits/parameters.py b/causal_effect_bandits/parameters.py
index d28ab7c..c2883f1 100644
--- a/causal_effect_bandits/parameters.py
+++ b/causal_effect_bandits/parameters.py
@@ -274,6 +274,9 @@ class LinearParameterBinaryTreatment(NuisanceParameter):
     self.cont_response.coef_ = data_gen.beta
     self.cont_response.intercept_ = 0
 
+  def has_enough_samples(self) -> bool:
+    return self._has_been_fit
+
 
 class Predictor(Protocol):
 
-- 
2.43.0


From 3a72495f9228b12662f4586ed2db8d3cc3f0073a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:36 +0000
Subject: [PATCH 13/29] fix: LinearRegressionParameter can be reset

---
 causal_effect_bandits/parameters.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/causal_effect_bandits/parameters.py b/causal_effect_bandits/parameters.py
index c2883f1..fa2426f 100644
--- a/causal_effect_bandits/parameters.py
+++ b/causal_effect_bandits/parameters.py
@@ -878,6 +878,9 @@ class LinearRegressionParameter(NuisanceParameter):
     self._model = np.zeros(((n_features + 1), (n_features + 1)))
     self.l_reg = l_reg
 
+  def reset(self):
+    self.__init__(self._cov_dim, self.l_reg)
+
   def fit(self, d: data.ExpData):
     """Fits eta to the provided experimental d.
 
-- 
2.43.0


From ecd208dfb1d7c46dea282c1ba83d0035c4328236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:36 +0000
Subject: [PATCH 14/29] fix: a rejected append leaves the data unchanged

---
 causal_effect_bandits/data.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/causal_effect_bandits/data.py b/causal_effect_bandits/data.py
index 51fd892..1472bf1 100644
--- a/causal_effect_bandits/data.py
+++ b/causal_effect_bandits/data.py
@@ -68,16 +68,17 @@ class ExpData:
     """Appends the new data."""
     if new_data.n_features != self.n_features:
       raise ValueError("The new data has incompatible shape")
-    self.cov = np.r_[self.cov, new_data.cov]
+    cov, exp, rsp = np.r_[self.cov, new_data.cov], self.exp, self.rsp
     if self.exp is not None:
       if new_data.exp is None:
         raise ValueError("new_data.exp is missing but expected")
-      self.exp = np.r_[self.exp, new_data.exp]
+      exp = np.r_[self.exp, new_data.exp]
     if self.rsp is not None:
       if new_data.rsp is None:
         raise ValueError("new_data.rsp is missing but expected")
-      self.rsp = np.r_[self.rsp, new_data.rsp]
+      rsp = np.r_[self.rsp, new_data.rsp]
 
+    self.cov, self.exp, self.rsp = cov, exp, rsp
     self.n_units = self.cov.shape[0]
 
   def k_fold(self, k: int):
-- 
2.43.0


From 00448e41edfcd209e7adcba2149ca3011bd108e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:36 +0000
Subject: [PATCH 15/29] fix: refitting a TabularCPD forgets the support of the
 previous data

---
 causal_effect_bandits/data.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/causal_effect_bandits/data.py b/causal_effect_bandits/data.py
index 1472bf1..d944359 100644
--- a/causal_effect_bandits/data.py
+++ b/causal_effect_bandits/data.py
@@ -347,6 +347,8 @@ class TabularCPD:
     default_fn = lambda: collections.defaultdict(lambda: 0.0)
     self.table = collections.defaultdict(default_fn)
     self.x_marginal = collections.defaultdict(lambda: 0.0)
+    self.x_values = {}
+    self.z_values = {}
     for xi, zi in zip(x, z):
       self.table[xi.tobytes()][
           zi.tobytes()] = self.table[xi.tobytes()][zi.tobytes()] + 1
-- 
2.43.0


From f4d2242a62eb6f343b5f704c3d1b0da10567aa96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:36 +0000
Subject: [PATCH 16/29] fix: the rows of a TabularCPD sum to one

The mass removed from probabilities above 1 - min_prob was counted as added,
and nothing was adjusted when every probability was out of bounds.
---
 causal_effect_bandits/data.py | 24 +++++++++---------------
 1 file changed, 9 insertions(+), 15 deletions(-)

diff --git a/causal_effect_bandits/data.py b/causal_effect_bandits/data.py
index d944359..b7fe9e3 100644
--- a/causal_effect_bandits/data.py
+++ b/causal_effect_bandits/data.py
@@ -368,22 +368,16 @@ class TabularCPD:
       x_table = self.table[x_key]
       num_samples = sum(x_table.values())
       self.x_marginal[x_key] = num_samples / self.n_units
-      non_violating_z = []
-      total_violations = 0
       for z_key in self.z_values:
-        x_table[z_key] = x_table[z_key] / num_samples
-        if x_table[z_key] < self.min_prob:
-          total_violations += self.min_prob - x_table[z_key]
-          x_table[z_key] = self.min_prob
-        elif x_table[z_key] > 1 - self.min_prob:
-          total_violations += x_table[z_key] - (1 - self.min_prob)
-          x_table[z_key] = 1 - self.min_prob
-        else:
-          non_violating_z.append(z_key)
-      # Now, we adjust non_violating_z to make P(Z|x = x_key) sum to 1
-      for z_key in non_violating_z:
-        x_table[z_key] = (
-            x_table[z_key] - total_violations / len(non_violating_z))
+        x_table[z_key] = max(x_table[z_key] / num_samples, self.min_prob)
+      # Now, we take the mass added by the minimum from the probabilities above
+      # it, in proportion to their excess, to make P(Z|x = x_key) sum to 1.
+      added_mass = sum(x_table.values()) - 1
+      total_excess = sum(p - self.min_prob for p in x_table.values())
+      if total_excess > 0:
+        for z_key in self.z_values:
+          excess = x_table[z_key] - self.min_prob
+          x_table[z_key] -= added_mass * excess / total_excess
 
   def x_support(self):
     return list(self.x_values.values())
-- 
2.43.0


From bd299a009e5430e7e8f85561d4086ba9b185a391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:36 +0000
Subject: [PATCH 17/29] fix: predicting with a TabularCPD does not add entries
 to its table

---
 causal_effect_bandits/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/causal_effect_bandits/data.py b/causal_effect_bandits/data.py
index b7fe9e3..ee4dbca 100644
--- a/causal_effect_bandits/data.py
+++ b/causal_effect_bandits/data.py
@@ -403,7 +403,7 @@ class TabularCPD:
     z = np.asarray(z)
 
     for zi, xi in zip(z, x):
-      probs.append(self.table[xi.tobytes()][zi.tobytes()])
+      probs.append(self.table.get(xi.tobytes(), {}).get(zi.tobytes(), 0.0))
     return np.array(probs)
 
   def __str__(self):
-- 
2.43.0


From 21e0c1b5288e6762ea2b88f4d349b1c214ab775f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:36 +0000
Subject: [PATCH 18/29] fix: DataGenerator.generate returns a column of
 covariates

---
 causal_effect_bandits/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/causal_effect_bandits/data.py b/causal_effect_bandits/data.py
index ee4dbca..55cbc68 100644
--- a/causal_effect_bandits/data.py
+++ b/causal_effect_bandits/data.py
@@ -222,7 +222,7 @@ class DataGenerator:
 
   def generate(self, n_samples: int):
     return ExpData(
-        np.zeros(n_samples, 1),
+        np.zeros((n_samples, 1)),
         np.zeros(n_samples),
         np.zeros(n_samples),
     )
-- 
2.43.0


From 20f62b392bd86732a4499d6acd0af89fe9cccf02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:36 +0000
Subject: [PATCH 19/29] fix: LinearDataGenerator uses the noise sample that it
 validated

---
 causal_effect_bandits/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/causal_effect_bandits/data.py b/causal_effect_bandits/data.py
index 55cbc68..cd3d339 100644
--- a/causal_effect_bandits/data.py
+++ b/causal_effect_bandits/data.py
@@ -281,7 +281,7 @@ class LinearDataGenerator(DataGenerator):
       raise ValueError(
           f"noise_model's output is {len(noise)} but should be {n_samples}.")
 
-    y = x.dot(self._beta) + self._tau * t + self._noise_model(n_samples)
+    y = x.dot(self._beta) + self._tau * t + noise
     return ExpData(x, t, y)
 
   @property
-- 
2.43.0


From 71a7b98778df68c4241215d6c84b7afe37d0b1ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:36 +0000
Subject: [PATCH 20/29] fix: compute_treatment_effect runs and leaves the SCM
 as it was

---
 causal_effect_bandits/scm.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/causal_effect_bandits/scm.py b/causal_effect_bandits/scm.py
index a70a02b..764f94c 100644
--- a/causal_effect_bandits/scm.py
+++ b/causal_effect_bandits/scm.py
@@ -113,16 +113,18 @@ class SCM(data.DataGenerator):
     Returns:
       An estimate of the ATE of the SCM.
     """
-    old_t_cpd = self.cpds[self.treatment_variable]
-    treatment_cpd = lambda n, parents: self.deterministic_cpd(n, 1)
-    self.cpds[self.treatment_variable] = treatment_cpd
-    treatment_sample = self.generate(n_samples)
-
-    control_cpd = lambda n, parents: self.deterministic_cpd(n, 0)
-    self.cpds[self.treatment_variable] = control_cpd
-    control_sample = self.generate(n_samples)
-
-    self.cpds[self.treatment_variable] = old_t_cpd
+    old_cpds = self.cpds
+    self.cpds = dict(old_cpds)
+    try:
+      treatment_cpd = lambda n, parents: deterministic_cpd(n, 1)
+      self.cpds[self.treatment_variable] = treatment_cpd
+      treatment_sample = self.generate(n_samples)
+
+      control_cpd = lambda n, parents: deterministic_cpd(n, 0)
+      self.cpds[self.treatment_variable] = control_cpd
+      control_sample = self.generate(n_samples)
+    finally:
+      self.cpds = old_cpds
     return np.mean(treatment_sample.rsp) - np.mean(control_sample.rsp)
 
 
-- 
2.43.0


From 456ddd3bcd7ac35d6a2857149500b639c9bd2d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:36 +0000
Subject: [PATCH 21/29] fix: categorical_conditioning does not modify the
 caller's parents

---
 causal_effect_bandits/scm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/causal_effect_bandits/scm.py b/causal_effect_bandits/scm.py
index 764f94c..fe28524 100644
--- a/causal_effect_bandits/scm.py
+++ b/causal_effect_bandits/scm.py
@@ -152,7 +152,7 @@ def categorical_conditioning(parents, conditioning_on_idx, distributions):
         "Treatment_idx is greater than the number of distributions.")
   # Remove treatment_idx from parents
   distribution_indices = parents[conditioning_on_idx]
-  del parents[conditioning_on_idx]
+  parents = [p for i, p in enumerate(parents) if i != conditioning_on_idx]
 
   samples = []
   for i, d in enumerate(distribution_indices):
-- 
2.43.0


From ba3d4dbd117ea65c36755b55fcc66f6de1349477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:36 +0000
Subject: [PATCH 22/29] fix: the seed determines the Section 5.2 instance

---
 causal_effect_bandits/paper_utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/causal_effect_bandits/paper_utils.py b/causal_effect_bandits/paper_utils.py
index cb15e16..283217b 100644
--- a/causal_effect_bandits/paper_utils.py
+++ b/causal_effect_bandits/paper_utils.py
@@ -197,7 +197,7 @@ def get_section_5_2_cpds(
 
   beta = [.2 * rng.standard_normal(size=(z_dim[0]))]
   for i in range(1, num_back_door_paths + 1):
-    strength = np.random.uniform(.1, 1.9)
+    strength = rng.uniform(.1, 1.9)
     # V
     mu_v.append(0 * rng.standard_normal(size=v_dim[i]))
     cov_v.append(1 * np.identity(v_dim[i]))
@@ -266,6 +266,7 @@ def get_section_5_2_cpds(
             min_x=-2,
             max_x=2,
             n_points=10,
+            seed=int(rng.integers(10000)),
             alpha=1e0))
 
   # f_y should have shape (n_units,1)
@@ -281,6 +282,7 @@ def get_section_5_2_cpds(
             min_x=-2,
             max_x=2,
             n_points=10,
+            seed=int(rng.integers(10000)),
             alpha=1e0))
 
   # f_x should have shape (n_units,1)
@@ -325,6 +327,7 @@ def get_section_5_2_cpds(
         min_x=-1,
         max_x=1,
         n_points=10,
+        seed=int(rng.integers(10000)),
         alpha=1e0)
     cpds['V' + str(i)] = make_v_cpd(mean=mu_v[i], cov=cov_v[i])
     cpds['Z' + str(i)] = make_z_cpd(f=f_z, mean=mu_z[i], cov=cov_z[i])
-- 
2.43.0


From 824da9e8af8db5aa2eb724d757b5b843cacdca67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:36 +0000
Subject: [PATCH 23/29] fix: the output components of a random function are
 distinct samples

---
 causal_effect_bandits/nonlinear_utils.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/causal_effect_bandits/nonlinear_utils.py b/causal_effect_bandits/nonlinear_utils.py
index ca3b31f..8d5f684 100644
--- a/causal_effect_bandits/nonlinear_utils.py
+++ b/causal_effect_bandits/nonlinear_utils.py
@@ -79,13 +79,14 @@ def generate_random_nd_function(
   # create a cartesian product
   x = np.array(list(itertools.product(*[x1d] * dim))) * (max_x - min_x) + min_x
   # Choose a random starting state
+  if seed is None:
+    seed = np.random.randint(10000)
+  rng = np.random.RandomState(seed)
   fns = []
   for _ in range(out_dim):
     fns.append(gaussian_process.GaussianProcessRegressor(kernel, alpha=alpha))
-    if seed is None:
-      seed = np.random.randint(10000)
     # Sample from a prior
-    y = fns[-1].sample_y(x, 1, random_state=seed)
+    y = fns[-1].sample_y(x, 1, random_state=rng)
     # Fit the GP to this prior
     fns[-1].fit(x, y)
 
-- 
2.43.0


From d863fc4109040fbfa6c7ccc794600ac30e9a238e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:36 +0000
Subject: [PATCH 24/29] fix: the adjustment sets select the columns of the
 variables they name

The column indices assume the order Z_0, ..., Z_M, V_1, ..., V_M, but the
covariates were generated in the order Z_0, V_1, Z_1, ..., V_M, Z_M.
---
 causal_effect_bandits/paper_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/causal_effect_bandits/paper_utils.py b/causal_effect_bandits/paper_utils.py
index 283217b..8f962de 100644
--- a/causal_effect_bandits/paper_utils.py
+++ b/causal_effect_bandits/paper_utils.py
@@ -484,13 +484,13 @@ def generate_example_from_cpd(
   for i in range(1, num_back_door_paths + 1):
     var_names.append('V' + str(i))
     var_names.append('Z' + str(i))
-    cov_variables.append('V' + str(i))
     cov_variables.append('Z' + str(i))
     parents['V' + str(i)] = []
     parents['Z' + str(i)] = ['V' + str(i)]
     parents['Y'].append('Z' + str(i))
     parents['X'].append('V' + str(i))
 
+  cov_variables.extend(['V' + str(i) for i in range(1, num_back_door_paths + 1)])
   var_names.extend(['X', 'Z0', 'Y'])
 
   scm_gen = scm.SCM(
-- 
2.43.0


From ff7996cc01b830a464acb0eff99838d8ec97fb70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:36 +0000
Subject: [PATCH 25/29] fix: the front-door score looks up whole covariate rows

With more than one covariate the lookup used the first coordinate only, found
nothing, and the second term of the influence function was always zero.
---
 causal_effect_bandits/parameters.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/causal_effect_bandits/parameters.py b/causal_effect_bandits/parameters.py
index fa2426f..4b1012c 100644
--- a/causal_effect_bandits/parameters.py
+++ b/causal_effect_bandits/parameters.py
@@ -750,8 +750,8 @@ class FrontDoorLinearFiniteZ(NuisanceParameter):
                          np.tile(z,
                                  (len(d), 1))]))  # mu_y(z, X=1), z in support
       f_1 += mu_yzx_i * (
-          self.cov_given_exp.predict(np.array([1]), z) -
-          self.cov_given_exp.predict(np.array([0]), z))
+          self.cov_given_exp.predict(np.array([1]), [z]) -
+          self.cov_given_exp.predict(np.array([0]), [z]))
 
       f_3 += (
           self.y_response.predict([np.insert(z, 0, 1)]) * self.exp_prob * p_z_x1
-- 
2.43.0


From 834dc9a27aed4b2629ca42db8c5fd1e022b1acdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:00 +0000
Subject: [PATCH 26/29] fix: BootstrapArm estimates with the model of the whole
 first split

The bootstrap leaves the nuisance parameter fitted to its last, small sample,
and the effect and variance estimates were computed with that.
---
 causal_effect_bandits/arms.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/causal_effect_bandits/arms.py b/causal_effect_bandits/arms.py
index 95904a1..9527f08 100644
--- a/causal_effect_bandits/arms.py
+++ b/causal_effect_bandits/arms.py
@@ -375,6 +375,7 @@ class BootstrapArm(VarianceEstimatorArm):
     self._ci = (ci_low, ci_high)
 
     # Use the second split to learn the ATE and variance
+    self._eta.fit(self._split_data[0])  # not on a bootstrap sample
     self._ate = np.mean(self._eta.calculate_score(self._split_data[1]))
 
     self._var_est = np.var(self._eta.calculate_score(self._split_data[1]))
-- 
2.43.0


From 34f9319392bb9b0c317a3f1c8b8b1d175ffb16a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:35 +0000
Subject: [PATCH 27/29] fix: BootstrapArm counts its units

---
 causal_effect_bandits/arms.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/causal_effect_bandits/arms.py b/causal_effect_bandits/arms.py
index 9527f08..999a366 100644
--- a/causal_effect_bandits/arms.py
+++ b/causal_effect_bandits/arms.py
@@ -381,3 +381,9 @@ class BootstrapArm(VarianceEstimatorArm):
     self._var_est = np.var(self._eta.calculate_score(self._split_data[1]))
 
     return self._ci
+
+  def get_num_units(self) -> int:
+    """Returns the number of units seen by this arm."""
+    if self._split_data is None:
+      return 0
+    return sum(len(data) for data in self._split_data)
-- 
2.43.0


From 942912b8cc0d2d2855be134e0af2cca009a215f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:28 +0000
Subject: [PATCH 28/29] fix: back_door_scm reports the variance of Y with the
 covariance of X and Z

Y is tau * X + beta * Z + noise, and X depends on Z, but var_y was computed
as if X and Z were independent.
---
 causal_effect_bandits/example_scm.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/causal_effect_bandits/example_scm.py b/causal_effect_bandits/example_scm.py
index 829bf68..e2a1a79 100644
--- a/causal_effect_bandits/example_scm.py
+++ b/causal_effect_bandits/example_scm.py
@@ -46,7 +46,9 @@ def back_door_scm():
   mu_x = .5 + alpha * p
   var_x = mu_x * (1 - mu_x)
   mu_y = tau * mu_x + beta * mu_z
-  var_y = 1 + tau**2 * var_x + beta**2 * var_z
+  # Z is a cause of X, so the two terms of Y are correlated.
+  cov_xz = alpha * var_z
+  var_y = 1 + tau**2 * var_x + beta**2 * var_z + 2 * tau * beta * cov_xz
 
   # populate the CPDs
   def y_cpd(_, parents):
-- 
2.43.0


From e3b4571b09c323aefe1bc23b0f18dfa170f2ed95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:28 +0000
Subject: [PATCH 29/29] fix: frontdoor_scm reports the second moment of Y with
 its cross term

When Z and U are both one, the mean of Y is gamma + alpha_2, so the second
moment has (gamma + alpha_2)**2, not gamma**2 + alpha_2**2.
---
 causal_effect_bandits/example_scm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/causal_effect_bandits/example_scm.py b/causal_effect_bandits/example_scm.py
index e2a1a79..74cb3bc 100644
--- a/causal_effect_bandits/example_scm.py
+++ b/causal_effect_bandits/example_scm.py
@@ -123,8 +123,8 @@ def frontdoor_scm():
   pz1u0 = (g(beta) / 2 + 1 / 4) * (1 - p)
   pz0u1 = ((1 - g(beta)) * g(alpha_1) + (1 - g(alpha_1)) / 2) * p
   # Take the expectation of Y^2 by hand.
-  mu_y2 = 1 + (gamma**2 +
-               alpha_2**2) * pz1u1 + gamma**2 * pz1u0 + alpha_2**2 * pz0u1
+  mu_y2 = 1 + (gamma +
+               alpha_2)**2 * pz1u1 + gamma**2 * pz1u0 + alpha_2**2 * pz0u1
   var_y = mu_y2 - mu_y**2
 
   # populate the CPDs
-- 
2.43.0

