From 1418adc4caae52d82c3604b5b0d181023021e797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:18 +0000
Subject: [PATCH 001/120] fix: fit keeps user_splits parameters and drops state
 of a previous fit

fit() overwrote the user_splits/user_splits_fixed constructor parameters and
kept solver/refinement flags and missing statistics of an earlier fit, so a
second fit (or a clone) could give different results.
---
 optbinning/binning/binning.py            | 29 +++++++++++++++++-------
 optbinning/binning/continuous_binning.py | 27 +++++++++++++++++-----
 optbinning/binning/multiclass_binning.py | 24 ++++++++++++++------
 3 files changed, 59 insertions(+), 21 deletions(-)

diff --git a/optbinning/binning/binning.py b/optbinning/binning/binning.py
index e2c1899..4c59497 100644
--- a/optbinning/binning/binning.py
+++ b/optbinning/binning/binning.py
@@ -511,6 +511,9 @@ class OptimalBinning(BaseOptimalBinning):
         self._n_event_cat_others = None
         self._problem_type = "classification"
 
+        self._user_splits = None
+        self._user_splits_fixed = None
+
         # info
         self._binning_table = None
         self._n_prebins = None
@@ -706,6 +709,13 @@ class OptimalBinning(BaseOptimalBinning):
 
         _check_parameters(**self.get_params())
 
+        # Reset state of a previous fit
+        self._flag_min_n_event_nonevent = False
+        self._n_refinements = 0
+        self._optimizer = None
+        self._user_splits = None
+        self._user_splits_fixed = None
+
         # Pre-processing
         if self.verbose:
             logger.info("Pre-processing started.")
@@ -798,7 +808,10 @@ class OptimalBinning(BaseOptimalBinning):
                         self.user_splits, x_clean, y_clean, sw_clean)
 
                 if self.user_splits_fixed is not None:
-                    self.user_splits_fixed = np.asarray(
+                    self._user_splits = (
+                        user_splits if self.dtype == "numerical"
+                        else categories)
+                    self._user_splits_fixed = np.asarray(
                         self.user_splits_fixed)[sorted_idx]
 
                 splits, n_nonevent, n_event = self._prebinning_refinement(
@@ -995,7 +1008,7 @@ class OptimalBinning(BaseOptimalBinning):
                                   min_bin_n_nonevent, self.max_bin_n_nonevent,
                                   self.min_event_rate_diff, self.max_pvalue,
                                   self.max_pvalue_policy, self.gamma,
-                                  self.user_splits_fixed, self.time_limit)
+                                  self._user_splits_fixed, self.time_limit)
         elif self.solver == "mip":
             optimizer = BinningMIP(monotonic, self.min_n_bins, self.max_n_bins,
                                    min_bin_size, max_bin_size,
@@ -1003,7 +1016,7 @@ class OptimalBinning(BaseOptimalBinning):
                                    min_bin_n_nonevent, self.max_bin_n_nonevent,
                                    self.min_event_rate_diff, self.max_pvalue,
                                    self.max_pvalue_policy, self.gamma,
-                                   self.user_splits_fixed, self.mip_solver,
+                                   self._user_splits_fixed, self.mip_solver,
                                    self.time_limit)
         elif self.solver == "ls":
             optimizer = BinningLS(monotonic, self.min_n_bins, self.max_n_bins,
@@ -1012,7 +1025,7 @@ class OptimalBinning(BaseOptimalBinning):
                                   min_bin_n_nonevent, self.max_bin_n_nonevent,
                                   self.min_event_rate_diff, self.max_pvalue,
                                   self.max_pvalue_policy,
-                                  self.user_splits_fixed, self.time_limit)
+                                  self._user_splits_fixed, self.time_limit)
 
         if self.verbose:
             logger.info("Optimizer: build model...")
@@ -1109,8 +1122,8 @@ class OptimalBinning(BaseOptimalBinning):
                         mask_remove[:-2], [mask_remove[-2] | mask_remove[-1]]])
 
                 if self.user_splits_fixed is not None:
-                    user_splits_fixed = np.asarray(self.user_splits_fixed)
-                    user_splits = np.asarray(self.user_splits)
+                    user_splits_fixed = self._user_splits_fixed
+                    user_splits = self._user_splits
                     fixed_remove = user_splits_fixed & mask_splits
 
                     if any(fixed_remove):
@@ -1121,8 +1134,8 @@ class OptimalBinning(BaseOptimalBinning):
                             .format(user_splits[fixed_remove]))
 
                     # Update boolean array of fixed user splits.
-                    self.user_splits_fixed = user_splits_fixed[~mask_splits]
-                    self.user_splits = user_splits[~mask_splits]
+                    self._user_splits_fixed = user_splits_fixed[~mask_splits]
+                    self._user_splits = user_splits[~mask_splits]
 
                 splits = splits_prebinning[~mask_splits]
 
diff --git a/optbinning/binning/continuous_binning.py b/optbinning/binning/continuous_binning.py
index 0b6d3f3..e5bd1c7 100644
--- a/optbinning/binning/continuous_binning.py
+++ b/optbinning/binning/continuous_binning.py
@@ -395,6 +395,9 @@ class ContinuousOptimalBinning(OptimalBinning):
         self._n_zeros_others = None
         self._problem_type = "regression"
 
+        self._user_splits = None
+        self._user_splits_fixed = None
+
         # info
         self._binning_table = None
         self._n_prebins = None
@@ -554,6 +557,15 @@ class ContinuousOptimalBinning(OptimalBinning):
 
         _check_parameters(**self.get_params())
 
+        # Reset state of a previous fit
+        self._n_refinements = 0
+        self._optimizer = None
+        self._user_splits = None
+        self._user_splits_fixed = None
+        self._std_missing = None
+        self._min_target_missing = None
+        self._max_target_missing = None
+
         # Pre-processing
         if self.verbose:
             logger.info("Pre-processing started.")
@@ -647,7 +659,10 @@ class ContinuousOptimalBinning(OptimalBinning):
                         self.user_splits, x_clean, y_clean, sw_clean)
 
                 if self.user_splits_fixed is not None:
-                    self.user_splits_fixed = np.asarray(
+                    self._user_splits = (
+                        user_splits if self.dtype == "numerical"
+                        else categories)
+                    self._user_splits_fixed = np.asarray(
                         self.user_splits_fixed)[sorted_idx]
 
                 [splits, n_records, sums, ssums, stds, min_t, max_t,
@@ -815,7 +830,7 @@ class ContinuousOptimalBinning(OptimalBinning):
                                         max_bin_size, self.min_mean_diff,
                                         self.max_pvalue,
                                         self.max_pvalue_policy, self.gamma,
-                                        self.user_splits_fixed,
+                                        self._user_splits_fixed,
                                         self.time_limit)
 
         if self.verbose:
@@ -940,8 +955,8 @@ class ContinuousOptimalBinning(OptimalBinning):
                     mask_remove[:-2], [mask_remove[-2] | mask_remove[-1]]])
 
             if self.user_splits_fixed is not None:
-                user_splits_fixed = np.asarray(self.user_splits_fixed)
-                user_splits = np.asarray(self.user_splits)
+                user_splits_fixed = self._user_splits_fixed
+                user_splits = self._user_splits
                 fixed_remove = user_splits_fixed & mask_splits
 
                 if any(fixed_remove):
@@ -952,8 +967,8 @@ class ContinuousOptimalBinning(OptimalBinning):
                         .format(user_splits[fixed_remove]))
 
                 # Update boolean array of fixed user splits.
-                self.user_splits_fixed = user_splits_fixed[~mask_splits]
-                self.user_splits = user_splits[~mask_splits]
+                self._user_splits_fixed = user_splits_fixed[~mask_splits]
+                self._user_splits = user_splits[~mask_splits]
 
             splits = splits_prebinning[~mask_splits]
             if self.verbose:
diff --git a/optbinning/binning/multiclass_binning.py b/optbinning/binning/multiclass_binning.py
index cc80add..74391b9 100644
--- a/optbinning/binning/multiclass_binning.py
+++ b/optbinning/binning/multiclass_binning.py
@@ -353,6 +353,9 @@ class MulticlassOptimalBinning(OptimalBinning):
         self._n_event_special = None
         self._problem_type = "classification"
 
+        self._user_splits = None
+        self._user_splits_fixed = None
+
         # info
         self._binning_table = None
         self._classes = None
@@ -499,6 +502,12 @@ class MulticlassOptimalBinning(OptimalBinning):
 
         _check_parameters(**self.get_params())
 
+        # Reset state of a previous fit
+        self._n_refinements = 0
+        self._optimizer = None
+        self._user_splits = None
+        self._user_splits_fixed = None
+
         # Pre-processing
         if self.verbose:
             logger.info("Pre-processing started.")
@@ -569,7 +578,8 @@ class MulticlassOptimalBinning(OptimalBinning):
             user_splits = user_splits[sorted_idx]
 
             if self.user_splits_fixed is not None:
-                self.user_splits_fixed = np.asarray(
+                self._user_splits = user_splits
+                self._user_splits_fixed = np.asarray(
                     self.user_splits_fixed)[sorted_idx]
 
             splits, n_nonevent, n_event = self._prebinning_refinement(
@@ -747,7 +757,7 @@ class MulticlassOptimalBinning(OptimalBinning):
                                             self.min_event_rate_diff,
                                             self.max_pvalue,
                                             self.max_pvalue_policy,
-                                            self.user_splits_fixed,
+                                            self._user_splits_fixed,
                                             self.time_limit)
         else:
             optimizer = MulticlassBinningMIP(monotonic, self.min_n_bins,
@@ -757,7 +767,7 @@ class MulticlassOptimalBinning(OptimalBinning):
                                              self.max_pvalue,
                                              self.max_pvalue_policy,
                                              self.mip_solver,
-                                             self.user_splits_fixed,
+                                             self._user_splits_fixed,
                                              self.time_limit)
         if self.verbose:
             logger.info("Optimizer: build model...")
@@ -813,8 +823,8 @@ class MulticlassOptimalBinning(OptimalBinning):
                 [mask_remove[:-2], [mask_remove[-2] | mask_remove[-1]]])
 
             if self.user_splits_fixed is not None:
-                user_splits_fixed = np.asarray(self.user_splits_fixed)
-                user_splits = np.asarray(self.user_splits)
+                user_splits_fixed = self._user_splits_fixed
+                user_splits = self._user_splits
                 fixed_remove = user_splits_fixed & mask_splits
 
                 if any(fixed_remove):
@@ -824,8 +834,8 @@ class MulticlassOptimalBinning(OptimalBinning):
                                      .format(user_splits[fixed_remove]))
 
                 # Update boolean array of fixed user splits.
-                self.user_splits_fixed = user_splits_fixed[~mask_splits]
-                self.user_splits = user_splits[~mask_splits]
+                self._user_splits_fixed = user_splits_fixed[~mask_splits]
+                self._user_splits = user_splits[~mask_splits]
 
             splits = splits_prebinning[~mask_splits]
 
-- 
2.43.0


From 4d51ce37668085db1540d9ac170bbba109aaec47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:56 +0000
Subject: [PATCH 002/120] fix: categorical/empty user splits and empty prebins
 are counted correctly

Removing the last (pure/empty) group of categorical user splits dropped its
records, a single user group gave a table without bin row, user_splits=[]
crashed, and hellinger/triangular divergences crashed on empty prebins.
---
 optbinning/binning/binning.py            | 30 ++++++++++++++++++------
 optbinning/binning/continuous_binning.py | 23 +++++++++++-------
 2 files changed, 38 insertions(+), 15 deletions(-)

diff --git a/optbinning/binning/binning.py b/optbinning/binning/binning.py
index 4c59497..8fd8ecd 100644
--- a/optbinning/binning/binning.py
+++ b/optbinning/binning/binning.py
@@ -787,9 +787,10 @@ class OptimalBinning(BaseOptimalBinning):
                             .format(n_splits))
 
             if not n_splits:
-                splits = self.user_splits
-                n_nonevent = np.array([])
-                n_event = np.array([])
+                splits, n_nonevent, n_event = self._prebinning_refinement(
+                    np.array([]), x_clean, y_clean, y_missing, x_special,
+                    y_special, y_others, sw_clean, sw_missing, sw_special,
+                    sw_others)
             else:
                 if self.dtype == "numerical":
                     user_splits = check_array(
@@ -917,7 +918,7 @@ class OptimalBinning(BaseOptimalBinning):
         if len(n_nonevent) <= 1:
             self._status = "OPTIMAL"
             self._splits_optimal = splits
-            self._solution = np.zeros(len(splits), dtype=bool)
+            self._solution = np.ones(len(n_nonevent), dtype=bool)
 
             if self.verbose:
                 logger.warning("Optimizer: {} bins after pre-binning."
@@ -1086,6 +1087,12 @@ class OptimalBinning(BaseOptimalBinning):
 
         return splits_prebinning, n_nonevent, n_event
 
+    def _is_single_user_prebin(self, n_bins):
+        # Categorical user splits: a single group of categories has no
+        # neighbour to be merged with.
+        return (self.dtype == "categorical" and
+                self.user_splits is not None and n_bins == 1)
+
     def _compute_prebins(self, splits_prebinning, x, y0, y1, sw):
         n_splits = len(splits_prebinning)
         if not n_splits:
@@ -1109,14 +1116,23 @@ class OptimalBinning(BaseOptimalBinning):
         mask_remove = (n_nonevent == 0) | (n_event == 0)
 
         if np.any(mask_remove):
-            if self.divergence in ("hellinger", "triangular"):
+            if (self.divergence in ("hellinger", "triangular") and
+                    n_nonevent.any() and n_event.any()):
                 self._flag_min_n_event_nonevent = True
-            else:
+
+                # Pure prebins are kept, but empty prebins must be removed
+                mask_remove = (n_nonevent == 0) & (n_event == 0)
+
+            if np.any(mask_remove) and not self._is_single_user_prebin(n_bins):
                 self._n_refinements += 1
 
                 if (self.dtype == "categorical" and
                         self.user_splits is not None):
-                    mask_splits = mask_remove
+                    # The last split cannot be removed, as its prebin is not
+                    # followed by another one.
+                    mask_splits = np.concatenate([
+                        mask_remove[:-2], [mask_remove[-2] | mask_remove[-1]],
+                        [False]])
                 else:
                     mask_splits = np.concatenate([
                         mask_remove[:-2], [mask_remove[-2] | mask_remove[-1]]])
diff --git a/optbinning/binning/continuous_binning.py b/optbinning/binning/continuous_binning.py
index e5bd1c7..8a99672 100644
--- a/optbinning/binning/continuous_binning.py
+++ b/optbinning/binning/continuous_binning.py
@@ -637,10 +637,11 @@ class ContinuousOptimalBinning(OptimalBinning):
                             .format(n_splits))
 
             if not n_splits:
-                splits = self.user_splits
-                n_records = np.array([])
-                sums = np.array([])
-                stds = np.array([])
+                [splits, n_records, sums, ssums, stds, min_t, max_t,
+                 n_zeros] = self._prebinning_refinement(
+                    np.array([]), x_clean, y_clean, y_missing, x_special,
+                    y_special, y_others, sw_clean, sw_missing, sw_special,
+                    sw_others)
             else:
                 if self.dtype == "numerical":
                     user_splits = check_array(
@@ -762,7 +763,7 @@ class ContinuousOptimalBinning(OptimalBinning):
         if len(n_records) <= 1:
             self._status = "OPTIMAL"
             self._splits_optimal = splits
-            self._solution = np.zeros(len(splits)).astype(bool)
+            self._solution = np.ones(len(n_records), dtype=bool)
 
             if self.verbose:
                 logger.warning("Optimizer: {} bins after pre-binning."
@@ -912,7 +913,9 @@ class ContinuousOptimalBinning(OptimalBinning):
     def _compute_prebins(self, splits_prebinning, x, y, sw):
         n_splits = len(splits_prebinning)
         if not n_splits:
-            return splits_prebinning, np.array([]), np.array([])
+            return (splits_prebinning, np.array([]), np.array([]),
+                    np.array([]), np.array([]), np.array([]), np.array([]),
+                    np.array([]))
 
         if self.dtype == "categorical" and self.user_splits is not None:
             indices = np.digitize(x, splits_prebinning, right=True)
@@ -944,12 +947,16 @@ class ContinuousOptimalBinning(OptimalBinning):
 
         mask_remove = (n_records == 0)
 
-        if np.any(mask_remove):
+        if np.any(mask_remove) and not self._is_single_user_prebin(n_bins):
             self._n_refinements += 1
 
             if (self.dtype == "categorical" and
                     self.user_splits is not None):
-                mask_splits = mask_remove
+                # The last split cannot be removed, as its prebin is not
+                # followed by another one.
+                mask_splits = np.concatenate([
+                    mask_remove[:-2], [mask_remove[-2] | mask_remove[-1]],
+                    [False]])
             else:
                 mask_splits = np.concatenate([
                     mask_remove[:-2], [mask_remove[-2] | mask_remove[-1]]])
-- 
2.43.0


From 2aef1af2cee8b2251a8b9ee86adce107a8318496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:56 +0000
Subject: [PATCH 003/120] fix: remove debugging print in continuous binning

---
 optbinning/binning/continuous_binning.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/optbinning/binning/continuous_binning.py b/optbinning/binning/continuous_binning.py
index 8a99672..8fde99f 100644
--- a/optbinning/binning/continuous_binning.py
+++ b/optbinning/binning/continuous_binning.py
@@ -884,7 +884,6 @@ class ContinuousOptimalBinning(OptimalBinning):
 
         if len(y_others):
             if len(sw_others):
-                print(y_others.dtype, sw_others.dtype)
                 y_others = y_others * sw_others
 
             self._n_records_cat_others = np.sum(sw_others)
-- 
2.43.0


From c690e19ca6ca4a2caffa2979cf176ac5b12dffbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:56 +0000
Subject: [PATCH 004/120] fix: continuous special statistics with special codes
 absent from data

---
 optbinning/binning/binning_statistics.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/optbinning/binning/binning_statistics.py b/optbinning/binning/binning_statistics.py
index 5867b6b..61dacb1 100644
--- a/optbinning/binning/binning_statistics.py
+++ b/optbinning/binning/binning_statistics.py
@@ -171,14 +171,9 @@ def target_info_special_continuous(special_codes, x, y, sw):
         sum_special = []
         n_zeros_special = []
 
-        if len(y):
-            std_special = []
-            min_target_special = []
-            max_target_special = []
-        else:
-            std_special = None
-            min_target_special = None
-            max_target_special = None
+        std_special = []
+        min_target_special = []
+        max_target_special = []
 
         xt = pd.Series(x)
         for s in special_codes.values():
-- 
2.43.0


From 6134124477bf795885e36aa412c6ab52d9866a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:56 +0000
Subject: [PATCH 005/120] fix: rounding must not give NaN standard deviations

---
 optbinning/binning/binning_statistics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optbinning/binning/binning_statistics.py b/optbinning/binning/binning_statistics.py
index 61dacb1..b9dd422 100644
--- a/optbinning/binning/binning_statistics.py
+++ b/optbinning/binning/binning_statistics.py
@@ -281,7 +281,7 @@ def multiclass_bin_info(solution, n_classes, n_event, n_event_missing,
 
 
 def nstd(s, ss, records):
-    return np.sqrt(ss / records - (s / records) ** 2)
+    return np.sqrt(np.maximum(ss / records - (s / records) ** 2, 0))
 
 
 def continuous_bin_info(solution, n_records, sums, ssums, stds, min_target,
-- 
2.43.0


From 0f7008efb6c5e7c5fd2d1ce52973052ab12dac91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:56 +0000
Subject: [PATCH 006/120] fix: build binary binning table when every row is
 pure

---
 optbinning/binning/binning_statistics.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/optbinning/binning/binning_statistics.py b/optbinning/binning/binning_statistics.py
index b9dd422..68f698a 100644
--- a/optbinning/binning/binning_statistics.py
+++ b/optbinning/binning/binning_statistics.py
@@ -538,16 +538,21 @@ class BinningTable:
         p_ev = p_event[mask]
         p_nev = p_nonevent[mask]
 
-        iv[mask] = jeffrey(p_ev, p_nev, return_sum=False)
-        js[mask] = jensen_shannon(p_ev, p_nev, return_sum=False)
+        if mask.any():
+            iv[mask] = jeffrey(p_ev, p_nev, return_sum=False)
+            js[mask] = jensen_shannon(p_ev, p_nev, return_sum=False)
+            self._hellinger = hellinger(p_ev, p_nev, return_sum=True)
+            self._triangular = triangular(p_ev, p_nev, return_sum=True)
+        else:
+            self._hellinger = 0.0
+            self._triangular = 0.0
+
         t_iv = iv.sum()
         t_js = js.sum()
 
         self._iv_values = iv
         self._iv = t_iv
         self._js = t_js
-        self._hellinger = hellinger(p_ev, p_nev, return_sum=True)
-        self._triangular = triangular(p_ev, p_nev, return_sum=True)
 
         # Compute KS
         self._ks = np.abs(p_event.cumsum() - p_nonevent.cumsum()).max()
-- 
2.43.0


From 2b24bcb1dc57756953f3918e93362cec5d71b6f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:56 +0000
Subject: [PATCH 007/120] fix: monotonic trend in analysis with special codes
 dictionary

---
 optbinning/binning/binning_statistics.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/optbinning/binning/binning_statistics.py b/optbinning/binning/binning_statistics.py
index 68f698a..436d466 100644
--- a/optbinning/binning/binning_statistics.py
+++ b/optbinning/binning/binning_statistics.py
@@ -972,7 +972,8 @@ class BinningTable:
                                                     self._hhi_norm)
 
         # Monotonic trend
-        type_mono = type_of_monotonic_trend(self._event_rate[:-2])
+        type_mono = type_of_monotonic_trend(
+            self._event_rate[:-(1 + self._n_specials)])
 
         report = (
             "---------------------------------------------\n"
-- 
2.43.0


From 7f89d27dad2ad86383ff70864175df94560a95bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:47 +0000
Subject: [PATCH 008/120] fix: transform of unknown categories, array special
 codes and integer cat_unknown

The default for unseen categories depended on metric_special/metric_missing,
an integer cat_unknown truncated every transformed value, and special codes
given as numpy array raised ValueError.
---
 optbinning/binning/transformations.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/optbinning/binning/transformations.py b/optbinning/binning/transformations.py
index 5c35d7d..a89c638 100644
--- a/optbinning/binning/transformations.py
+++ b/optbinning/binning/transformations.py
@@ -179,11 +179,7 @@ def _apply_transform(x, dtype, special_codes, metric, metric_special,
                      n_special, cat_unknown):
 
     if dtype == "numerical":
-        if metric == "bins":
-            x_clean_transform = np.full(x_clean.shape, cat_unknown,
-                                        dtype=object)
-        else:
-            x_clean_transform = np.full(x_clean.shape, cat_unknown)
+        x_clean_transform = np.empty(x_clean.shape, dtype=x_transform.dtype)
 
         for i in range(n_bins):
             mask = (indices == i)
@@ -196,7 +192,7 @@ def _apply_transform(x, dtype, special_codes, metric, metric_special,
             mask = x_p.isin(bins[i])
             x_transform[mask] = metric_value[i]
 
-    if special_codes:
+    if special_codes is not None:
         if isinstance(special_codes, dict):
             xt = pd.Series(x)
             for i, (k, s) in enumerate(special_codes.items()):
@@ -289,7 +285,7 @@ def transform_binary_target(splits, dtype, x, n_nonevent, n_event,
 
         # Assign unknown category value
         if cat_unknown is None:
-            mean_event_rate = t_n_event / n_records.sum()
+            mean_event_rate = t_n_event / (t_n_event + t_n_nonevent)
             if metric == "woe":
                 cat_unknown = transform_event_rate_to_woe(
                     mean_event_rate, t_n_nonevent, t_n_event)
@@ -302,7 +298,7 @@ def transform_binary_target(splits, dtype, x, n_nonevent, n_event,
         else:
             metric_value = event_rate
 
-        x_transform = np.full(x.shape, cat_unknown)
+        x_transform = np.full(x.shape, cat_unknown, dtype=np.float64)
     else:
         # Assign corresponding indices or bin intervals
         metric_value, x_transform = _transform_metric_indices_bins(
@@ -424,6 +420,9 @@ def transform_continuous_target(splits, dtype, x, n_records, sums,
         bins_str = [str(b) for b in bins]
         n_bins = len(bins)
 
+    # Mean of the target for unknown categories
+    mean_target = sums.sum() / n_records.sum()
+
     if "empirical" not in (metric_special, metric_missing):
         n_records = n_records[:n_bins]
         sums = sums[:n_bins]
@@ -436,9 +435,9 @@ def transform_continuous_target(splits, dtype, x, n_records, sums,
 
         # Assign unknown category value
         if cat_unknown is None:
-            cat_unknown = sums.sum() / n_records.sum()
+            cat_unknown = mean_target
 
-        x_transform = np.full(x.shape, cat_unknown)
+        x_transform = np.full(x.shape, cat_unknown, dtype=np.float64)
     else:
         # Assign corresponding indices or bin intervals
         metric_value, x_transform = _transform_metric_indices_bins(
-- 
2.43.0


From e8fa665dac385e4c1f0a3c83cdfaf4a1fd93b061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:12 +0000
Subject: [PATCH 009/120] fix: concave and convex constraints must not bind
 unselected bins

---
 optbinning/binning/cp.py  | 4 ++--
 optbinning/binning/mip.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/optbinning/binning/cp.py b/optbinning/binning/cp.py
index 74e369d..362e662 100644
--- a/optbinning/binning/cp.py
+++ b/optbinning/binning/cp.py
@@ -441,7 +441,7 @@ class BinningCP:
                                   for z in range(j)]) + D[j][j] * x[j, j]) -
                         (sum([(D[k][z] - D[k][z+1]) * x[k, z]
                               for z in range(k)]) + D[k][k] * x[k, k]) >=
-                        M * (x[i, i] + x[j, j] + x[k, k] - 3))
+                        2 * M * (x[i, i] + x[j, j] + x[k, k] - 3))
 
     def add_constraint_monotonic_convex(self, model, n, D, x, M):
         for i in range(2, n):
@@ -454,7 +454,7 @@ class BinningCP:
                                   for z in range(j)]) + D[j][j] * x[j, j]) +
                         (sum([(D[k][z] - D[k][z+1]) * x[k, z]
                               for z in range(k)]) + D[k][k] * x[k, k]) >=
-                        M * (x[i, i] + x[j, j] + x[k, k] - 3))
+                        2 * M * (x[i, i] + x[j, j] + x[k, k] - 3))
 
     def add_constraint_monotonic_peak(self, model, n, D, x, y, M):
         for i in range(1, n):
diff --git a/optbinning/binning/mip.py b/optbinning/binning/mip.py
index 3826cbd..79ef9a6 100644
--- a/optbinning/binning/mip.py
+++ b/optbinning/binning/mip.py
@@ -328,7 +328,7 @@ class BinningMIP:
                              + D[j][j] * x[j, j]) -
                         (solver.Sum([(D[k][z] - D[k][z+1]) * x[k, z]
                                      for z in range(k)]) +
-                         D[k][k] * x[k, k]) >= (
+                         D[k][k] * x[k, k]) >= 2 * (
                          x[i, i] + x[j, j] + x[k, k] - 3))
 
     def add_constraint_monotonic_convex(self, solver, n, D, x):
@@ -343,7 +343,7 @@ class BinningMIP:
                              D[j][j] * x[j, j]) +
                         (solver.Sum([(D[k][z] - D[k][z+1]) * x[k, z]
                                      for z in range(k)]) +
-                         D[k][k] * x[k, k]) >= (
+                         D[k][k] * x[k, k]) >= 2 * (
                          x[i, i] + x[j, j] + x[k, k] - 3))
 
     def add_constraint_monotonic_peak(self, solver, n, D, x, y):
-- 
2.43.0


From 056394d8ffe726c30c1560481009ff1416f6a1bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:50 +0000
Subject: [PATCH 010/120] fix: MIP solver must not accept an assignment
 violating the constraints

---
 optbinning/binning/mip.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/optbinning/binning/mip.py b/optbinning/binning/mip.py
index 79ef9a6..99e7095 100644
--- a/optbinning/binning/mip.py
+++ b/optbinning/binning/mip.py
@@ -181,13 +181,18 @@ class BinningMIP:
         self.solver_.SetTimeLimit(self.time_limit * 1000)
         status = self.solver_.Solve()
 
+        # BOP might report an infeasible problem as solved.
+        if (status in (pywraplp.Solver.OPTIMAL, pywraplp.Solver.FEASIBLE) and
+                not self.solver_.VerifySolution(1e-5, False)):
+            status = pywraplp.Solver.INFEASIBLE
+
         if status in (pywraplp.Solver.OPTIMAL, pywraplp.Solver.FEASIBLE):
             if status == pywraplp.Solver.OPTIMAL:
                 status_name = "OPTIMAL"
             else:
                 status_name = "FEASIBLE"
 
-            solution = np.array([self._x[i, i].solution_value()
+            solution = np.array([self._x[i, i].solution_value() > 0.5
                                 for i in range(self._n)]).astype(bool)
         else:
             if status == pywraplp.Solver.ABNORMAL:
-- 
2.43.0


From 1caf0ea2732438be2dfac9227492afce470526da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:18 +0000
Subject: [PATCH 011/120] fix: sample weights keep their own type and are not
 modified in place

---
 optbinning/binning/preprocessing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/optbinning/binning/preprocessing.py b/optbinning/binning/preprocessing.py
index fc299dc..55947fb 100644
--- a/optbinning/binning/preprocessing.py
+++ b/optbinning/binning/preprocessing.py
@@ -176,14 +176,14 @@ def split_data(dtype, x, y, special_codes=None, cat_cutoff=None,
     x = np.asarray(x)
     y = np.asarray(y)
 
-    sample_weight = _check_sample_weight(sample_weight, x, dtype=x.dtype)
+    sample_weight = _check_sample_weight(sample_weight, x, dtype=np.float64)
 
     if class_weight is not None:
         classes = np.unique(y)
         le = LabelEncoder()
         class_weight_ = compute_class_weight(
             class_weight=class_weight, classes=classes, y=y)
-        sample_weight *= class_weight_[le.fit_transform(y)]
+        sample_weight = sample_weight * class_weight_[le.fit_transform(y)]
 
     if np.issubdtype(x.dtype, np.number) and np.issubdtype(y.dtype, np.number):
         missing_mask = np.isnan(x) | np.isnan(y)
-- 
2.43.0


From 9dc876fe109a7b76d666b53d3e8fe72b6f70ba46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:47 +0000
Subject: [PATCH 012/120] fix: MDLP counts ties as binning does, handles refit
 and row order

---
 optbinning/binning/mdlp.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/optbinning/binning/mdlp.py b/optbinning/binning/mdlp.py
index 835ec7b..53641b6 100644
--- a/optbinning/binning/mdlp.py
+++ b/optbinning/binning/mdlp.py
@@ -106,6 +106,7 @@ class MDLP(BaseEstimator):
         x = x[idx]
         y = y[idx]
 
+        self._splits = []
         self._recurse(x, y, 0)
 
         self._is_fitted = True
@@ -121,7 +122,7 @@ class MDLP(BaseEstimator):
 
         if split is not None:
             self._splits.append(split)
-            t = np.searchsorted(x, split, side="right")
+            t = np.searchsorted(x, split, side="left")
 
             if not self._terminate(n_x, n_y, y, y[:t], y[t:]):
                 self._recurse(x[:t], y[:t], id + 1)
@@ -129,7 +130,14 @@ class MDLP(BaseEstimator):
 
     def _find_split(self, u_x, x, y):
         n_x = len(x)
-        u_x = np.unique(0.5 * (x[1:] + x[:-1])[(y[1:] - y[:-1]) != 0])
+
+        # Boundary points: cut points between two consecutive distinct values,
+        # unless the records of both values belong to the same single class.
+        _, start, counts = np.unique(x, return_index=True, return_counts=True)
+        mean = np.add.reduceat(y, start) / counts
+        pure = (mean == 0) | (mean == 1)
+        boundary = ~(pure[1:] & pure[:-1] & (mean[1:] == mean[:-1]))
+        u_x = 0.5 * (x[start[1:]] + x[start[:-1]])[boundary]
 
         if len(u_x) > self.max_candidates:
             percentiles = np.linspace(1, 100, self.max_candidates)
@@ -140,7 +148,7 @@ class MDLP(BaseEstimator):
         max_entropy_gain = 0
         best_split = None
 
-        tt = np.searchsorted(x, splits, side="right")
+        tt = np.searchsorted(x, splits, side="left")
         for i, t in enumerate(tt):
             samples_l = t >= self.min_samples_leaf
             samples_r = n_x - t >= self.min_samples_leaf
-- 
2.43.0


From 3a3b134725c3796a52eba82558f5f44e1a5f4ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:10 +0000
Subject: [PATCH 013/120] fix: special codes absent from data must not give a
 zero minimum/maximum

---
 optbinning/binning/binning_statistics.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/optbinning/binning/binning_statistics.py b/optbinning/binning/binning_statistics.py
index 436d466..99ddc10 100644
--- a/optbinning/binning/binning_statistics.py
+++ b/optbinning/binning/binning_statistics.py
@@ -192,9 +192,9 @@ def target_info_special_continuous(special_codes, x, y, sw):
                 min_target_special.append(np.min(ymask))
                 max_target_special.append(np.max(ymask))
             else:
-                std_special.append(0)
-                min_target_special.append(0)
-                max_target_special.append(0)
+                std_special.append(None)
+                min_target_special.append(None)
+                max_target_special.append(None)
     else:
         if len(sw):
             sw_y = sw * y
-- 
2.43.0


From 749e83002790a25f4738c3145f2f15b2a95916e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:10 +0000
Subject: [PATCH 014/120] fix: monotonic trend with special codes dictionary,
 continuous and multiclass

---
 optbinning/binning/binning_statistics.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/optbinning/binning/binning_statistics.py b/optbinning/binning/binning_statistics.py
index 99ddc10..2a5003c 100644
--- a/optbinning/binning/binning_statistics.py
+++ b/optbinning/binning/binning_statistics.py
@@ -1458,7 +1458,8 @@ class MulticlassBinningTable:
         monotonic_string = ""
 
         for i in range(len(self.classes)):
-            type_mono = type_of_monotonic_trend(self._event_rate[:-2, i])
+            type_mono = type_of_monotonic_trend(
+                self._event_rate[:-(1 + self._n_specials), i])
             monotonic_string += mono_string.format(i, type_mono)
 
         report = (
@@ -2022,7 +2023,8 @@ class ContinuousBinningTable:
             rwoe, p_values, self._hhi_norm)
 
         # Monotonic trend
-        type_mono = type_of_monotonic_trend(self._mean[:-2])
+        type_mono = type_of_monotonic_trend(
+            self._mean[:-(1 + self._n_specials)])
 
         report = (
             "-------------------------------------------------\n"
-- 
2.43.0


From 9ebe871e8d36a7185bb52df7e91d2870401878ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:49 +0000
Subject: [PATCH 015/120] fix: continuous gamma regularization was not linked
 to the bin sizes

---
 optbinning/binning/continuous_cp.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/optbinning/binning/continuous_cp.py b/optbinning/binning/continuous_cp.py
index 71f6098..4511569 100644
--- a/optbinning/binning/continuous_cp.py
+++ b/optbinning/binning/continuous_cp.py
@@ -114,6 +114,15 @@ class ContinuousBinningCP(BinningCP):
             self.add_constraint_monotonic_valley_heuristic(
                 model, n, U, x, trend_change, M)
 
+        # Constraint: reduction of dominating bins
+        if self.gamma:
+            for i in range(n):
+                bin_size = sum([n_records[j] * x[i, j] for j in range(i + 1)])
+
+                model.Add(pmin <= total_records * (1 - x[i, i]) + bin_size)
+                model.Add(pmax >= bin_size)
+            model.Add(pmin <= pmax)
+
         # Constraint: max-pvalue
         self.add_constraint_violation(model, x, pvalue_violation_indices)
 
-- 
2.43.0


From 98c9bf9afa6495dd5e11f7ed9644641d67b44a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:06 +0000
Subject: [PATCH 016/120] fix: peak/valley big-M of the continuous problem must
 cover means of both signs

---
 optbinning/binning/continuous_cp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/optbinning/binning/continuous_cp.py b/optbinning/binning/continuous_cp.py
index 4511569..a2f9577 100644
--- a/optbinning/binning/continuous_cp.py
+++ b/optbinning/binning/continuous_cp.py
@@ -185,7 +185,7 @@ class ContinuousBinningCP(BinningCP):
                         ).OnlyEnforceIf([x[k, k], x[j, j], x[i, i]])
 
     def add_constraint_monotonic_peak(self, model, n, U, x, y):
-        M = max([abs(U[i][j]) for i in range(n) for j in range(i + 1)])
+        M = 2 * max([abs(U[i][j]) for i in range(n) for j in range(i + 1)])
         for i in range(1, n):
             for z in range(i):
                 model.Add(
@@ -205,7 +205,7 @@ class ContinuousBinningCP(BinningCP):
                     U[z][z] * x[z, z] >= 0).OnlyEnforceIf([x[z, z], x[i, i]])
 
     def add_constraint_monotonic_valley(self, model, n, U, x, y):
-        M = max([abs(U[i][j]) for i in range(n) for j in range(i + 1)])
+        M = 2 * max([abs(U[i][j]) for i in range(n) for j in range(i + 1)])
         for i in range(1, n):
             for z in range(i):
                 model.Add(
-- 
2.43.0


From 8b461b137c797e4bd62ad1ee4d797c055cc8d730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:21 +0000
Subject: [PATCH 017/120] fix: rounding must not disable the continuous p-value
 constraint

---
 optbinning/binning/model_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optbinning/binning/model_data.py b/optbinning/binning/model_data.py
index e58bf17..4171b94 100644
--- a/optbinning/binning/model_data.py
+++ b/optbinning/binning/model_data.py
@@ -261,7 +261,7 @@ def continuous_model_data(n_records, sums, ssums, max_pvalue,
         s_ssums = ssums[:i][::-1].cumsum()[::-1]
 
         mean = s_sums / s_n_records
-        std = np.sqrt(s_ssums / s_n_records - mean ** 2)
+        std = np.sqrt(np.maximum(s_ssums / s_n_records - mean ** 2, 0))
         norm = np.absolute(mean - t_mean)
 
         if scale is not None:
-- 
2.43.0


From 893f6c3c22bd8da7e39cbb929cc36599531cd975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:05 +0000
Subject: [PATCH 018/120] fix: multiclass min_bin_size and max_bin_size use the
 records per prebin

---
 optbinning/binning/multiclass_cp.py  | 2 +-
 optbinning/binning/multiclass_mip.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/optbinning/binning/multiclass_cp.py b/optbinning/binning/multiclass_cp.py
index cfb43a6..dd51217 100644
--- a/optbinning/binning/multiclass_cp.py
+++ b/optbinning/binning/multiclass_cp.py
@@ -47,7 +47,7 @@ class MulticlassBinningCP(BinningCP):
             self.min_event_rate_diff, M)
 
         n = len(n_nonevent)
-        n_records = n_nonevent + n_event
+        n_records = n_nonevent[:, 0] + n_event[:, 0]
         n_classes = len(self.monotonic_trend)
 
         # Initialize model
diff --git a/optbinning/binning/multiclass_mip.py b/optbinning/binning/multiclass_mip.py
index 6f35539..a858d15 100644
--- a/optbinning/binning/multiclass_mip.py
+++ b/optbinning/binning/multiclass_mip.py
@@ -45,7 +45,7 @@ class MulticlassBinningMIP(BinningMIP):
             self.min_event_rate_diff)
 
         n = len(n_nonevent)
-        n_records = n_nonevent + n_event
+        n_records = n_nonevent[:, 0] + n_event[:, 0]
         n_classes = len(self.monotonic_trend)
 
         # Initialize solver
-- 
2.43.0


From 7b311c9d384bd110140f38e41c2933182d55ef1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:05 +0000
Subject: [PATCH 019/120] fix: enforce heuristic, concave and convex trends of
 multiclass binning

---
 optbinning/binning/multiclass_binning.py | 67 ++++++++++--------------
 optbinning/binning/multiclass_cp.py      | 10 +++-
 optbinning/binning/multiclass_mip.py     | 10 +++-
 3 files changed, 44 insertions(+), 43 deletions(-)

diff --git a/optbinning/binning/multiclass_binning.py b/optbinning/binning/multiclass_binning.py
index 74391b9..60dc981 100644
--- a/optbinning/binning/multiclass_binning.py
+++ b/optbinning/binning/multiclass_binning.py
@@ -705,50 +705,39 @@ class MulticlassOptimalBinning(OptimalBinning):
         trend_changes = [None] * self._n_classes
 
         auto_monotonic_modes = ("auto", "auto_heuristic", "auto_asc_desc")
-        if self.monotonic_trend in auto_monotonic_modes:
-            monotonic = [auto_monotonic(n_nonevent[:, i], n_event[:, i],
-                                        self.monotonic_trend)
-                         for i in range(len(self._classes))]
-
-            if self.verbose:
-                logger.info("Optimizer: classifier predicts {} "
-                            "monotonic trends.".format(monotonic))
-        elif isinstance(self.monotonic_trend, list):
-            if len(self.monotonic_trend) != self._n_classes:
+        if (self.monotonic_trend is None or
+                self.monotonic_trend in auto_monotonic_modes):
+            monotonic_trend = [self.monotonic_trend] * self._n_classes
+        else:
+            monotonic_trend = self.monotonic_trend
+            if len(monotonic_trend) != self._n_classes:
                 raise ValueError("List of monotonic trends must be of size "
                                  "n_classes.")
 
-            monotonic = []
-            for i, m_trend in enumerate(self.monotonic_trend):
-                if m_trend in auto_monotonic_modes:
-                    trend = auto_monotonic(n_nonevent[:, i], n_event[:, i],
-                                           m_trend)
-
-                    if m_trend == "auto_heuristic":
-                        if trend in ("peak", "valley"):
-                            if trend == "peak":
-                                trend = "peak_heuristic"
-                            else:
-                                trend = "valley_heuristic"
-
-                            event_rate = n_event[:, i] / (n_nonevent[:, i] +
-                                                          n_event[:, i])
-                            trend_change = peak_valley_trend_change_heuristic(
-                                event_rate, trend)
-                            trend_changes[i] = trend_change
-
-                    monotonic.append(trend)
-
-                    if self.verbose:
-                        logger.info("Optimizer: classifier predicts {} "
-                                    "monotonic trend.".format(trend))
-                else:
-                    monotonic.append(m_trend)
-        elif self.monotonic_trend is None:
-            monotonic = [None] * self._n_classes
+        monotonic = []
+        for i, m_trend in enumerate(monotonic_trend):
+            trend = m_trend
+            if m_trend in auto_monotonic_modes:
+                trend = auto_monotonic(n_nonevent[:, i], n_event[:, i],
+                                       m_trend)
 
-            if self.verbose:
+                if (m_trend == "auto_heuristic" and
+                        trend in ("peak", "valley")):
+                    trend = trend + "_heuristic"
+
+            if trend in ("peak_heuristic", "valley_heuristic"):
+                event_rate = n_event[:, i] / (n_nonevent[:, i] + n_event[:, i])
+                trend_changes[i] = peak_valley_trend_change_heuristic(
+                    event_rate, trend)
+
+            monotonic.append(trend)
+
+        if self.verbose:
+            if self.monotonic_trend is None:
                 logger.info("Optimizer: monotonic trend not set.")
+            else:
+                logger.info("Optimizer: monotonic trends set to {}."
+                            .format(monotonic))
 
         if self.solver == "cp":
             optimizer = MulticlassBinningCP(monotonic, self.min_n_bins,
diff --git a/optbinning/binning/multiclass_cp.py b/optbinning/binning/multiclass_cp.py
index dd51217..6585e9d 100644
--- a/optbinning/binning/multiclass_cp.py
+++ b/optbinning/binning/multiclass_cp.py
@@ -84,6 +84,12 @@ class MulticlassBinningCP(BinningCP):
             if self.monotonic_trend[c] == "descending":
                 self.add_constraint_monotonic_descending(model, n, D[c], x, M)
 
+            elif self.monotonic_trend[c] == "concave":
+                self.add_constraint_monotonic_concave(model, n, D[c], x, M)
+
+            elif self.monotonic_trend[c] == "convex":
+                self.add_constraint_monotonic_convex(model, n, D[c], x, M)
+
             elif self.monotonic_trend[c] in ("peak", "valley"):
                 for i in range(n):
                     model.Add(t[c] >= i - n * (1 - y[c, i]))
@@ -96,11 +102,11 @@ class MulticlassBinningCP(BinningCP):
                     self.add_constraint_monotonic_valley(
                         model, n, D[c], x, c, y, M)
 
-            elif self.monotonic_trend == "peak_heuristic":
+            elif self.monotonic_trend[c] == "peak_heuristic":
                 self.add_constraint_monotonic_peak_heuristic(
                     model, n, D[c], x, trend_changes[c], M)
 
-            elif self.monotonic_trend == "valley_heuristic":
+            elif self.monotonic_trend[c] == "valley_heuristic":
                 self.add_constraint_monotonic_valley_heuristic(
                     model, n, D[c], x, trend_changes[c], M)
 
diff --git a/optbinning/binning/multiclass_mip.py b/optbinning/binning/multiclass_mip.py
index a858d15..f3c78d3 100644
--- a/optbinning/binning/multiclass_mip.py
+++ b/optbinning/binning/multiclass_mip.py
@@ -87,6 +87,12 @@ class MulticlassBinningMIP(BinningMIP):
             elif self.monotonic_trend[c] == "descending":
                 self.add_constraint_monotonic_descending(solver, n, D[c], x)
 
+            elif self.monotonic_trend[c] == "concave":
+                self.add_constraint_monotonic_concave(solver, n, D[c], x)
+
+            elif self.monotonic_trend[c] == "convex":
+                self.add_constraint_monotonic_convex(solver, n, D[c], x)
+
             elif self.monotonic_trend[c] in ("peak", "valley"):
                 for i in range(n):
                     solver.Add(t[c] >= i - n * (1 - y[c, i]))
@@ -99,11 +105,11 @@ class MulticlassBinningMIP(BinningMIP):
                     self.add_constraint_monotonic_valley(
                         solver, n, D[c], x, c, y)
 
-            elif self.monotonic_trend == "peak_heuristic":
+            elif self.monotonic_trend[c] == "peak_heuristic":
                 self.add_constraint_monotonic_peak_heuristic(
                     solver, n, D[c], x, trend_changes[c])
 
-            elif self.monotonic_trend == "valley_heuristic":
+            elif self.monotonic_trend[c] == "valley_heuristic":
                 self.add_constraint_monotonic_valley_heuristic(
                     solver, n, D[c], x, trend_changes[c])
 
-- 
2.43.0


From 667024e7161a94ccf41e1a91b48de6bea2e9bd95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:07 +0000
Subject: [PATCH 020/120] fix: unique names of the multiclass auxiliary
 variables

Classes with peak or valley trends shared variable names, which made the
CBC and BOP back ends abort.
---
 optbinning/binning/multiclass_cp.py  | 2 +-
 optbinning/binning/multiclass_mip.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/optbinning/binning/multiclass_cp.py b/optbinning/binning/multiclass_cp.py
index 6585e9d..1112706 100644
--- a/optbinning/binning/multiclass_cp.py
+++ b/optbinning/binning/multiclass_cp.py
@@ -146,7 +146,7 @@ class MulticlassBinningCP(BinningCP):
             for c in range(n_classes):
                 if self.monotonic_trend[c] in ("peak", "valley"):
                     for i in range(n):
-                        y[c, i] = model.NewBoolVar("y[{}]".format(i))
+                        y[c, i] = model.NewBoolVar("y[{}, {}]".format(c, i))
 
                     # Change points
                     t[c] = model.NewIntVar(0, n, "t[{}]".format(c))
diff --git a/optbinning/binning/multiclass_mip.py b/optbinning/binning/multiclass_mip.py
index f3c78d3..ebaa6e1 100644
--- a/optbinning/binning/multiclass_mip.py
+++ b/optbinning/binning/multiclass_mip.py
@@ -149,7 +149,7 @@ class MulticlassBinningMIP(BinningMIP):
             for c in range(n_classes):
                 if self.monotonic_trend[c] in ("peak", "valley"):
                     for i in range(n):
-                        y[c, i] = solver.BoolVar("y[{}]".format(i))
+                        y[c, i] = solver.BoolVar("y[{}, {}]".format(c, i))
 
                     # Change points
                     t[c] = solver.IntVar(0, n, "t[{}]".format(c))
-- 
2.43.0


From 17781f97ac32ecb4b0e6d592018068579148069c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:23 +0000
Subject: [PATCH 021/120] fix: keep the proportions of the scenario weights in
 the objective

Truncated integer weights changed the expected IV being maximised and
could drop scenarios.
---
 optbinning/binning/cp.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/optbinning/binning/cp.py b/optbinning/binning/cp.py
index 362e662..36b41db 100644
--- a/optbinning/binning/cp.py
+++ b/optbinning/binning/cp.py
@@ -186,9 +186,9 @@ class BinningCP:
         n_records = n_nonevent + n_event
         n_scenarios = len(w)
 
-        if w is not None:
-            sw = 10 ** np.abs(np.log10(np.min(w)))
-            w = [np.int64(w[s] * sw) for s in range(n_scenarios)]
+        # Integer weights, preserving the proportions among scenarios
+        w = np.rint(M * np.asarray(w) / np.max(w)).astype(np.int64)
+        w = [int(ws) for ws in w // np.gcd.reduce(w)]
 
         # Initialize model
         model = cp_model.CpModel()
-- 
2.43.0


From 34e5da2e76a5a273f0988a8464f5cf8237faba28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:28 +0000
Subject: [PATCH 022/120] fix: scenario binning keeps user_splits_fixed aligned
 with the splits

Fixed flags of unsorted or refined user splits were applied to the wrong
splits, and the user_splits_fixed parameter was overwritten.
---
 optbinning/binning/uncertainty/binning_scenarios.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/optbinning/binning/uncertainty/binning_scenarios.py b/optbinning/binning/uncertainty/binning_scenarios.py
index 8b5c8d3..6023e16 100644
--- a/optbinning/binning/uncertainty/binning_scenarios.py
+++ b/optbinning/binning/uncertainty/binning_scenarios.py
@@ -481,6 +481,12 @@ class SBOptimalBinning(OptimalBinning):
 
         _check_parameters(**self.get_params())
 
+        # Reset state of a previous fit
+        self._n_refinements = 0
+        self._optimizer = None
+        self._user_splits = None
+        self._user_splits_fixed = None
+
         # Pre-processing
         if self.verbose:
             logger.info("Pre-processing started.")
@@ -534,8 +540,10 @@ class SBOptimalBinning(OptimalBinning):
             sorted_idx = np.argsort(user_splits)
             user_splits = user_splits[sorted_idx]
 
+            self._user_splits = user_splits
+
             if self.user_splits_fixed is not None:
-                self.user_splits_fixed = np.asarray(
+                self._user_splits_fixed = np.asarray(
                     self.user_splits_fixed)[sorted_idx]
 
             splits, n_nonevent, n_event = self._prebinning_refinement(
@@ -760,7 +768,7 @@ class SBOptimalBinning(OptimalBinning):
                               self.max_n_bins, min_bin_size, max_bin_size,
                               None, None, None, None, self.min_event_rate_diff,
                               self.max_pvalue, self.max_pvalue_policy, None,
-                              self.user_splits_fixed, self.time_limit)
+                              self._user_splits_fixed, self.time_limit)
         if weights is None:
             weights = np.ones(self._n_scenarios, int)
 
-- 
2.43.0


From 56baa93ee3080d404b6639f1eda56165d826bbd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:28 +0000
Subject: [PATCH 023/120] fix: scenario binning without splits

Fitting crashed when no split point remained after pre-binning.
---
 optbinning/binning/uncertainty/binning_scenarios.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/optbinning/binning/uncertainty/binning_scenarios.py b/optbinning/binning/uncertainty/binning_scenarios.py
index 6023e16..1ae5a34 100644
--- a/optbinning/binning/uncertainty/binning_scenarios.py
+++ b/optbinning/binning/uncertainty/binning_scenarios.py
@@ -575,6 +575,13 @@ class SBOptimalBinning(OptimalBinning):
 
         time_postprocessing = time.perf_counter()
 
+        if not len(n_nonevent):
+            # A single bin with all the clean records of each scenario.
+            n_nonevent = np.empty((1, self._n_scenarios), dtype=np.int64)
+            n_event = np.empty((1, self._n_scenarios), dtype=np.int64)
+            for s in range(self._n_scenarios):
+                n_nonevent[0, s], n_event[0, s] = target_info(y_clean[s])
+
         self._n_nonevent = 0
         self._n_event = 0
         self._binning_tables = []
@@ -738,10 +745,10 @@ class SBOptimalBinning(OptimalBinning):
     def _fit_optimizer(self, splits, n_nonevent, n_event, weights):
         time_init = time.perf_counter()
 
-        if not len(n_nonevent):
+        if len(n_nonevent) <= 1:
             self._status = "OPTIMAL"
             self._splits_optimal = splits
-            self._solution = np.zeros(len(splits), dtype=bool)
+            self._solution = np.ones(len(n_nonevent), dtype=bool)
 
             if self.verbose:
                 logger.warning("Optimizer: no bins after pre-binning.")
-- 
2.43.0


From 6c0512ddb3aa8c16bb147676178afa94f47e04b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:04 +0000
Subject: [PATCH 024/120] fix: 2D binning without a feasible solution or with
 rectangles of equal size

Infeasible problems crashed (solver cp) or dropped every clean record from
the binning table (solver mip); selecting among rows of equal length failed.
---
 optbinning/binning/multidimensional/binning_2d.py  | 12 ++++++++++--
 .../multidimensional/continuous_binning_2d.py      | 14 ++++++++++++--
 optbinning/binning/multidimensional/cp_2d.py       |  2 +-
 3 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/optbinning/binning/multidimensional/binning_2d.py b/optbinning/binning/multidimensional/binning_2d.py
index ac66cb1..959f6d2 100644
--- a/optbinning/binning/multidimensional/binning_2d.py
+++ b/optbinning/binning/multidimensional/binning_2d.py
@@ -697,12 +697,13 @@ class OptimalBinning2D(OptimalBinning):
         D = np.empty(m * n, dtype=float)
         P = np.empty(m * n, dtype=int)
 
-        selected_rows = np.array(rows, dtype=object)[self._solution]
+        selected_rows = [np.array(row) for row, selected
+                         in zip(rows, self._solution) if selected]
 
         self._selected_rows = selected_rows
         self._m, self._n = m, n
 
-        n_selected_rows = selected_rows.shape[0] + 2
+        n_selected_rows = len(selected_rows) + 2
 
         opt_n_nonevent = np.empty(n_selected_rows, dtype=int)
         opt_n_event = np.empty(n_selected_rows, dtype=int)
@@ -902,6 +903,13 @@ class OptimalBinning2D(OptimalBinning):
 
         status, solution = optimizer.solve()
 
+        if not solution.any():
+            # No feasible solution: a single bin with all the clean records
+            rows = [list(range(n_grid))]
+            n_event = np.array([E.sum()])
+            n_nonevent = np.array([NE.sum()])
+            solution = np.array([True])
+
         self._solution = solution
 
         self._optimizer, self._time_optimizer = solver_statistics(
diff --git a/optbinning/binning/multidimensional/continuous_binning_2d.py b/optbinning/binning/multidimensional/continuous_binning_2d.py
index f24102e..35091d2 100644
--- a/optbinning/binning/multidimensional/continuous_binning_2d.py
+++ b/optbinning/binning/multidimensional/continuous_binning_2d.py
@@ -622,12 +622,13 @@ class ContinuousOptimalBinning2D(OptimalBinning2D):
         D = np.empty(m * n, dtype=float)
         P = np.empty(m * n, dtype=int)
 
-        selected_rows = np.array(rows, dtype=object)[self._solution]
+        selected_rows = [np.array(row) for row, selected
+                         in zip(rows, self._solution) if selected]
 
         self._selected_rows = selected_rows
         self._m, self._n = m, n
 
-        n_selected_rows = selected_rows.shape[0] + 2
+        n_selected_rows = len(selected_rows) + 2
 
         opt_sums = np.empty(n_selected_rows, dtype=float)
         opt_n_records = np.empty(n_selected_rows, dtype=int)
@@ -822,6 +823,15 @@ class ContinuousOptimalBinning2D(OptimalBinning2D):
 
         status, solution = optimizer.solve()
 
+        if not solution.any():
+            # No feasible solution: a single bin with all the clean records
+            rows = [list(range(n_grid))]
+            n_records = np.array([R.sum()])
+            sums = np.array([S.sum()])
+            stds = np.sqrt(np.maximum(
+                SS.sum() / n_records - (sums / n_records) ** 2, 0))
+            solution = np.array([True])
+
         self._solution = solution
 
         self._optimizer, self._time_optimizer = solver_statistics(
diff --git a/optbinning/binning/multidimensional/cp_2d.py b/optbinning/binning/multidimensional/cp_2d.py
index 8918288..ce14358 100644
--- a/optbinning/binning/multidimensional/cp_2d.py
+++ b/optbinning/binning/multidimensional/cp_2d.py
@@ -100,7 +100,7 @@ class Binning2DCP:
             solution = np.array([self.solver_.BooleanValue(self._x[i])
                                  for i in range(self._n_rectangles)])
         else:
-            solution = np.zeros(self._n_rectangles).astype(np.bool)
+            solution = np.zeros(self._n_rectangles).astype(bool)
 
         return status_name, solution
 
-- 
2.43.0


From 0ef32800df09e488f4877ad478e6f39025307e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:04 +0000
Subject: [PATCH 025/120] fix: count 2D records with missing and special values
 once

A record with a missing value in one variable and a special code in the
other was counted in both rows of the binning table.
---
 optbinning/binning/multidimensional/preprocessing_2d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optbinning/binning/multidimensional/preprocessing_2d.py b/optbinning/binning/multidimensional/preprocessing_2d.py
index 11d4b74..82d9bfd 100644
--- a/optbinning/binning/multidimensional/preprocessing_2d.py
+++ b/optbinning/binning/multidimensional/preprocessing_2d.py
@@ -88,7 +88,7 @@ def split_data_2d(dtype_x, dtype_y, x, y, z, special_codes_x=None,
         special_mask_y = np.zeros(len(y), dtype=bool)
 
     missing_mask = missing_mask_x | missing_mask_y
-    special_mask = special_mask_x | special_mask_y
+    special_mask = (special_mask_x | special_mask_y) & ~missing_mask
 
     clean_mask = ~missing_mask & ~special_mask
 
-- 
2.43.0


From 2bdda1a393a7f48f7a47d02e69816344bf790a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:04 +0000
Subject: [PATCH 026/120] fix: 2D transform of unknown categories to indices

Unknown categories were assigned the index of the first bin.
---
 optbinning/binning/multidimensional/transformations_2d.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/optbinning/binning/multidimensional/transformations_2d.py b/optbinning/binning/multidimensional/transformations_2d.py
index c3ff7c4..e72f7f7 100644
--- a/optbinning/binning/multidimensional/transformations_2d.py
+++ b/optbinning/binning/multidimensional/transformations_2d.py
@@ -62,6 +62,8 @@ def _apply_transform(dtype_x, dtype_y, splits_x, splits_y, special_codes_x,
 
     if metric == "bins":
         z_clean_transform = np.full(x_clean.shape, "", dtype=object)
+    elif metric == "indices":
+        z_clean_transform = np.full(x_clean.shape, -1, dtype=int)
     else:
         z_clean_transform = np.zeros(x_clean.shape)
 
-- 
2.43.0


From 87cc9ed26a1ca1e0c22cb3b7540748eb3c1741aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:04 +0000
Subject: [PATCH 027/120] fix: 2D transform with special codes given as numpy
 arrays

---
 optbinning/binning/multidimensional/transformations_2d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optbinning/binning/multidimensional/transformations_2d.py b/optbinning/binning/multidimensional/transformations_2d.py
index e72f7f7..9f33322 100644
--- a/optbinning/binning/multidimensional/transformations_2d.py
+++ b/optbinning/binning/multidimensional/transformations_2d.py
@@ -89,7 +89,7 @@ def _apply_transform(dtype_x, dtype_y, splits_x, splits_y, special_codes_x,
 
     z_transform[clean_mask] = z_clean_transform
 
-    if special_codes_x or special_codes_y:
+    if special_codes_x is not None or special_codes_y is not None:
         if (metric_special == "empirical" or
             (metric == "indices" and not isinstance(metric_special, int)) or
                 metric == "bins"):
-- 
2.43.0


From 50501ae0411eb1a90070a4e025472db3fc4f4574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:16 +0000
Subject: [PATCH 028/120] fix: 2D binning with strategy cart and at most one
 split per axis

---
 optbinning/binning/multidimensional/binning_2d.py            | 2 +-
 optbinning/binning/multidimensional/continuous_binning_2d.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/optbinning/binning/multidimensional/binning_2d.py b/optbinning/binning/multidimensional/binning_2d.py
index 959f6d2..3e4ffab 100644
--- a/optbinning/binning/multidimensional/binning_2d.py
+++ b/optbinning/binning/multidimensional/binning_2d.py
@@ -636,7 +636,7 @@ class OptimalBinning2D(OptimalBinning):
             n_splits_x = len(splits_x)
             n_splits_y = len(splits_y)
 
-            clf_nodes = n_splits_x * n_splits_y
+            clf_nodes = max(2, n_splits_x * n_splits_y)
 
             indices_x = np.digitize(x_clean, splits_x, right=False)
             n_bins_x = n_splits_x + 1
diff --git a/optbinning/binning/multidimensional/continuous_binning_2d.py b/optbinning/binning/multidimensional/continuous_binning_2d.py
index 35091d2..e1e7d9b 100644
--- a/optbinning/binning/multidimensional/continuous_binning_2d.py
+++ b/optbinning/binning/multidimensional/continuous_binning_2d.py
@@ -561,7 +561,7 @@ class ContinuousOptimalBinning2D(OptimalBinning2D):
             n_splits_x = len(splits_x)
             n_splits_y = len(splits_y)
 
-            clf_nodes = n_splits_x * n_splits_y
+            clf_nodes = max(2, n_splits_x * n_splits_y)
 
             indices_x = np.digitize(x_clean, splits_x, right=False)
             n_bins_x = n_splits_x + 1
-- 
2.43.0


From 0a74d737f6913a6046c4f9216440d5d2dcc931e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:16 +0000
Subject: [PATCH 029/120] fix: apply split_digits in 2D binning

---
 optbinning/binning/multidimensional/binning_2d.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/optbinning/binning/multidimensional/binning_2d.py b/optbinning/binning/multidimensional/binning_2d.py
index 3e4ffab..9a63fd7 100644
--- a/optbinning/binning/multidimensional/binning_2d.py
+++ b/optbinning/binning/multidimensional/binning_2d.py
@@ -771,7 +771,12 @@ class OptimalBinning2D(OptimalBinning):
                                 min_bin_size=min_bin_size,
                                 problem_type=self._problem_type).fit(x, z)
 
-        return prebinning.splits
+        splits = prebinning.splits
+
+        if dtype == "numerical" and self.split_digits is not None:
+            splits = np.unique(np.round(splits, self.split_digits))
+
+        return splits
 
     def _prebinning_matrices(self, splits_x, splits_y, x_clean, y_clean,
                              z_clean, x_missing, y_missing, z_missing,
-- 
2.43.0


From 765c00d20890bd036725f3b28179019d76978ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:16 +0000
Subject: [PATCH 030/120] fix: enforce the x trend of 2D binning with strategy
 cart

The rectangles were flattened, so that only the last cell was compared
with its right neighbour.
---
 optbinning/binning/multidimensional/model_data_cart_2d.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/optbinning/binning/multidimensional/model_data_cart_2d.py b/optbinning/binning/multidimensional/model_data_cart_2d.py
index 4e9b471..2a2c0fd 100644
--- a/optbinning/binning/multidimensional/model_data_cart_2d.py
+++ b/optbinning/binning/multidimensional/model_data_cart_2d.py
@@ -175,11 +175,11 @@ def model_data_cart(tree, divergence, NE, E, monotonicity_x, monotonicity_y,
                                     cols[r].append(n_rectangles)
 
                                 if monotonicity_x is not None:
-                                    out = np.array([G[M]])
+                                    out = G[M].reshape(-1, max(sc))
                                     outer_x.append(list(out[:, -1]))
 
                                 if monotonicity_y is not None:
-                                    out = np.array([G[M]])
+                                    out = G[M].reshape(-1, max(sc))
                                     outer_y.append(list(out[-1, :]))
 
                                 rows.append(row)
@@ -293,11 +293,11 @@ def continuous_model_data_cart(tree, R, S, SS, monotonicity_x, monotonicity_y,
                                     cols[r].append(n_rectangles)
 
                                 if monotonicity_x is not None:
-                                    out = np.array([G[M]])
+                                    out = G[M].reshape(-1, max(sc))
                                     outer_x.append(list(out[:, -1]))
 
                                 if monotonicity_y is not None:
-                                    out = np.array([G[M]])
+                                    out = G[M].reshape(-1, max(sc))
                                     outer_y.append(list(out[-1, :]))
 
                                 rows.append(row)
-- 
2.43.0


From 35f7b2d70b2516634387e0a02dbecbaa4a8419b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:16 +0000
Subject: [PATCH 031/120] fix: round the MIP solution of 2D binning

Values within the integrality tolerance of zero were selected.
---
 optbinning/binning/multidimensional/mip_2d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optbinning/binning/multidimensional/mip_2d.py b/optbinning/binning/multidimensional/mip_2d.py
index 2c94c7a..c8ff017 100644
--- a/optbinning/binning/multidimensional/mip_2d.py
+++ b/optbinning/binning/multidimensional/mip_2d.py
@@ -98,7 +98,7 @@ class Binning2DMIP:
             solution = np.array([self._x[i].solution_value()
                                  for i in range(self._n_rectangles)])
 
-            solution = solution.astype(bool)
+            solution = solution > 0.5
         else:
             if status == pywraplp.Solver.ABNORMAL:
                 status_name = "ABNORMAL"
-- 
2.43.0


From b1647657d6206103f885d3feaf93541c98b3d358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:00 +0000
Subject: [PATCH 032/120] fix: 2D binning without admissible rectangles

The divergence of no rectangle, a size regularization with no record and a
CART without splits crashed instead of leading to a single bin.
---
 optbinning/binning/multidimensional/cp_2d.py              | 2 +-
 optbinning/binning/multidimensional/mip_2d.py             | 2 +-
 optbinning/binning/multidimensional/model_data_2d.py      | 4 +++-
 optbinning/binning/multidimensional/model_data_cart_2d.py | 8 +++++++-
 4 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/optbinning/binning/multidimensional/cp_2d.py b/optbinning/binning/multidimensional/cp_2d.py
index ce14358..77e76b5 100644
--- a/optbinning/binning/multidimensional/cp_2d.py
+++ b/optbinning/binning/multidimensional/cp_2d.py
@@ -48,7 +48,7 @@ class Binning2DCP:
 
         # Objective function
         if self.gamma:
-            total_records = int(n_records.sum())
+            total_records = max(int(n_records.sum()), 1)
             regularization = int(np.ceil(scale * self.gamma / total_records))
             pmax = model.NewIntVar(0, total_records, "pmax")
             pmin = model.NewIntVar(0, total_records, "pmin")
diff --git a/optbinning/binning/multidimensional/mip_2d.py b/optbinning/binning/multidimensional/mip_2d.py
index c8ff017..46c3754 100644
--- a/optbinning/binning/multidimensional/mip_2d.py
+++ b/optbinning/binning/multidimensional/mip_2d.py
@@ -46,7 +46,7 @@ class Binning2DMIP:
 
         # Objective function
         if self.gamma:
-            total_records = int(n_records.sum())
+            total_records = max(int(n_records.sum()), 1)
             regularization = self.gamma / total_records
             pmax = solver.NumVar(0, total_records, "pmax")
             pmin = solver.NumVar(0, total_records, "pmin")
diff --git a/optbinning/binning/multidimensional/model_data_2d.py b/optbinning/binning/multidimensional/model_data_2d.py
index 90f1e90..ffa4a99 100644
--- a/optbinning/binning/multidimensional/model_data_2d.py
+++ b/optbinning/binning/multidimensional/model_data_2d.py
@@ -148,7 +148,9 @@ def model_data(divergence, NE, E, monotonicity_x, monotonicity_y, scale,
     p = n_event / E.sum()
     q = n_nonevent / NE.sum()
 
-    if divergence == "iv":
+    if n_rectangles == 0:
+        iv = np.zeros(0)
+    elif divergence == "iv":
         iv = jeffrey(p, q)
     elif divergence == "js":
         iv = jensen_shannon(p, q)
diff --git a/optbinning/binning/multidimensional/model_data_cart_2d.py b/optbinning/binning/multidimensional/model_data_cart_2d.py
index 2a2c0fd..fcc3073 100644
--- a/optbinning/binning/multidimensional/model_data_cart_2d.py
+++ b/optbinning/binning/multidimensional/model_data_cart_2d.py
@@ -29,6 +29,10 @@ def refine_rectangles(rectangles):
 
 
 def get_rectangles(tree, feature_names):
+    if tree.tree_.node_count == 1:
+        # Tree without splits: a single rectangle
+        return [[]]
+
     left = tree.tree_.children_left
     right = tree.tree_.children_right
     threshold = tree.tree_.threshold
@@ -214,7 +218,9 @@ def model_data_cart(tree, divergence, NE, E, monotonicity_x, monotonicity_y,
     p = n_event / E.sum()
     q = n_nonevent / NE.sum()
 
-    if divergence == "iv":
+    if n_rectangles == 0:
+        iv = np.zeros(0)
+    elif divergence == "iv":
         iv = jeffrey(p, q)
     elif divergence == "js":
         iv = jensen_shannon(p, q)
-- 
2.43.0


From 0acca841899971ca43070258d1a1d4f6cdeafbda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:00 +0000
Subject: [PATCH 033/120] fix: continuous 2D binning with gamma and solver cp

The number of records was stored as float, rejected by the CP solver.
---
 optbinning/binning/multidimensional/continuous_binning_2d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optbinning/binning/multidimensional/continuous_binning_2d.py b/optbinning/binning/multidimensional/continuous_binning_2d.py
index e1e7d9b..f771a82 100644
--- a/optbinning/binning/multidimensional/continuous_binning_2d.py
+++ b/optbinning/binning/multidimensional/continuous_binning_2d.py
@@ -720,7 +720,7 @@ class ContinuousOptimalBinning2D(OptimalBinning2D):
         indices_y = np.digitize(y_clean, splits_y, right=False)
         n_bins_y = n_splits_y + 1
 
-        R = np.empty((n_bins_y, n_bins_x), dtype=float)
+        R = np.empty((n_bins_y, n_bins_x), dtype=int)
         S = np.empty((n_bins_y, n_bins_x), dtype=float)
         SS = np.empty((n_bins_y, n_bins_x), dtype=float)
 
-- 
2.43.0


From ccc773937b8990640ba52e0794ced5ca7970828a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:00 +0000
Subject: [PATCH 034/120] fix: standard deviation of constant bins in
 continuous 2D binning

Rounding made the variance negative and the reported deviation NaN.
---
 optbinning/binning/multidimensional/model_data_2d.py      | 2 +-
 optbinning/binning/multidimensional/model_data_cart_2d.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/optbinning/binning/multidimensional/model_data_2d.py b/optbinning/binning/multidimensional/model_data_2d.py
index ffa4a99..42b40ae 100644
--- a/optbinning/binning/multidimensional/model_data_2d.py
+++ b/optbinning/binning/multidimensional/model_data_2d.py
@@ -255,7 +255,7 @@ def continuous_model_data(R, S, SS, monotonicity_x, monotonicity_y, scale,
     # Mean and norm
     t_mean = S.sum() / R.sum()
     mean = sums / n_records
-    stds = np.sqrt(ssums / n_records - mean ** 2)
+    stds = np.sqrt(np.maximum(ssums / n_records - mean ** 2, 0))
     norm = np.absolute(mean - t_mean)
 
     if scale is not None:
diff --git a/optbinning/binning/multidimensional/model_data_cart_2d.py b/optbinning/binning/multidimensional/model_data_cart_2d.py
index fcc3073..be0fcea 100644
--- a/optbinning/binning/multidimensional/model_data_cart_2d.py
+++ b/optbinning/binning/multidimensional/model_data_cart_2d.py
@@ -335,7 +335,7 @@ def continuous_model_data_cart(tree, R, S, SS, monotonicity_x, monotonicity_y,
     # Mean and norm
     t_mean = S.sum() / R.sum()
     mean = sums / n_records
-    stds = np.sqrt(ssums / n_records - mean ** 2)
+    stds = np.sqrt(np.maximum(ssums / n_records - mean ** 2, 0))
     norm = np.absolute(mean - t_mean)
 
     if scale is not None:
-- 
2.43.0


From 178c5cd455637dbf7f370afc713f5b2a6d9ee2d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:42 +0000
Subject: [PATCH 035/120] fix: empirical special and missing values in
 piecewise binary transform

Events and non-events were swapped, so that 1 - event rate was returned.
---
 optbinning/binning/piecewise/transformations.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/optbinning/binning/piecewise/transformations.py b/optbinning/binning/piecewise/transformations.py
index 9ead4b1..2000fae 100644
--- a/optbinning/binning/piecewise/transformations.py
+++ b/optbinning/binning/piecewise/transformations.py
@@ -59,8 +59,8 @@ def _apply_transform(x, c, lb, ub, special_codes, metric_special,
 
 
 def transform_binary_target(splits, x, c, lb, ub, n_nonevent, n_event,
-                            n_event_special, n_nonevent_special,
-                            n_event_missing, n_nonevent_missing,
+                            n_nonevent_special, n_event_special,
+                            n_nonevent_missing, n_event_missing,
                             special_codes, metric, metric_special,
                             metric_missing, check_input=False):
 
-- 
2.43.0


From e08b1bec64ef68db286ab84ef36f0568280599a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:42 +0000
Subject: [PATCH 036/120] fix: WoE of empty or pure special and missing bins in
 piecewise transform

The WoE was infinite, or the fit crashed with a division by zero.
---
 .../binning/piecewise/transformations.py      | 26 +++++++++----------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/optbinning/binning/piecewise/transformations.py b/optbinning/binning/piecewise/transformations.py
index 2000fae..a785dcd 100644
--- a/optbinning/binning/piecewise/transformations.py
+++ b/optbinning/binning/piecewise/transformations.py
@@ -93,36 +93,34 @@ def transform_binary_target(splits, x, c, lb, ub, n_nonevent, n_event,
     event_rate_missing = metric_missing
 
     if metric_special == "empirical":
-        n_event_special = np.asarray(n_event_special)
-        n_nonevent_special = np.asarray(n_nonevent_special)
+        # Event rate and WoE of empty or pure bins are set to zero
+        n_event_special = np.atleast_1d(n_event_special)
+        n_nonevent_special = np.atleast_1d(n_nonevent_special)
 
         event_rate_special = np.zeros(n_special)
         n_records_special = n_event_special + n_nonevent_special
 
         mask = (n_event_special > 0) & (n_nonevent_special > 0)
 
-        if n_special > 1:
-            event_rate_special[mask] = (
-                n_event_special[mask] / n_records_special[mask])
-        elif mask:
-            event_rate_special = n_event_special / n_records_special
+        event_rate_special[mask] = (
+            n_event_special[mask] / n_records_special[mask])
 
         if metric == "woe":
-            event_rate_special = transform_event_rate_to_woe(
-                event_rate_special, n_nonevent, n_event)
+            event_rate_special[mask] = transform_event_rate_to_woe(
+                event_rate_special[mask], n_nonevent, n_event)
 
     if metric_missing == "empirical":
         n_records_missing = n_event_missing + n_nonevent_missing
 
-        if n_records_missing > 0:
+        if n_event_missing > 0 and n_nonevent_missing > 0:
             event_rate_missing = n_event_missing / n_records_missing
+
+            if metric == "woe":
+                event_rate_missing = transform_event_rate_to_woe(
+                    event_rate_missing, n_nonevent, n_event)
         else:
             event_rate_missing = 0
 
-        if metric == "woe":
-            event_rate_missing = transform_event_rate_to_woe(
-                event_rate_missing, n_nonevent, n_event)
-
     x_transform = _apply_transform(
         x, c, lb, ub, special_codes, metric_special, metric_missing,
         clean_mask, special_mask, missing_mask, indices, x_clean, n_bins,
-- 
2.43.0


From bfc38cd0a12ac250d3d9054352d57a96f3ba87ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:42 +0000
Subject: [PATCH 037/120] fix: special codes given as array in piecewise
 binning

---
 optbinning/binning/piecewise/transformations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optbinning/binning/piecewise/transformations.py b/optbinning/binning/piecewise/transformations.py
index a785dcd..efb9823 100644
--- a/optbinning/binning/piecewise/transformations.py
+++ b/optbinning/binning/piecewise/transformations.py
@@ -34,7 +34,7 @@ def _apply_transform(x, c, lb, ub, special_codes, metric_special,
 
     x_transform[clean_mask] = x_clean_transform
 
-    if special_codes:
+    if special_codes is not None:
         if isinstance(special_codes, dict):
             xt = pd.Series(x)
             for i, (k, s) in enumerate(special_codes.items()):
-- 
2.43.0


From abdf233164e90f9d1a39871c8f32e740f9e18f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:11 +0000
Subject: [PATCH 038/120] fix: Kolmogorov-Smirnov statistic of predictions

The population was counted from zero, so that the perfect separation of the
last event was missed, and ties were broken by the order of the records.
---
 optbinning/metrics/classification.py | 6 +++++-
 optbinning/scorecard/plots.py        | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/optbinning/metrics/classification.py b/optbinning/metrics/classification.py
index ab8cd80..791e0fc 100644
--- a/optbinning/metrics/classification.py
+++ b/optbinning/metrics/classification.py
@@ -54,13 +54,17 @@ def ks(y_true, y_pred_proba):
     yy = y_true[idx]
 
     cum_event = np.cumsum(yy)
-    cum_population = np.arange(0, n_samples)
+    cum_population = np.arange(1, n_samples + 1)
     cum_nonevent = cum_population - cum_event
 
     p_event = cum_event / n_event
     p_nonevent = cum_nonevent / n_nonevent
 
     p_diff = p_nonevent - p_event
+
+    # Tied predictions share the same threshold
+    p_diff[:-1][np.diff(y_pred_proba[idx]) == 0] = -np.inf
+
     ks_max_idx = np.argmax(p_diff)
     ks_score = p_diff[ks_max_idx]
 
diff --git a/optbinning/scorecard/plots.py b/optbinning/scorecard/plots.py
index 1873ac5..f634d4e 100644
--- a/optbinning/scorecard/plots.py
+++ b/optbinning/scorecard/plots.py
@@ -221,13 +221,17 @@ def plot_ks(y, y_pred, title=None, xlabel=None, ylabel=None,
     pp = y_pred[idx]
 
     cum_event = np.cumsum(yy)
-    cum_population = np.arange(0, n_samples)
+    cum_population = np.arange(1, n_samples + 1)
     cum_nonevent = cum_population - cum_event
 
     p_event = cum_event / n_event
     p_nonevent = cum_nonevent / n_nonevent
 
     p_diff = p_nonevent - p_event
+
+    # Tied predictions share the same threshold
+    p_diff[:-1][np.diff(pp) == 0] = -np.inf
+
     ks_score = np.max(p_diff)
     ks_max_idx = np.argmax(p_diff)
 
-- 
2.43.0


From 3e177ce5951db14ba506f5d16a76daed963c881f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:11 +0000
Subject: [PATCH 039/120] fix: piecewise binning keeps its estimator parameter

Fitting replaced estimator=None by a fitted logistic regression.
---
 optbinning/binning/piecewise/binning.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/optbinning/binning/piecewise/binning.py b/optbinning/binning/piecewise/binning.py
index 73eb33b..65d5a22 100644
--- a/optbinning/binning/piecewise/binning.py
+++ b/optbinning/binning/piecewise/binning.py
@@ -357,8 +357,10 @@ class OptimalPWBinning(BasePWBinning):
         # Fit estimator and compute event_rate = P[Y=1, X=x]
         time_estimator = time.perf_counter()
 
-        if self.estimator is None:
-            self.estimator = LogisticRegression()
+        estimator = self.estimator
+
+        if estimator is None:
+            estimator = LogisticRegression()
 
             if self.verbose:
                 logger.info("Pre-binning: set logistic regression as an "
@@ -367,8 +369,8 @@ class OptimalPWBinning(BasePWBinning):
         if self.verbose:
             logger.info("Pre-binning: estimator fitting started.")
 
-        self.estimator.fit(x_clean.reshape(-1, 1), y_clean)
-        event_rate = self.estimator.predict_proba(x_clean.reshape(-1, 1))[:, 1]
+        estimator.fit(x_clean.reshape(-1, 1), y_clean)
+        event_rate = estimator.predict_proba(x_clean.reshape(-1, 1))[:, 1]
 
         self._time_estimator = time.perf_counter() - time_estimator
 
-- 
2.43.0


From 01a2e007ee87a5a9cee4ab2003f3d18df7031b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:11 +0000
Subject: [PATCH 040/120] fix: detect outliers once in piecewise binning

The detector was run again on the remaining records, which then were missing
from the table.
---
 optbinning/binning/piecewise/base.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/optbinning/binning/piecewise/base.py b/optbinning/binning/piecewise/base.py
index 7302d6f..3add498 100644
--- a/optbinning/binning/piecewise/base.py
+++ b/optbinning/binning/piecewise/base.py
@@ -372,8 +372,6 @@ class BasePWBinning(Base, BaseEstimator):
                 monotonic_trend=monotonic_trend,
                 max_pvalue=self.max_pvalue,
                 max_pvalue_policy=self.max_pvalue_policy,
-                outlier_detector=self.outlier_detector,
-                outlier_params=self.outlier_params,
                 user_splits=self.user_splits,
                 user_splits_fixed=self.user_splits_fixed,
                 split_digits=self.split_digits)
@@ -391,8 +389,6 @@ class BasePWBinning(Base, BaseEstimator):
                 monotonic_trend=monotonic_trend,
                 max_pvalue=self.max_pvalue,
                 max_pvalue_policy=self.max_pvalue_policy,
-                outlier_detector=self.outlier_detector,
-                outlier_params=self.outlier_params,
                 user_splits=self.user_splits,
                 user_splits_fixed=self.user_splits_fixed,
                 split_digits=self.split_digits)
-- 
2.43.0


From 25250db2a99ece460fb6cc9c1f51653c3fbbe786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:11 +0000
Subject: [PATCH 041/120] fix: piecewise binning with as many subsamples as
 records

---
 optbinning/binning/piecewise/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optbinning/binning/piecewise/base.py b/optbinning/binning/piecewise/base.py
index 3add498..43a0903 100644
--- a/optbinning/binning/piecewise/base.py
+++ b/optbinning/binning/piecewise/base.py
@@ -405,7 +405,7 @@ class BasePWBinning(Base, BaseEstimator):
         n_bins = n_splits + 1
         self._n_bins = n_bins
 
-        if self.n_subsamples is None or self.n_subsamples > len(x):
+        if self.n_subsamples is None or self.n_subsamples >= len(x):
             x_subsamples = x
             pred_subsamples = prediction
 
-- 
2.43.0


From b42c972a87d47c971ec4cbca9769e016bd5a0d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:49 +0000
Subject: [PATCH 042/120] fix: piecewise analysis with a dictionary of special
 codes

The tests and Cramer's V also covered the rows of all but one special.
---
 optbinning/binning/piecewise/binning_statistics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/optbinning/binning/piecewise/binning_statistics.py b/optbinning/binning/piecewise/binning_statistics.py
index 3092256..9e5f564 100644
--- a/optbinning/binning/piecewise/binning_statistics.py
+++ b/optbinning/binning/piecewise/binning_statistics.py
@@ -316,7 +316,7 @@ class PWBinningTable(BinningTable):
 
         # Significance tests
         n_bins = len(self._n_records)
-        n_metric = n_bins - 2
+        n_metric = n_bins - 1 - self._n_specials
 
         n_nev = self.n_nonevent[:n_metric]
         n_ev = self.n_event[:n_metric]
@@ -628,7 +628,7 @@ class PWContinuousBinningTable:
 
         # Significance tests
         n_bins = len(self.n_records)
-        n_metric = n_bins - 2
+        n_metric = n_bins - 1 - self._n_specials
 
         n_records = self.n_records[:n_metric]
         mean = self._mean[:n_metric]
-- 
2.43.0


From 968f07715fd2a73b2a571397e2cdeb46fb306319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:40 +0000
Subject: [PATCH 043/120] fix: bounds of fit_transform in piecewise continuous
 binning

---
 optbinning/binning/piecewise/continuous_binning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optbinning/binning/piecewise/continuous_binning.py b/optbinning/binning/piecewise/continuous_binning.py
index b80500a..52b6406 100644
--- a/optbinning/binning/piecewise/continuous_binning.py
+++ b/optbinning/binning/piecewise/continuous_binning.py
@@ -242,7 +242,7 @@ class ContinuousOptimalPWBinning(BasePWBinning):
         x_new : numpy array, shape = (n_samples,)
             Transformed array.
         """
-        return self.fit(x, y, check_input).transform(
+        return self.fit(x, y, lb, ub, check_input).transform(
             x, metric_special, metric_missing, lb, ub, check_input)
 
     def transform(self, x, metric_special=0, metric_missing=0,
-- 
2.43.0


From 53e7406e0e09017ca7aa33801fe5c7b2e00462ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:48 +0000
Subject: [PATCH 044/120] fix: stale missing statistics in piecewise continuous
 binning

---
 optbinning/binning/piecewise/continuous_binning.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/optbinning/binning/piecewise/continuous_binning.py b/optbinning/binning/piecewise/continuous_binning.py
index 52b6406..f9d8f6b 100644
--- a/optbinning/binning/piecewise/continuous_binning.py
+++ b/optbinning/binning/piecewise/continuous_binning.py
@@ -362,6 +362,10 @@ class ContinuousOptimalPWBinning(BasePWBinning):
             self._std_missing = np.std(y_missing)
             self._min_target_missing = np.min(y_missing)
             self._max_target_missing = np.max(y_missing)
+        else:
+            self._std_missing = None
+            self._min_target_missing = None
+            self._max_target_missing = None
 
         bt = self._optb.binning_table.build(add_totals=False)
         n_records = bt["Count"].values[:-2]
-- 
2.43.0


From 167f896f5cb04df89d603fd925c8bb211030ba80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:36 +0000
Subject: [PATCH 045/120] fix: merge of Greenwald-Khanna sketches keeps counts
 and rank error

---
 optbinning/binning/distributed/gk.py | 53 +++++++++++++++-------------
 1 file changed, 29 insertions(+), 24 deletions(-)

diff --git a/optbinning/binning/distributed/gk.py b/optbinning/binning/distributed/gk.py
index 42fe854..9e1742d 100644
--- a/optbinning/binning/distributed/gk.py
+++ b/optbinning/binning/distributed/gk.py
@@ -94,45 +94,50 @@ class GK:
             self.copy(gk)
             return
 
-        entries = []
-        spread = int(gk.eps * (gk.n - 1))
-        gk.merge_compress()
+        if len(self.incoming):
+            self.merge_compress()
 
-        # upper bound elements(gk.v0, gk.v1) - spread
-        g = gk.entries[0].g + gk.entries[0].delta - 1 - spread
+        if len(gk.incoming):
+            gk.merge_compress()
+
+        # The rank of each entry is uncertain by that of its successor in the
+        # other sketch, too.
+        entries = []
+        n_self = len(self.entries)
+        n_gk = len(gk.entries)
+        i = 0
+        j = 0
 
-        if g > 0:
-            entries.append(Entry(gk._min, g, 0))
+        while i < n_self or j < n_gk:
+            if j == n_gk or (i < n_self and
+                             self.entries[i].value <= gk.entries[j].value):
+                t = self.entries[i]
+                i += 1
+                tn = gk.entries[j] if j < n_gk else None
+            else:
+                t = gk.entries[j]
+                j += 1
+                tn = self.entries[i] if i < n_self else None
 
-        n_gk = len(gk)
-        for i in range(n_gk - 1):
-            tp1 = gk.entries[i + 1]
-            t = gk.entries[i]
-            g = tp1.g + (tp1.delta - t.delta)
-            if g > 0:
-                entries.append(Entry(t.value, g, 0))
+            delta = t.delta
+            if tn is not None:
+                delta += tn.g + tn.delta - 1
 
-        last_t = gk.entries[n_gk - 1]
-        g = spread + 1 - last_t.delta
-        if g > 0:
-            entries.append(Entry(last_t.value, g, 0))
+            entries.append(Entry(t.value, t.g, delta))
 
+        self.entries = entries
         self._count += gk._count
         self._min = min(self._min, gk._min)
         self._max = max(self._max, gk._max)
         self._sum += gk._sum
 
-        self.merge_compress(entries)
+        self.merge_compress()
 
-    def merge_compress(self, entries=[]):
+    def merge_compress(self):
         """Compress sketch."""
         remove_threshold = float(2.0 * self.eps * (self._count - 1))
 
         incoming = [Entry(value, 1, 0) for value in self.incoming]
-
-        if len(entries):
-            incoming.extend(Entry(e.value, e.g, e.delta) for e in entries)
-
         incoming = sorted(incoming, key=lambda e: e.value)
 
         merged = []
-- 
2.43.0


From a129ec7201f34eba5f6fdccbd2c72476088f5582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:03 +0000
Subject: [PATCH 046/120] fix: merge of binning sketches without clean records

---
 optbinning/binning/distributed/bsketch.py | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/optbinning/binning/distributed/bsketch.py b/optbinning/binning/distributed/bsketch.py
index d75a10f..92f43ea 100644
--- a/optbinning/binning/distributed/bsketch.py
+++ b/optbinning/binning/distributed/bsketch.py
@@ -184,13 +184,6 @@ class BSketch:
         if not self._mergeable(bsketch):
             raise Exception("bsketch does not share signature.")
 
-        if bsketch._sketch_e.n == 0 and bsketch._sketch_ne.n == 0:
-            return
-
-        if self._sketch_e.n == 0 and self._sketch_ne.n == 0:
-            self._copy(bsketch)
-            return
-
         # Merge sketches
         if self.sketch == "gk":
             self._sketch_e.merge(bsketch._sketch_e)
-- 
2.43.0


From f2329ee74fab84544d8b1afeb987c36cdd804951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:03 +0000
Subject: [PATCH 047/120] fix: merged categorical sketches share category
 counts

---
 optbinning/binning/distributed/bsketch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optbinning/binning/distributed/bsketch.py b/optbinning/binning/distributed/bsketch.py
index 92f43ea..9ac2ebc 100644
--- a/optbinning/binning/distributed/bsketch.py
+++ b/optbinning/binning/distributed/bsketch.py
@@ -394,7 +394,7 @@ class BCatSketch:
                 self._d_categories[k][0] += v[0]
                 self._d_categories[k][1] += v[1]
             else:
-                self._d_categories[k] = v
+                self._d_categories[k] = list(v)
 
         # Merge missing and special counts
         self._count_missing_e += bcatsketch._count_missing_e
-- 
2.43.0


From 34eb22dc371f152399139e38536cf1900e9865b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:03 +0000
Subject: [PATCH 048/120] fix: merge of binning sketches without added data

---
 .../binning/distributed/binning_sketch.py     | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/optbinning/binning/distributed/binning_sketch.py b/optbinning/binning/distributed/binning_sketch.py
index 06243d5..1c0a612 100644
--- a/optbinning/binning/distributed/binning_sketch.py
+++ b/optbinning/binning/distributed/binning_sketch.py
@@ -473,11 +473,7 @@ class OptimalBinningSketch(BaseSketch, BaseEstimator):
             Whether to check input arrays.
         """
         if self._bsketch is None:
-            if self.dtype == "numerical":
-                self._bsketch = BSketch(self.sketch, self.eps, self.K,
-                                        self.special_codes)
-            else:
-                self._bsketch = BCatSketch(self.cat_cutoff, self.special_codes)
+            self._bsketch = self._new_bsketch()
 
         # Add new data stream
         time_add = time.perf_counter()
@@ -541,7 +537,12 @@ class OptimalBinningSketch(BaseSketch, BaseEstimator):
         if not self.mergeable(optbsketch):
             raise Exception("optbsketch does not share signature.")
 
-        self._bsketch.merge(optbsketch._bsketch)
+        if optbsketch._bsketch is not None:
+            if self._bsketch is None:
+                self._bsketch = self._new_bsketch()
+
+            self._bsketch.merge(optbsketch._bsketch)
+            self._n_add += optbsketch._n_add
 
         if self.verbose:
             logger.info("Sketch: current sketch was merged.")
@@ -699,6 +700,12 @@ class OptimalBinningSketch(BaseSketch, BaseEstimator):
                                        metric, metric_special, metric_missing,
                                        None, show_digits, check_input)
 
+    def _new_bsketch(self):
+        if self.dtype == "numerical":
+            return BSketch(self.sketch, self.eps, self.K, self.special_codes)
+        else:
+            return BCatSketch(self.cat_cutoff, self.special_codes)
+
     def _prebinning_data(self):
         self._n_nonevent_missing = self._bsketch._count_missing_ne
         self._n_nonevent_special = self._bsketch._count_special_ne
-- 
2.43.0


From 53ed320490f29f62539ec56cb086f6cf2b6bb470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:03 +0000
Subject: [PATCH 049/120] fix: binning sketch counts records at split points in
 the bin they are assigned to

---
 optbinning/binning/distributed/bsketch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optbinning/binning/distributed/bsketch.py b/optbinning/binning/distributed/bsketch.py
index 9ac2ebc..a64d7dd 100644
--- a/optbinning/binning/distributed/bsketch.py
+++ b/optbinning/binning/distributed/bsketch.py
@@ -58,7 +58,7 @@ def _indices_count(sketch_type, sketch, splits):
             values[i] = centroid.mean
             count[i] = centroid.count
 
-    indices = np.searchsorted(splits, values, side='left')
+    indices = np.searchsorted(splits, values, side='right')
     return indices, count
 
 
-- 
2.43.0


From 0bae942842684a4009f9bf01a3b09cce105aac48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:03 +0000
Subject: [PATCH 050/120] fix: binning sketch without splits counts special and
 missing records twice

---
 optbinning/binning/distributed/binning_sketch.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/optbinning/binning/distributed/binning_sketch.py b/optbinning/binning/distributed/binning_sketch.py
index 1c0a612..691f5e1 100644
--- a/optbinning/binning/distributed/binning_sketch.py
+++ b/optbinning/binning/distributed/binning_sketch.py
@@ -612,9 +612,9 @@ class OptimalBinningSketch(BaseSketch, BaseEstimator):
 
         time_postprocessing = time.perf_counter()
 
-        if not len(splits):
-            n_nonevent = np.array([self._t_n_nonevent])
-            n_event = np.array([self._t_n_event])
+        if not len(n_nonevent):
+            n_nonevent = np.array([0])
+            n_event = np.array([0])
 
         self._n_nonevent, self._n_event = bin_info(
             self._solution, n_nonevent, n_event, self._n_nonevent_missing,
-- 
2.43.0


From fcb7958c3a0b84886e682f854cd306f0405c8a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:19 +0000
Subject: [PATCH 051/120] fix: empty and pure prebins in binning sketch

---
 .../binning/distributed/binning_sketch.py       | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/optbinning/binning/distributed/binning_sketch.py b/optbinning/binning/distributed/binning_sketch.py
index 691f5e1..e22c124 100644
--- a/optbinning/binning/distributed/binning_sketch.py
+++ b/optbinning/binning/distributed/binning_sketch.py
@@ -712,6 +712,9 @@ class OptimalBinningSketch(BaseSketch, BaseEstimator):
         self._n_event_missing = self._bsketch._count_missing_e
         self._n_event_special = self._bsketch._count_special_e
 
+        self._n_refinements = 0
+        self._flag_min_n_event_nonevent = False
+
         self._t_n_nonevent = self._bsketch.n_nonevent
         self._t_n_event = self._bsketch.n_event
 
@@ -748,15 +751,18 @@ class OptimalBinningSketch(BaseSketch, BaseEstimator):
         return splits, n_nonevent, n_event
 
     def _compute_prebins(self, splits):
-        self._n_refinements = 0
-
         n_event, n_nonevent = self._bsketch.bins(splits)
         mask_remove = (n_nonevent == 0) | (n_event == 0)
 
-        if np.any(mask_remove):
-            if self.divergence in ("hellinger", "triangular"):
+        if np.any(mask_remove) and len(splits):
+            if (self.divergence in ("hellinger", "triangular") and
+                    n_nonevent.any() and n_event.any()):
                 self._flag_min_n_event_nonevent = True
-            else:
+
+                # Pure prebins are kept, but empty prebins must be removed
+                mask_remove = (n_nonevent == 0) & (n_event == 0)
+
+            if np.any(mask_remove):
                 self._n_refinements += 1
 
                 mask_splits = np.concatenate(
@@ -768,7 +774,6 @@ class OptimalBinningSketch(BaseSketch, BaseEstimator):
         return splits, n_nonevent, n_event
 
     def _compute_cat_prebins(self, splits, categories, n_nonevent, n_event):
-        self._n_refinements = 0
         mask_remove = (n_nonevent == 0) | (n_event == 0)
 
         if self.cat_heuristic and len(categories) > self.max_n_prebins:
-- 
2.43.0


From 3123fb9ce5903032a9e7d6ec6482732b9e029e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:19 +0000
Subject: [PATCH 052/120] fix: parameter split_digits of binning sketch

---
 optbinning/binning/distributed/binning_sketch.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/optbinning/binning/distributed/binning_sketch.py b/optbinning/binning/distributed/binning_sketch.py
index e22c124..e03d600 100644
--- a/optbinning/binning/distributed/binning_sketch.py
+++ b/optbinning/binning/distributed/binning_sketch.py
@@ -732,6 +732,11 @@ class OptimalBinningSketch(BaseSketch, BaseEstimator):
                 splits = np.array([sketch_all.percentile(p)
                                    for p in percentiles[1:-1]])
 
+            splits = np.unique(splits)
+
+            if self.split_digits is not None:
+                splits = np.round(splits, self.split_digits)
+
             splits, n_nonevent, n_event = self._compute_prebins(splits)
         else:
             [splits, categories, n_nonevent, n_event, cat_others,
-- 
2.43.0


From 7a1e94e8f1bd11071f443a55a3b6d77440142ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:19 +0000
Subject: [PATCH 053/120] fix: information of binning sketch when the solver is
 not run

---
 optbinning/binning/distributed/binning_sketch.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/optbinning/binning/distributed/binning_sketch.py b/optbinning/binning/distributed/binning_sketch.py
index e03d600..b46fbaa 100644
--- a/optbinning/binning/distributed/binning_sketch.py
+++ b/optbinning/binning/distributed/binning_sketch.py
@@ -435,6 +435,7 @@ class OptimalBinningSketch(BaseSketch, BaseEstimator):
 
         # info
         self._binning_table = None
+        self._optimizer = None
         self._n_refinements = 0
         self._n_prebins = None
 
@@ -832,6 +833,9 @@ class OptimalBinningSketch(BaseSketch, BaseEstimator):
             self._status = "OPTIMAL"
             self._splits_optimal = splits
             self._solution = np.zeros(len(splits)).astype(bool)
+            self._optimizer = None
+            self._time_optimizer = 0
+            self._time_solver = 0
 
             if self.verbose:
                 logger.warning("Optimizer: {} bins after pre-binning."
-- 
2.43.0


From 9681fd5ec7e5b4651aa9914c07d98d9524dce84b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:36 +0000
Subject: [PATCH 054/120] fix: repeated merging of categories in binning sketch

---
 .../binning/distributed/binning_sketch.py     | 50 +++++++++----------
 1 file changed, 24 insertions(+), 26 deletions(-)

diff --git a/optbinning/binning/distributed/binning_sketch.py b/optbinning/binning/distributed/binning_sketch.py
index b46fbaa..ec4c9aa 100644
--- a/optbinning/binning/distributed/binning_sketch.py
+++ b/optbinning/binning/distributed/binning_sketch.py
@@ -748,9 +748,8 @@ class OptimalBinningSketch(BaseSketch, BaseEstimator):
             self._n_nonevent_cat_others = n_nonevent_others
             self._n_event_cat_others = n_event_others
 
-            [splits, categories, n_nonevent,
-             n_event] = self._compute_cat_prebins(splits, categories,
-                                                  n_nonevent, n_event)
+            splits, n_nonevent, n_event = self._compute_cat_prebins(
+                splits, categories, n_nonevent, n_event)
 
         self._splits_prebinning = splits
 
@@ -780,48 +779,47 @@ class OptimalBinningSketch(BaseSketch, BaseEstimator):
         return splits, n_nonevent, n_event
 
     def _compute_cat_prebins(self, splits, categories, n_nonevent, n_event):
-        mask_remove = (n_nonevent == 0) | (n_event == 0)
+        cat_nonevent = n_nonevent
+        cat_event = n_event
 
-        if self.cat_heuristic and len(categories) > self.max_n_prebins:
-            n_records = n_nonevent + n_event
-            mask_size = n_records < self._bsketch.n / self.max_n_prebins
-            mask_remove |= mask_size
+        while len(splits):
+            mask_remove = (n_nonevent == 0) | (n_event == 0)
 
-        if np.any(mask_remove):
-            if self.divergence in ("hellinger", "triangular"):
+            if (np.any(mask_remove) and n_nonevent.any() and n_event.any() and
+                    self.divergence in ("hellinger", "triangular")):
                 self._flag_min_n_event_nonevent = True
 
                 if self.cat_heuristic:
-                    mask_remove = mask_size
-            else:
-                self._n_refinements += 1
+                    mask_remove[:] = False
+
+            if self.cat_heuristic and len(n_nonevent) > self.max_n_prebins:
+                n_records = n_nonevent + n_event
+                mask_remove |= n_records < self._bsketch.n / self.max_n_prebins
+
+            if not np.any(mask_remove):
+                break
+
+            self._n_refinements += 1
 
             mask_splits = np.concatenate(
                 [mask_remove[:-2], [mask_remove[-2] | mask_remove[-1]]])
 
             splits = splits[~mask_splits]
 
+            # Split points refer to positions in the sorted categories
             splits_int = np.ceil(splits).astype(int)
             indices = np.digitize(np.arange(len(categories)), splits_int,
                                   right=False)
             n_bins = len(splits) + 1
 
-            new_nonevent = np.empty(n_bins, dtype=np.int64)
-            new_event = np.empty(n_bins, dtype=np.int64)
-            new_categories = []
+            n_nonevent = np.empty(n_bins, dtype=np.int64)
+            n_event = np.empty(n_bins, dtype=np.int64)
             for i in range(n_bins):
                 mask = (indices == i)
-                new_categories.append(categories[mask])
-                new_nonevent[i] = n_nonevent[mask].sum()
-                new_event[i] = n_event[mask].sum()
-
-            new_categories = np.array(new_categories, dtype=object)
+                n_nonevent[i] = cat_nonevent[mask].sum()
+                n_event[i] = cat_event[mask].sum()
 
-            [splits, categories, n_nonevent,
-             n_event] = self._compute_cat_prebins(
-                splits, new_categories, new_nonevent, new_event)
-
-        return splits, categories, n_nonevent, n_event
+        return splits, n_nonevent, n_event
 
     def _fit_optimizer(self, splits, n_nonevent, n_event):
         if self.verbose:
-- 
2.43.0


From 73f880a9a94f4ceadff19be4f568f9453f4de8ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:58 +0000
Subject: [PATCH 055/120] fix: selection criteria in binning process sketch

---
 optbinning/binning/distributed/binning_process_sketch.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/optbinning/binning/distributed/binning_process_sketch.py b/optbinning/binning/distributed/binning_process_sketch.py
index c06e2c8..72e2741 100644
--- a/optbinning/binning/distributed/binning_process_sketch.py
+++ b/optbinning/binning/distributed/binning_process_sketch.py
@@ -247,6 +247,7 @@ class BinningProcessSketch(BaseSketch, BaseEstimator, BaseBinningProcess):
 
         # target information to reuse BaseBinningProcess
         self._target_dtype = "binary"
+        self.fixed_variables = None
 
         # auxiliary
         self._n_samples = None
-- 
2.43.0


From 8b6c34de10d6bfd5578e721f6b58f63c3a41be51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:58 +0000
Subject: [PATCH 056/120] fix: parameter max_bin_size of binning process sketch

---
 optbinning/binning/distributed/binning_process_sketch.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/optbinning/binning/distributed/binning_process_sketch.py b/optbinning/binning/distributed/binning_process_sketch.py
index 72e2741..49e80e0 100644
--- a/optbinning/binning/distributed/binning_process_sketch.py
+++ b/optbinning/binning/distributed/binning_process_sketch.py
@@ -326,6 +326,7 @@ class BinningProcessSketch(BaseSketch, BaseEstimator, BaseBinningProcess):
                         min_n_bins=self.min_n_bins,
                         max_n_bins=self.max_n_bins,
                         min_bin_size=self.min_bin_size,
+                        max_bin_size=self.max_bin_size,
                         max_pvalue=self.max_pvalue,
                         max_pvalue_policy=self.max_pvalue_policy,
                         special_codes=self.special_codes,
-- 
2.43.0


From a4c47e6c2bda79c31672c670c7e5ce8a55243494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:09 +0000
Subject: [PATCH 057/120] fix: merge of binning process sketches counts all
 added data

---
 .../distributed/binning_process_sketch.py     | 112 ++++++++++--------
 1 file changed, 61 insertions(+), 51 deletions(-)

diff --git a/optbinning/binning/distributed/binning_process_sketch.py b/optbinning/binning/distributed/binning_process_sketch.py
index 49e80e0..8418fc2 100644
--- a/optbinning/binning/distributed/binning_process_sketch.py
+++ b/optbinning/binning/distributed/binning_process_sketch.py
@@ -295,54 +295,7 @@ class BinningProcessSketch(BaseSketch, BaseEstimator, BaseBinningProcess):
             Binning process with new data.
         """
         if not self._is_started:
-            self._n_samples = 0
-            self._n_variables = len(self.variable_names)
-
-            if self.categorical_variables is not None:
-                self._n_categorical = len(self.categorical_variables)
-            else:
-                self._n_categorical = 0
-
-            self._n_numerical = self._n_variables - self._n_categorical
-
-            # Check selection criteria
-            if self.selection_criteria is not None:
-                _check_selection_criteria(self.selection_criteria,
-                                          self._target_dtype)
-
-            # Initialize bsketch for each variable. To avoid mixed dtypes
-            # the user must provide a dtype for all variables. This differs
-            # from the BinningProcess, where dtypes are inferred.
-            for name in self.variable_names:
-                if (self.categorical_variables is not None and
-                        name in self.categorical_variables):
-                    dtype = "categorical"
-                else:
-                    dtype = "numerical"
-
-                optb = OptimalBinningSketch(
-                        name=name, dtype=dtype,
-                        max_n_prebins=self.max_n_prebins,
-                        min_n_bins=self.min_n_bins,
-                        max_n_bins=self.max_n_bins,
-                        min_bin_size=self.min_bin_size,
-                        max_bin_size=self.max_bin_size,
-                        max_pvalue=self.max_pvalue,
-                        max_pvalue_policy=self.max_pvalue_policy,
-                        special_codes=self.special_codes,
-                        split_digits=self.split_digits)
-
-                if self.binning_fit_params is not None:
-                    params = self.binning_fit_params.get(name, {})
-                else:
-                    params = {}
-
-                optb.set_params(**params)
-
-                self._variable_dtypes[name] = dtype
-                self._binned_variables[name] = optb
-
-            self._is_started = True
+            self._start()
 
         # Add new data stream
         time_add = time.perf_counter()
@@ -425,9 +378,16 @@ class BinningProcessSketch(BaseSketch, BaseEstimator, BaseBinningProcess):
         if not self.mergeable(bpsketch):
             raise Exception("bpsketch does not share signature.")
 
-        for name in self.variable_names:
-            self._binned_variables[name].merge(
-                bpsketch._binned_variables[name])
+        if bpsketch._is_started:
+            if not self._is_started:
+                self._start()
+
+            for name in self.variable_names:
+                self._binned_variables[name].merge(
+                    bpsketch._binned_variables[name])
+
+            self._n_samples += bpsketch._n_samples
+            self._n_add += bpsketch._n_add
 
         if self.verbose:
             logger.info("Sketch: current sketch was merged.")
@@ -642,3 +602,53 @@ class BinningProcessSketch(BaseSketch, BaseEstimator, BaseBinningProcess):
             return np.asarray(self.variable_names)[mask]
         else:
             return mask
+
+    def _start(self):
+        self._n_samples = 0
+        self._n_variables = len(self.variable_names)
+
+        if self.categorical_variables is not None:
+            self._n_categorical = len(self.categorical_variables)
+        else:
+            self._n_categorical = 0
+
+        self._n_numerical = self._n_variables - self._n_categorical
+
+        # Check selection criteria
+        if self.selection_criteria is not None:
+            _check_selection_criteria(self.selection_criteria,
+                                      self._target_dtype)
+
+        # Initialize bsketch for each variable. To avoid mixed dtypes
+        # the user must provide a dtype for all variables. This differs
+        # from the BinningProcess, where dtypes are inferred.
+        for name in self.variable_names:
+            if (self.categorical_variables is not None and
+                    name in self.categorical_variables):
+                dtype = "categorical"
+            else:
+                dtype = "numerical"
+
+            optb = OptimalBinningSketch(
+                    name=name, dtype=dtype,
+                    max_n_prebins=self.max_n_prebins,
+                    min_n_bins=self.min_n_bins,
+                    max_n_bins=self.max_n_bins,
+                    min_bin_size=self.min_bin_size,
+                    max_bin_size=self.max_bin_size,
+                    max_pvalue=self.max_pvalue,
+                    max_pvalue_policy=self.max_pvalue_policy,
+                    special_codes=self.special_codes,
+                    split_digits=self.split_digits)
+
+            if self.binning_fit_params is not None:
+                params = self.binning_fit_params.get(name, {})
+            else:
+                params = {}
+
+            optb.set_params(**params)
+
+            self._variable_dtypes[name] = dtype
+            self._binned_variables[name] = optb
+
+        self._is_started = True
-- 
2.43.0


From d8e1ab1d08d7b36ba8e41761c088c538148790d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:25 +0000
Subject: [PATCH 058/120] fix: mergeable sketches with array parameters

---
 optbinning/binning/distributed/base.py             | 14 ++++++++++++++
 .../binning/distributed/binning_process_sketch.py  |  3 ++-
 optbinning/binning/distributed/binning_sketch.py   |  3 ++-
 3 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/optbinning/binning/distributed/base.py b/optbinning/binning/distributed/base.py
index 6adbc77..131f84b 100644
--- a/optbinning/binning/distributed/base.py
+++ b/optbinning/binning/distributed/base.py
@@ -5,9 +5,23 @@ Base optimal binning sketch algorithm class.
 # Guillermo Navas-Palencia <g.navas.palencia@gmail.com>
 # Copyright (C) 2021
 
+import numpy as np
+
 from ...exceptions import NotSolvedError
 
 
+def same_params(a, b):
+    """Whether two parameter values, possibly including arrays, coincide."""
+    if isinstance(a, dict) and isinstance(b, dict):
+        return (a.keys() == b.keys() and
+                all(same_params(a[key], b[key]) for key in a))
+
+    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
+        return type(a) is type(b) and np.array_equal(a, b)
+
+    return a == b
+
+
 class BaseSketch:
     def _check_is_solved(self):
         if not self._is_solved:
diff --git a/optbinning/binning/distributed/binning_process_sketch.py b/optbinning/binning/distributed/binning_process_sketch.py
index 8418fc2..e9cd255 100644
--- a/optbinning/binning/distributed/binning_process_sketch.py
+++ b/optbinning/binning/distributed/binning_process_sketch.py
@@ -21,6 +21,7 @@ from ...binning.binning_process import BaseBinningProcess
 from ...exceptions import NotDataAddedError
 from ...logging import Logger
 from .base import BaseSketch
+from .base import same_params
 from .binning_process_sketch_information import (
     print_binning_process_sketch_information)
 from .binning_sketch import OptimalBinningSketch
@@ -404,7 +405,7 @@ class BinningProcessSketch(BaseSketch, BaseEstimator, BaseBinningProcess):
         -------
         mergeable : bool
         """
-        return self.get_params() == bpsketch.get_params()
+        return same_params(self.get_params(), bpsketch.get_params())
 
     def solve(self):
         """Solve optimal binning for all variables using added data.
diff --git a/optbinning/binning/distributed/binning_sketch.py b/optbinning/binning/distributed/binning_sketch.py
index ec4c9aa..0f822f4 100644
--- a/optbinning/binning/distributed/binning_sketch.py
+++ b/optbinning/binning/distributed/binning_sketch.py
@@ -25,6 +25,7 @@ from ...binning.transformations import transform_binary_target
 from ...information import solver_statistics
 from ...logging import Logger
 from .base import BaseSketch
+from .base import same_params
 from .bsketch import BSketch, BCatSketch
 from .bsketch_information import print_binning_information
 from .plots import plot_progress_divergence
@@ -560,7 +561,7 @@ class OptimalBinningSketch(BaseSketch, BaseEstimator):
         -------
         mergeable : bool
         """
-        return self.get_params() == optbsketch.get_params()
+        return same_params(self.get_params(), optbsketch.get_params())
 
     def plot_progress(self):
         """Plot divergence measure progress."""
-- 
2.43.0


From 264b779edb42d450d7527997c9a63af3ba0e6057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:25 +0000
Subject: [PATCH 059/120] fix: transform options of a variable applied to other
 variables in binning process sketch

---
 optbinning/binning/distributed/binning_process_sketch.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/optbinning/binning/distributed/binning_process_sketch.py b/optbinning/binning/distributed/binning_process_sketch.py
index e9cd255..82a553e 100644
--- a/optbinning/binning/distributed/binning_process_sketch.py
+++ b/optbinning/binning/distributed/binning_process_sketch.py
@@ -526,14 +526,13 @@ class BinningProcessSketch(BaseSketch, BaseEstimator, BaseBinningProcess):
             if self.binning_transform_params is not None:
                 params = self.binning_transform_params.get(name, {})
 
-            metric_missing = params.get("metric_missing", metric_missing)
-            metric_special = params.get("metric_special", metric_special)
-
             tparams = {
                 "x": x,
                 "metric": metric,
-                "metric_special": metric_special,
-                "metric_missing": metric_missing,
+                "metric_special": params.get("metric_special",
+                                             metric_special),
+                "metric_missing": params.get("metric_missing",
+                                             metric_missing),
                 "check_input": check_input,
                 "show_digits": show_digits
                 }
-- 
2.43.0


From 8dcaafabacca36f5cf1e40faba259aff7d9f6681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:25 +0000
Subject: [PATCH 060/120] fix: index of data transformed by binning process
 sketch

---
 optbinning/binning/distributed/binning_process_sketch.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/optbinning/binning/distributed/binning_process_sketch.py b/optbinning/binning/distributed/binning_process_sketch.py
index 82a553e..6550c74 100644
--- a/optbinning/binning/distributed/binning_process_sketch.py
+++ b/optbinning/binning/distributed/binning_process_sketch.py
@@ -544,7 +544,8 @@ class BinningProcessSketch(BaseSketch, BaseEstimator, BaseBinningProcess):
 
             X_transform[:, i] = optb.transform(**tparams)
 
-        return pd.DataFrame(X_transform, columns=selected_variables)
+        return pd.DataFrame(
+            X_transform, columns=selected_variables, index=X.index)
 
     def get_binned_variable(self, name):
         """Return optimal binning sketch object for a given variable name.
-- 
2.43.0


From f7a36df2c65dc5bcc021678711299e90c130df65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:25 +0000
Subject: [PATCH 061/120] fix: metrics indices and bins in binning process
 sketch

---
 .../distributed/binning_process_sketch.py     | 21 +++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/optbinning/binning/distributed/binning_process_sketch.py b/optbinning/binning/distributed/binning_process_sketch.py
index 6550c74..aa754d6 100644
--- a/optbinning/binning/distributed/binning_process_sketch.py
+++ b/optbinning/binning/distributed/binning_process_sketch.py
@@ -490,9 +490,10 @@ class BinningProcessSketch(BaseSketch, BaseEstimator, BaseBinningProcess):
         n_samples, n_variables = X.shape
 
         # Check metric
-        if metric not in ("event_rate", "woe"):
+        if metric not in ("event_rate", "woe", "indices", "bins"):
             raise ValueError('Invalid value for metric. Allowed string '
-                             'values are "event_rate" and "woe".')
+                             'values are "event_rate", "woe", "indices" and '
+                             '"bins".')
 
         mask = self.get_support()
         if not mask.any():
@@ -509,10 +510,22 @@ class BinningProcessSketch(BaseSketch, BaseEstimator, BaseBinningProcess):
 
         n_selected_variables = len(selected_variables)
 
-        if metric == "indices":
+        # Specific transform metrics must be compatible
+        metrics = set()
+        for name in selected_variables:
+            params = {}
+            if self.binning_transform_params is not None:
+                params = self.binning_transform_params.get(name, {})
+            metrics.add(params.get("metric", metric))
+
+        if len(metrics) > 1 and "bins" in metrics:
+            raise ValueError(
+                "metric 'bins' cannot be mixed with numeric metrics.")
+
+        if metrics == {"indices"}:
             X_transform = np.full(
                 (n_samples, n_selected_variables), -1, dtype=int)
-        elif metric == "bins":
+        elif metrics == {"bins"}:
             X_transform = np.full(
                 (n_samples, n_selected_variables), "", dtype=object)
         else:
-- 
2.43.0


From d04ed6a94789abd192d8fe5265e272564602fd5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:42 +0000
Subject: [PATCH 062/120] fix: parameter max_bin_size of binning process

---
 optbinning/binning/binning_process.py | 42 +++++++++++++++++----------
 1 file changed, 26 insertions(+), 16 deletions(-)

diff --git a/optbinning/binning/binning_process.py b/optbinning/binning/binning_process.py
index 4c53022..30499f4 100644
--- a/optbinning/binning/binning_process.py
+++ b/optbinning/binning/binning_process.py
@@ -74,8 +74,8 @@ def _read_column(input_path, extension, column, **kwargs):
 
 def _fit_variable(x, y, name, target_dtype, categorical_variables,
                   binning_fit_params, max_n_prebins, min_prebin_size,
-                  min_n_bins, max_n_bins, min_bin_size, max_pvalue,
-                  max_pvalue_policy, special_codes, split_digits,
+                  min_n_bins, max_n_bins, min_bin_size, max_bin_size,
+                  max_pvalue, max_pvalue_policy, special_codes, split_digits,
                   sample_weight=None):
     params = {}
     dtype = _check_variable_dtype(x)
@@ -92,7 +92,8 @@ def _fit_variable(x, y, name, target_dtype, categorical_variables,
             name=name, dtype=dtype, max_n_prebins=max_n_prebins,
             min_prebin_size=min_prebin_size,
             min_n_bins=min_n_bins, max_n_bins=max_n_bins,
-            min_bin_size=min_bin_size, max_pvalue=max_pvalue,
+            min_bin_size=min_bin_size, max_bin_size=max_bin_size,
+            max_pvalue=max_pvalue,
             max_pvalue_policy=max_pvalue_policy,
             special_codes=special_codes,
             split_digits=split_digits)
@@ -101,7 +102,8 @@ def _fit_variable(x, y, name, target_dtype, categorical_variables,
             name=name, dtype=dtype, max_n_prebins=max_n_prebins,
             min_prebin_size=min_prebin_size,
             min_n_bins=min_n_bins, max_n_bins=max_n_bins,
-            min_bin_size=min_bin_size, max_pvalue=max_pvalue,
+            min_bin_size=min_bin_size, max_bin_size=max_bin_size,
+            max_pvalue=max_pvalue,
             max_pvalue_policy=max_pvalue_policy,
             special_codes=special_codes,
             split_digits=split_digits)
@@ -113,7 +115,8 @@ def _fit_variable(x, y, name, target_dtype, categorical_variables,
             name=name, max_n_prebins=max_n_prebins,
             min_prebin_size=min_prebin_size,
             min_n_bins=min_n_bins, max_n_bins=max_n_bins,
-            min_bin_size=min_bin_size, max_pvalue=max_pvalue,
+            min_bin_size=min_bin_size, max_bin_size=max_bin_size,
+            max_pvalue=max_pvalue,
             max_pvalue_policy=max_pvalue_policy,
             special_codes=special_codes,
             split_digits=split_digits)
@@ -130,8 +133,8 @@ def _fit_variable(x, y, name, target_dtype, categorical_variables,
 
 def _fit_block(X, y, names, target_dtype, categorical_variables,
                binning_fit_params, max_n_prebins, min_prebin_size,
-               min_n_bins, max_n_bins, min_bin_size, max_pvalue,
-               max_pvalue_policy, special_codes, split_digits,
+               min_n_bins, max_n_bins, min_bin_size, max_bin_size,
+               max_pvalue, max_pvalue_policy, special_codes, split_digits,
                sample_weight=None):
 
     variable_dtypes = {}
@@ -142,14 +145,16 @@ def _fit_block(X, y, names, target_dtype, categorical_variables,
             dtype, optb = _fit_variable(
                 X[:, i], y, name, target_dtype, categorical_variables,
                 binning_fit_params, max_n_prebins, min_prebin_size, min_n_bins,
-                max_n_bins, min_bin_size, max_pvalue, max_pvalue_policy,
-                special_codes, split_digits, sample_weight)
+                max_n_bins, min_bin_size, max_bin_size, max_pvalue,
+                max_pvalue_policy, special_codes, split_digits,
+                sample_weight)
         else:
             dtype, optb = _fit_variable(
                 X[name], y, name, target_dtype, categorical_variables,
                 binning_fit_params, max_n_prebins, min_prebin_size, min_n_bins,
-                max_n_bins, min_bin_size, max_pvalue, max_pvalue_policy,
-                special_codes, split_digits, sample_weight)
+                max_n_bins, min_bin_size, max_bin_size, max_pvalue,
+                max_pvalue_policy, special_codes, split_digits,
+                sample_weight)
 
         variable_dtypes[name] = dtype
         binned_variables[name] = optb
@@ -1121,7 +1126,8 @@ class BinningProcess(Base, BaseEstimator, BaseBinningProcess):
                         self.categorical_variables, self.binning_fit_params,
                         self.max_n_prebins, self.min_prebin_size,
                         self.min_n_bins, self.max_n_bins, self.min_bin_size,
-                        self.max_pvalue, self.max_pvalue_policy,
+                        self.max_bin_size, self.max_pvalue,
+                        self.max_pvalue_policy,
                         self.special_codes, self.split_digits, sample_weight)
                 else:
                     dtype, optb = _fit_variable(
@@ -1129,7 +1135,8 @@ class BinningProcess(Base, BaseEstimator, BaseBinningProcess):
                         self.categorical_variables, self.binning_fit_params,
                         self.max_n_prebins, self.min_prebin_size,
                         self.min_n_bins, self.max_n_bins, self.min_bin_size,
-                        self.max_pvalue, self.max_pvalue_policy,
+                        self.max_bin_size, self.max_pvalue,
+                        self.max_pvalue_policy,
                         self.special_codes, self.split_digits, sample_weight)
 
                 self._variable_dtypes[name] = dtype
@@ -1147,7 +1154,8 @@ class BinningProcess(Base, BaseEstimator, BaseBinningProcess):
                         self.binning_fit_params, self.max_n_prebins,
                         self.min_prebin_size, self.min_n_bins,
                         self.max_n_bins, self.min_bin_size,
-                        self.max_pvalue, self.max_pvalue_policy,
+                        self.max_bin_size, self.max_pvalue,
+                        self.max_pvalue_policy,
                         self.special_codes, self.split_digits, sample_weight)
                     for id_block in id_blocks)
 
@@ -1159,7 +1167,8 @@ class BinningProcess(Base, BaseEstimator, BaseBinningProcess):
                         self.binning_fit_params, self.max_n_prebins,
                         self.min_prebin_size, self.min_n_bins,
                         self.max_n_bins, self.min_bin_size,
-                        self.max_pvalue, self.max_pvalue_policy,
+                        self.max_bin_size, self.max_pvalue,
+                        self.max_pvalue_policy,
                         self.special_codes, self.split_digits, sample_weight)
                     for id_block in id_blocks)
 
@@ -1241,7 +1250,8 @@ class BinningProcess(Base, BaseEstimator, BaseBinningProcess):
                 x, y, name, self._target_dtype, self.categorical_variables,
                 self.binning_fit_params, self.max_n_prebins,
                 self.min_prebin_size, self.min_n_bins, self.max_n_bins,
-                self.min_bin_size, self.max_pvalue, self.max_pvalue_policy,
+                self.min_bin_size, self.max_bin_size, self.max_pvalue,
+                self.max_pvalue_policy,
                 self.special_codes, self.split_digits)
 
             self._variable_dtypes[name] = dtype
-- 
2.43.0


From fa979836fcdab8ba8bf57ac6d6e7ecc01c99fe4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:42 +0000
Subject: [PATCH 063/120] fix: transform options of a variable applied to other
 variables in binning process

---
 optbinning/binning/binning_process.py | 28 +++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/optbinning/binning/binning_process.py b/optbinning/binning/binning_process.py
index 30499f4..cd22922 100644
--- a/optbinning/binning/binning_process.py
+++ b/optbinning/binning/binning_process.py
@@ -1436,15 +1436,15 @@ class BinningProcess(Base, BaseEstimator, BaseBinningProcess):
             if self.binning_transform_params is not None:
                 params = self.binning_transform_params.get(name, {})
 
-            metric = params.get("metric", metric)
-            metric_missing = params.get("metric_missing", metric_missing)
-            metric_special = params.get("metric_special", metric_special)
+            var_metric = params.get("metric", metric)
+            var_missing = params.get("metric_missing", metric_missing)
+            var_special = params.get("metric_special", metric_special)
 
             tparams = {
                 "x": x,
-                "metric": metric,
-                "metric_special": metric_special,
-                "metric_missing": metric_missing,
+                "metric": var_metric,
+                "metric_special": var_special,
+                "metric_missing": var_missing,
                 "check_input": check_input,
                 "show_digits": show_digits
                 }
@@ -1452,7 +1452,7 @@ class BinningProcess(Base, BaseEstimator, BaseBinningProcess):
             if isinstance(optb, _OPTBPW_TYPES):
                 tparams.pop("show_digits")
 
-            if metric is None:
+            if var_metric is None:
                 tparams.pop("metric")
 
             X_transform[:, i] = optb.transform(**tparams)
@@ -1534,22 +1534,22 @@ class BinningProcess(Base, BaseEstimator, BaseBinningProcess):
                 if self.binning_transform_params is not None:
                     params = self.binning_transform_params.get(name, {})
 
-                metric = params.get("metric", metric)
-                metric_missing = params.get("metric_missing", metric_missing)
-                metric_special = params.get("metric_special", metric_special)
+                var_metric = params.get("metric", metric)
+                var_missing = params.get("metric_missing", metric_missing)
+                var_special = params.get("metric_special", metric_special)
 
                 tparams = {
                     "x": chunk[name],
-                    "metric": metric,
-                    "metric_special": metric_special,
-                    "metric_missing": metric_missing,
+                    "metric": var_metric,
+                    "metric_special": var_special,
+                    "metric_missing": var_missing,
                     "show_digits": show_digits
                     }
 
                 if isinstance(optb, _OPTBPW_TYPES):
                     tparams.pop("show_digits")
 
-                if metric is None:
+                if var_metric is None:
                     tparams.pop("metric")
 
                 X_transform[:, i] = optb.transform(**tparams)
-- 
2.43.0


From f87f7a70d015a575d5434cb773f94df7e4b954e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:42 +0000
Subject: [PATCH 064/120] fix: metric indices mixed with other metrics
 truncated to integers in binning process

---
 optbinning/binning/binning_process.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/optbinning/binning/binning_process.py b/optbinning/binning/binning_process.py
index cd22922..e37c9d5 100644
--- a/optbinning/binning/binning_process.py
+++ b/optbinning/binning/binning_process.py
@@ -1411,6 +1411,7 @@ class BinningProcess(Base, BaseEstimator, BaseBinningProcess):
                 if "bins" in metrics:
                     raise ValueError(
                         "metric 'bins' cannot be mixed with numeric metrics.")
+                base_metric = None
             else:
                 base_metric = metrics.pop()
 
@@ -1509,6 +1510,7 @@ class BinningProcess(Base, BaseEstimator, BaseBinningProcess):
                 if "bins" in metrics:
                     raise ValueError(
                         "metric 'bins' cannot be mixed with numeric metrics.")
+                base_metric = None
             else:
                 base_metric = metrics.pop()
 
-- 
2.43.0


From 366c69cae7a1d43a53340bdde26fcf0874a6188a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:42 +0000
Subject: [PATCH 065/120] fix: file paths with dots in fit_disk and
 transform_disk

---
 optbinning/binning/binning_process.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/optbinning/binning/binning_process.py b/optbinning/binning/binning_process.py
index e37c9d5..9254352 100644
--- a/optbinning/binning/binning_process.py
+++ b/optbinning/binning/binning_process.py
@@ -6,6 +6,7 @@ Binning process.
 # Copyright (C) 2020
 
 import numbers
+import os
 import pickle
 import time
 
@@ -1204,7 +1205,7 @@ class BinningProcess(Base, BaseEstimator, BaseBinningProcess):
         _check_parameters(**self.get_params())
 
         # Input file extension
-        extension = input_path.split(".")[1]
+        extension = os.path.splitext(input_path)[1][1:]
 
         # Check extension
         if extension not in ("csv", "parquet"):
@@ -1468,8 +1469,8 @@ class BinningProcess(Base, BaseEstimator, BaseBinningProcess):
                         metric_special, metric_missing, show_digits, **kwargs):
 
         # check input_path and output_path extensions
-        input_extension = input_path.split(".")[1]
-        output_extension = output_path.split(".")[1]
+        input_extension = os.path.splitext(input_path)[1][1:]
+        output_extension = os.path.splitext(output_path)[1][1:]
 
         if input_extension != "csv" or output_extension != "csv":
             raise ValueError("input_path and output_path must be csv files.")
-- 
2.43.0


From 96ac961998e4d1cbfbaa50f67814f4e989fc1c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:58 +0000
Subject: [PATCH 066/120] fix: variables of a previous fit kept by binning
 process

---
 optbinning/binning/binning_process.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/optbinning/binning/binning_process.py b/optbinning/binning/binning_process.py
index 9254352..2175da1 100644
--- a/optbinning/binning/binning_process.py
+++ b/optbinning/binning/binning_process.py
@@ -401,6 +401,8 @@ class BaseBinningProcess:
                 self._support[idfv] = True
 
     def _binning_selection_criteria(self):
+        self._variable_stats = {}
+
         for i, name in enumerate(self.variable_names):
             optb = self._binned_variables[name]
             optb.binning_table.build()
@@ -1108,6 +1110,9 @@ class BinningProcess(Base, BaseEstimator, BaseBinningProcess):
             logger.info("Dataset: number of variables: {}."
                         .format(self._n_variables))
 
+        self._variable_dtypes = {}
+        self._binned_variables = {}
+
         # Number of jobs
         n_jobs = effective_n_jobs(self.n_jobs)
 
@@ -1244,6 +1249,9 @@ class BinningProcess(Base, BaseEstimator, BaseBinningProcess):
             logger.info("Dataset: number of variables: {}."
                         .format(self._n_variables))
 
+        self._variable_dtypes = {}
+        self._binned_variables = {}
+
         for name in self.variable_names:
             x = _read_column(input_path, extension, name, **kwargs)
 
@@ -1336,6 +1344,9 @@ class BinningProcess(Base, BaseEstimator, BaseBinningProcess):
         self._n_samples = 0
         self._n_variables = len(self.variable_names)
 
+        self._variable_dtypes = {}
+        self._binned_variables = {}
+
         for name, optb in dict_optb.items():
             self._variable_dtypes[name] = optb.dtype
             self._binned_variables[name] = optb
-- 
2.43.0


From ae188e01a7df162061e3327839fd3ca33d4e5775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:58 +0000
Subject: [PATCH 067/120] fix: summary of binning process with continuous
 piecewise binning

---
 optbinning/binning/binning_process.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/optbinning/binning/binning_process.py b/optbinning/binning/binning_process.py
index 2175da1..73d469b 100644
--- a/optbinning/binning/binning_process.py
+++ b/optbinning/binning/binning_process.py
@@ -408,10 +408,10 @@ class BaseBinningProcess:
             optb.binning_table.build()
 
             n_bins = len(optb.splits)
-            if isinstance(optb, OptimalPWBinning) or optb.dtype == "numerical":
+            if isinstance(optb, _OPTBPW_TYPES) or optb.dtype == "numerical":
                 n_bins += 1
 
-            if isinstance(optb, OptimalPWBinning):
+            if isinstance(optb, _OPTBPW_TYPES):
                 dtype = "numerical"
             else:
                 dtype = optb.dtype
-- 
2.43.0


From 7027d2ee8db48d4e01bbb34e39669851fac96c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:58 +0000
Subject: [PATCH 068/120] fix: selected variables after updating a binned
 variable

---
 optbinning/binning/binning_process.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/optbinning/binning/binning_process.py b/optbinning/binning/binning_process.py
index 73d469b..214c3cc 100644
--- a/optbinning/binning/binning_process.py
+++ b/optbinning/binning/binning_process.py
@@ -909,6 +909,8 @@ class BinningProcess(Base, BaseEstimator, BaseBinningProcess):
             raise ValueError("print_level must be an integer >= 0; got {}."
                              .format(print_level))
 
+        self._update_selection()
+
         n_numerical = list(self._variable_dtypes.values()).count("numerical")
         n_categorical = self._n_variables - n_numerical
 
@@ -932,9 +934,7 @@ class BinningProcess(Base, BaseEstimator, BaseBinningProcess):
         """
         self._check_is_fitted()
 
-        if self._is_updated:
-            self._binning_selection_criteria()
-            self._is_updated = False
+        self._update_selection()
 
         df_summary = pd.DataFrame.from_dict(self._variable_stats).T
         df_summary.reset_index(inplace=True)
@@ -1018,6 +1018,7 @@ class BinningProcess(Base, BaseEstimator, BaseBinningProcess):
             raise ValueError("name and object name must coincide.")
 
         self._binned_variables[name] = optb
+        self._variable_dtypes[name] = getattr(optb, "dtype", "numerical")
         self._is_updated = True
 
     def get_support(self, indices=False, names=False):
@@ -1050,6 +1051,8 @@ class BinningProcess(Base, BaseEstimator, BaseBinningProcess):
         if indices and names:
             raise ValueError("Only indices or names can be True.")
 
+        self._update_selection()
+
         mask = self._support
         if indices:
             return np.where(mask)[0]
@@ -1058,6 +1061,11 @@ class BinningProcess(Base, BaseEstimator, BaseBinningProcess):
         else:
             return mask
 
+    def _update_selection(self):
+        if self._is_updated:
+            self._binning_selection_criteria()
+            self._is_updated = False
+
     def _fit(self, X, y, sample_weight, check_input):
         time_init = time.perf_counter()
 
-- 
2.43.0


From 3104b1cc996fefbdae615950d99dd168a6849950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:15 +0000
Subject: [PATCH 069/120] fix: metrics not available for continuous piecewise
 binning in binning process

---
 optbinning/binning/binning_process.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/optbinning/binning/binning_process.py b/optbinning/binning/binning_process.py
index 214c3cc..0b71022 100644
--- a/optbinning/binning/binning_process.py
+++ b/optbinning/binning/binning_process.py
@@ -434,8 +434,9 @@ class BaseBinningProcess:
                     "quality_score": optb.binning_table.quality_score}
             elif self._target_dtype == "continuous":
                 metrics = {
-                    "woe": optb.binning_table.woe,
-                    "quality_score": optb.binning_table.quality_score}
+                    "woe": getattr(optb.binning_table, "woe", np.nan),
+                    "quality_score": getattr(optb.binning_table,
+                                             "quality_score", np.nan)}
 
             info = {**info, **metrics}
             self._variable_stats[name] = info
-- 
2.43.0


From a8cacea873964592ca684788008e2aa6429cd470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:44 +0000
Subject: [PATCH 070/120] fix: metric mean with continuous piecewise binning in
 binning process

---
 optbinning/binning/binning_process.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/optbinning/binning/binning_process.py b/optbinning/binning/binning_process.py
index 0b71022..f51c819 100644
--- a/optbinning/binning/binning_process.py
+++ b/optbinning/binning/binning_process.py
@@ -1474,7 +1474,9 @@ class BinningProcess(Base, BaseEstimator, BaseBinningProcess):
             if isinstance(optb, _OPTBPW_TYPES):
                 tparams.pop("show_digits")
 
-            if var_metric is None:
+            if var_metric is None or (
+                    var_metric == "mean" and
+                    isinstance(optb, ContinuousOptimalPWBinning)):
                 tparams.pop("metric")
 
             X_transform[:, i] = optb.transform(**tparams)
@@ -1572,7 +1574,9 @@ class BinningProcess(Base, BaseEstimator, BaseBinningProcess):
                 if isinstance(optb, _OPTBPW_TYPES):
                     tparams.pop("show_digits")
 
-                if var_metric is None:
+                if var_metric is None or (
+                        var_metric == "mean" and
+                        isinstance(optb, ContinuousOptimalPWBinning)):
                     tparams.pop("metric")
 
                 X_transform[:, i] = optb.transform(**tparams)
-- 
2.43.0


From 592a6cb146ff6dd53f410664feef7db88c889bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:02 +0000
Subject: [PATCH 071/120] fix: binning saved to json and read back transforms
 data

---
 optbinning/binning/base.py               | 23 +++++++++++++++++++
 optbinning/binning/binning.py            | 23 +++++++++++++++----
 optbinning/binning/continuous_binning.py | 28 ++++++++++++++++++++----
 optbinning/binning/multiclass_binning.py | 16 ++++++++++----
 4 files changed, 78 insertions(+), 12 deletions(-)

diff --git a/optbinning/binning/base.py b/optbinning/binning/base.py
index c658c23..16f30d3 100644
--- a/optbinning/binning/base.py
+++ b/optbinning/binning/base.py
@@ -8,10 +8,33 @@ Base optimal binning algorithm class.
 from abc import ABCMeta
 from abc import abstractmethod
 
+import numpy as np
+
 from sklearn.base import BaseEstimator
 from sklearn.exceptions import NotFittedError
 
 
+def json_default(value):
+    """Convert arrays and numpy scalars to types supported by json."""
+    if isinstance(value, (np.ndarray, np.generic)):
+        return value.tolist()
+
+    raise TypeError("Object of type {} is not JSON serializable."
+                    .format(type(value).__name__))
+
+
+def json_categories(values):
+    """Restore an array of categories, or of groups of categories."""
+    if values is None or all(isinstance(v, (int, float)) for v in values):
+        return None if values is None else np.array(values)
+
+    categories = np.empty(len(values), dtype=object)
+    for i, value in enumerate(values):
+        categories[i] = value
+
+    return categories
+
+
 class Base:
     def _check_is_fitted(self):
         if not self._is_fitted:
diff --git a/optbinning/binning/binning.py b/optbinning/binning/binning.py
index 8fd8ecd..ba465b5 100644
--- a/optbinning/binning/binning.py
+++ b/optbinning/binning/binning.py
@@ -19,6 +19,8 @@ from ..logging import Logger
 from .auto_monotonic import auto_monotonic
 from .auto_monotonic import peak_valley_trend_change_heuristic
 from .base import BaseOptimalBinning
+from .base import json_categories
+from .base import json_default
 from .binning_information import print_binning_information
 from .binning_statistics import bin_categorical
 from .binning_statistics import bin_info
@@ -1240,7 +1242,7 @@ class OptimalBinning(BaseOptimalBinning):
         opt_bin_dict['user_splits'] = table.user_splits
 
         with open(path, "w") as write_file:
-            json.dump(opt_bin_dict, write_file)
+            json.dump(opt_bin_dict, write_file, default=json_default)
 
     def read_json(self, path):
         """
@@ -1256,8 +1258,21 @@ class OptimalBinning(BaseOptimalBinning):
         with open(path, "r") as read_file:
             bin_table_attr = json.load(read_file)
 
-        for key in bin_table_attr.keys():
-            if isinstance(bin_table_attr[key], list):
-                bin_table_attr[key] = np.array(bin_table_attr[key])
+        for key in ("splits", "n_nonevent", "n_event"):
+            bin_table_attr[key] = np.array(bin_table_attr[key])
+
+        for key in ("categories", "cat_others", "user_splits"):
+            bin_table_attr[key] = json_categories(bin_table_attr[key])
 
         self._binning_table = BinningTable(**bin_table_attr)
+
+        table = self._binning_table
+        self.name = table.name
+        self.dtype = table.dtype
+        self.special_codes = table.special_codes
+        self.user_splits = table.user_splits
+        self._splits_optimal = table.splits
+        self._n_nonevent = table.n_nonevent
+        self._n_event = table.n_event
+        self._categories = table.categories
+        self._cat_others = table.cat_others
diff --git a/optbinning/binning/continuous_binning.py b/optbinning/binning/continuous_binning.py
index 8fde99f..f15b482 100644
--- a/optbinning/binning/continuous_binning.py
+++ b/optbinning/binning/continuous_binning.py
@@ -17,6 +17,8 @@ from ..information import solver_statistics
 from ..logging import Logger
 from .auto_monotonic import auto_monotonic_continuous
 from .auto_monotonic import peak_valley_trend_change_heuristic
+from .base import json_categories
+from .base import json_default
 from .binning import OptimalBinning
 from .binning_statistics import continuous_bin_info
 from .binning_statistics import ContinuousBinningTable
@@ -1038,7 +1040,7 @@ class ContinuousOptimalBinning(OptimalBinning):
         opt_bin_dict['user_splits'] = table.user_splits
 
         with open(path, "w") as write_file:
-            json.dump(opt_bin_dict, write_file)
+            json.dump(opt_bin_dict, write_file, default=json_default)
 
     def read_json(self, path):
         """
@@ -1057,8 +1059,26 @@ class ContinuousOptimalBinning(OptimalBinning):
         with open(path, "r") as read_file:
             cont_table_attr = json.load(read_file)
 
-        for key in cont_table_attr.keys():
-            if isinstance(cont_table_attr[key], list):
-                cont_table_attr[key] = np.array(cont_table_attr[key])
+        for key in ("splits", "n_records", "sums", "stds", "min_target",
+                    "max_target", "n_zeros"):
+            cont_table_attr[key] = np.array(cont_table_attr[key])
+
+        for key in ("categories", "cat_others", "user_splits"):
+            cont_table_attr[key] = json_categories(cont_table_attr[key])
 
         self._binning_table = ContinuousBinningTable(**cont_table_attr)
+
+        table = self._binning_table
+        self.name = table.name
+        self.dtype = table.dtype
+        self.special_codes = table.special_codes
+        self.user_splits = table.user_splits
+        self._splits_optimal = table.splits
+        self._n_records = table.n_records
+        self._sums = table.sums
+        self._stds = table.stds
+        self._min_target = table.min_target
+        self._max_target = table.max_target
+        self._n_zeros = table.n_zeros
+        self._categories = table.categories
+        self._cat_others = table.cat_others
diff --git a/optbinning/binning/multiclass_binning.py b/optbinning/binning/multiclass_binning.py
index 60dc981..26fcf73 100644
--- a/optbinning/binning/multiclass_binning.py
+++ b/optbinning/binning/multiclass_binning.py
@@ -17,6 +17,7 @@ from ..information import solver_statistics
 from ..logging import Logger
 from .auto_monotonic import auto_monotonic
 from .auto_monotonic import peak_valley_trend_change_heuristic
+from .base import json_default
 from .binning import OptimalBinning
 from .binning_statistics import multiclass_bin_info
 from .binning_statistics import MulticlassBinningTable
@@ -897,7 +898,7 @@ class MulticlassOptimalBinning(OptimalBinning):
         opt_bin_dict['classes'] = table.classes.tolist()
 
         with open(path, "w") as write_file:
-            json.dump(opt_bin_dict, write_file)
+            json.dump(opt_bin_dict, write_file, default=json_default)
 
     def read_json(self, path):
         """
@@ -916,8 +917,15 @@ class MulticlassOptimalBinning(OptimalBinning):
         with open(path, "r") as read_file:
             multi_table_attr = json.load(read_file)
 
-        for key in multi_table_attr.keys():
-            if isinstance(multi_table_attr[key], list):
-                multi_table_attr[key] = np.array(multi_table_attr[key])
+        for key in ("splits", "n_event", "classes"):
+            multi_table_attr[key] = np.array(multi_table_attr[key])
 
         self._binning_table = MulticlassBinningTable(**multi_table_attr)
+
+        table = self._binning_table
+        self.name = table.name
+        self.special_codes = table.special_codes
+        self._splits_optimal = table.splits
+        self._n_event = table.n_event
+        self._classes = table.classes
+        self._n_classes = len(table.classes)
-- 
2.43.0


From a7b84a1a391982d54e240d96dff55126c02a4626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:02 +0000
Subject: [PATCH 072/120] fix: chunks of categories read as numbers by
 transform_disk

---
 optbinning/binning/binning_process.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/optbinning/binning/binning_process.py b/optbinning/binning/binning_process.py
index f51c819..777c7d5 100644
--- a/optbinning/binning/binning_process.py
+++ b/optbinning/binning/binning_process.py
@@ -318,6 +318,13 @@ def _check_variable_dtype(x):
     return "categorical" if x.dtype == object else "numerical"
 
 
+def _has_string_categories(optb):
+    if getattr(optb, "dtype", "numerical") != "categorical":
+        return False
+
+    return all(isinstance(c, str) for split in optb.splits for c in split)
+
+
 class BaseBinningProcess:
     @classmethod
     def load(cls, path):
@@ -1537,6 +1544,12 @@ class BinningProcess(Base, BaseEstimator, BaseBinningProcess):
             else:
                 base_metric = metrics.pop()
 
+        # Categories must be read as strings in every chunk
+        if "dtype" not in kwargs:
+            kwargs["dtype"] = {
+                name: str for name in selected_variables
+                if _has_string_categories(self._binned_variables[name])}
+
         chunks = pd.read_csv(input_path, engine='c', chunksize=chunksize,
                              usecols=selected_variables, **kwargs)
 
-- 
2.43.0


From a7d755857a22c9d2702314ae63bb7a66d9d72bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:20 +0000
Subject: [PATCH 073/120] fix: intercept of a previous fit added to scores of a
 scorecard

---
 optbinning/scorecard/scorecard.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/optbinning/scorecard/scorecard.py b/optbinning/scorecard/scorecard.py
index 1a44993..2fa12ae 100644
--- a/optbinning/scorecard/scorecard.py
+++ b/optbinning/scorecard/scorecard.py
@@ -579,6 +579,9 @@ class Scorecard(Base, BaseEstimator):
             raise RuntimeError('The classifier does not expose '
                                '"coef_" attribute.')
 
+        # Drop the intercept of a previous fit
+        self.intercept_ = 0
+
         # Build scorecard
         time_build_scorecard = time.perf_counter()
 
-- 
2.43.0


From d3df0237d84cdb9767bcbc35e2734694a95b5b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:33 +0000
Subject: [PATCH 074/120] fix: reversed pdo scorecard ignores the sign of the
 intercept

---
 optbinning/scorecard/scorecard.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optbinning/scorecard/scorecard.py b/optbinning/scorecard/scorecard.py
index 2fa12ae..4ad8969 100644
--- a/optbinning/scorecard/scorecard.py
+++ b/optbinning/scorecard/scorecard.py
@@ -133,7 +133,7 @@ def _compute_scorecard_points(points, binning_tables, method, method_data,
         factor = pdo / np.log(2)
         offset = scorecard_points - factor * np.log(odds)
 
-        new_points = -(sense * points + intercept / n) * factor + offset / n
+        new_points = -sense * (points + intercept / n) * factor + offset / n
     elif method == "min_max":
         a = method_data["min"]
         b = method_data["max"]
-- 
2.43.0


From 3531fe20c74fc82c8a9371de86bc492af9430f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:17 +0000
Subject: [PATCH 075/120] fix: score of categories not seen when fitting the
 scorecard

---
 optbinning/scorecard/scorecard.py | 40 +++++++++++++++++++++++++++----
 1 file changed, 35 insertions(+), 5 deletions(-)

diff --git a/optbinning/scorecard/scorecard.py b/optbinning/scorecard/scorecard.py
index 4ad8969..d66120d 100644
--- a/optbinning/scorecard/scorecard.py
+++ b/optbinning/scorecard/scorecard.py
@@ -10,6 +10,8 @@ import numbers
 import pickle
 import time
 
+from copy import copy
+
 import numpy as np
 import pandas as pd
 
@@ -406,17 +408,18 @@ class Scorecard(Base, BaseEstimator):
         score: array of shape (n_samples)
             The score of the input samples.
         """
-        X_t = self._transform(
-            X=X, metric="indices", metric_special="empirical",
-            metric_missing="empirical")
+        self._check_is_fitted()
 
-        score_ = np.zeros(X_t.shape[0])
+        score_ = np.zeros(X.shape[0])
         selected_variables = self.binning_process_.get_support(names=True)
 
         for variable in selected_variables:
             mask = self._df_scorecard.Variable == variable
             points = self._df_scorecard[mask].Points.values
-            score_ += points[X_t[variable]]
+
+            # Categories not seen during fitting have index -1
+            points = np.append(points, self._unknown_points[variable])
+            score_ += points[self._row_indices(variable, X[variable])]
 
         return score_ + self.intercept_
 
@@ -590,6 +593,7 @@ class Scorecard(Base, BaseEstimator):
 
         selected_variables = self.binning_process_.get_support(names=True)
         binning_tables = []
+        unknown_points = {}
         for i, variable in enumerate(selected_variables):
             optb = self.binning_process_.get_binned_variable(variable)
             binning_table = optb.binning_table.build(
@@ -611,12 +615,22 @@ class Scorecard(Base, BaseEstimator):
             if metric_missing != 'empirical':
                 binning_table.loc[nt-1, "Points"] = metric_missing * c
 
+            # Points of categories not seen during fitting
+            unknown = optb.cat_unknown
+            if unknown is None:
+                unknown = 0
+                if bt_metric == "Mean":
+                    unknown = (binning_table["Sum"].sum()
+                               / binning_table["Count"].sum())
+            unknown_points[variable] = unknown * c
+
             binning_table.index.names = ['Bin id']
             binning_table.reset_index(level=0, inplace=True)
             binning_tables.append(binning_table)
 
         df_scorecard = pd.concat(binning_tables)
         df_scorecard.reset_index()
+        unknown_points = pd.Series(unknown_points)
 
         # Apply score points
         if self.scaling_method is not None:
@@ -625,9 +639,15 @@ class Scorecard(Base, BaseEstimator):
                 points, binning_tables, self.scaling_method,
                 self.scaling_method_params, intercept, self.reverse_scorecard)
 
+            unknown_points = _compute_scorecard_points(
+                unknown_points, binning_tables, self.scaling_method,
+                self.scaling_method_params, intercept, self.reverse_scorecard)
+
             df_scorecard.loc[:, "Points"] = scaled_points
 
         if self.intercept_based:
+            unknown_points = (unknown_points - df_scorecard.groupby(
+                "Variable")["Points"].min())
             scaled_points, self.intercept_ = _compute_intercept_based(
                 df_scorecard)
             df_scorecard.loc[:, "Points"] = scaled_points
@@ -656,9 +676,11 @@ class Scorecard(Base, BaseEstimator):
                     self.intercept_ = np.rint(self.intercept_)
 
             df_scorecard.loc[:, "Points"] = round_points
+            unknown_points = np.rint(unknown_points)
         self._time_rounding = time.perf_counter() - time_rounding
 
         self._df_scorecard = df_scorecard
+        self._unknown_points = unknown_points
 
         self._time_build_scorecard = time.perf_counter() - time_build_scorecard
         self._time_total = time.perf_counter() - time_init
@@ -674,6 +696,14 @@ class Scorecard(Base, BaseEstimator):
 
         return self
 
+    def _row_indices(self, variable, x):
+        # Position in the scorecard of each value, -1 if not seen
+        optb = copy(self.binning_process_.get_binned_variable(variable))
+        optb.cat_unknown = None
+
+        return optb.transform(x, metric="indices", metric_special="empirical",
+                              metric_missing="empirical")
+
     def _transform(self, X, metric, metric_special, metric_missing):
         self._check_is_fitted()
 
-- 
2.43.0


From 52d71bec28268f01a6f915c1a9b9d803642b15b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:17 +0000
Subject: [PATCH 076/120] fix: scorecard points follow the transform options of
 single variables

---
 optbinning/scorecard/scorecard.py | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/optbinning/scorecard/scorecard.py b/optbinning/scorecard/scorecard.py
index d66120d..c0f9a3e 100644
--- a/optbinning/scorecard/scorecard.py
+++ b/optbinning/scorecard/scorecard.py
@@ -527,10 +527,10 @@ class Scorecard(Base, BaseEstimator):
 
         if self._target_dtype == "binary":
             metric = "woe"
-            bt_metric = "WoE"
+            bt_metrics = {"woe": "WoE", "event_rate": "Event rate"}
         elif self._target_dtype == "continuous":
             metric = "mean"
-            bt_metric = "Mean"
+            bt_metrics = {"mean": "Mean"}
 
         if self.verbose:
             logger.info("Dataset: {} target.".format(self._target_dtype))
@@ -599,21 +599,34 @@ class Scorecard(Base, BaseEstimator):
             binning_table = optb.binning_table.build(
                 show_digits=show_digits, add_totals=False)
             c = coefs[i]
+
+            # Options of single variables in the binning process
+            params = (self.binning_process_.binning_transform_params
+                      or {}).get(variable, {})
+            var_metric = params.get("metric", metric)
+            var_special = params.get("metric_special", metric_special)
+            var_missing = params.get("metric_missing", metric_missing)
+
+            if var_metric not in bt_metrics:
+                raise ValueError("metric {} of variable {} is not supported."
+                                 .format(var_metric, variable))
+            bt_metric = bt_metrics[var_metric]
+
             binning_table.loc[:, "Variable"] = variable
             binning_table.loc[:, "Coefficient"] = c
             binning_table.loc[:, "Points"] = binning_table[bt_metric] * c
 
             nt = len(binning_table)
-            if metric_special != 'empirical':
+            if var_special != 'empirical':
                 if isinstance(optb.special_codes, dict):
                     n_specials = len(optb.special_codes)
                 else:
                     n_specials = 1
 
                 binning_table.loc[
-                    nt-1-n_specials:nt-2, "Points"] = metric_special * c
-            if metric_missing != 'empirical':
-                binning_table.loc[nt-1, "Points"] = metric_missing * c
+                    nt-1-n_specials:nt-2, "Points"] = var_special * c
+            if var_missing != 'empirical':
+                binning_table.loc[nt-1, "Points"] = var_missing * c
 
             # Points of categories not seen during fitting
             unknown = optb.cat_unknown
@@ -622,6 +635,9 @@ class Scorecard(Base, BaseEstimator):
                 if bt_metric == "Mean":
                     unknown = (binning_table["Sum"].sum()
                                / binning_table["Count"].sum())
+                elif bt_metric == "Event rate":
+                    unknown = (binning_table["Event"].sum()
+                               / binning_table["Count"].sum())
             unknown_points[variable] = unknown * c
 
             binning_table.index.names = ['Bin id']
-- 
2.43.0


From 339b7fc7d01722dcbf6f3a43e1d8988994584ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:19 +0000
Subject: [PATCH 077/120] fix: rounded min_max scorecard attains the requested
 minimum and maximum

---
 optbinning/scorecard/rounding.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/optbinning/scorecard/rounding.py b/optbinning/scorecard/rounding.py
index e74dd52..d7ad94a 100644
--- a/optbinning/scorecard/rounding.py
+++ b/optbinning/scorecard/rounding.py
@@ -36,8 +36,8 @@ class RoundingMIP:
         min_point = np.rint(np.sum(mins))
         max_point = np.rint(np.sum(maxs))
 
-        min_p = np.min(mins)
-        max_p = np.max(maxs)
+        min_p = np.floor(np.min(mins))
+        max_p = np.ceil(np.max(maxs))
 
         # Initialize solver
         solver = pywraplp.Solver(
@@ -53,7 +53,9 @@ class RoundingMIP:
             min_b[i] = solver.IntVar(min_p, max_p, "min_b[{}]".format(i))
             max_b[i] = solver.IntVar(min_p, max_p, "max_b[{}]".format(i))
             for j in range(nn[i]):
-                p[i, j] = solver.IntVar(min_p, max_p, "p[{}, {}]".format(i, j))
+                p[i, j] = solver.IntVar(
+                    np.floor(points[i][j]), np.ceil(points[i][j]),
+                    "p[{}, {}]".format(i, j))
                 tp[i, j] = solver.NumVar(0, np.inf, "tp[{}, {}]".format(i, j))
                 tm[i, j] = solver.NumVar(0, np.inf, "tm[{}, {}]".format(i, j))
 
@@ -72,6 +74,10 @@ class RoundingMIP:
                 # Min score constraints for each variable
                 solver.Add(min_b[i] <= p[i, j])
 
+            # Max and min scores must be attained
+            solver.Add(max_b[i] == p[i, int(np.argmax(points[i]))])
+            solver.Add(min_b[i] == p[i, int(np.argmin(points[i]))])
+
         # Sum of minimum/maximum point by variable must be min_point/max_point
         solver.Add(solver.Sum([min_b[i] for i in range(nb)]) == min_point)
         solver.Add(solver.Sum([max_b[i] for i in range(nb)]) == max_point)
@@ -94,7 +100,8 @@ class RoundingMIP:
             solution = []
             for i in range(self._nb):
                 for j in range(self._nn[i]):
-                    solution.append(self._p[i, j].solution_value())
+                    solution.append(
+                        np.rint(self._p[i, j].solution_value()))
         else:
             if status == pywraplp.Solver.ABNORMAL:
                 status_name = "ABNORMAL"
-- 
2.43.0


From cc704a0ac8b978d61a2197b5230f88023245d11b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:35 +0000
Subject: [PATCH 078/120] fix: monitoring of variables counts special and
 missing records in their rows

---
 optbinning/scorecard/monitoring.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/optbinning/scorecard/monitoring.py b/optbinning/scorecard/monitoring.py
index 0226dad..6231095 100644
--- a/optbinning/scorecard/monitoring.py
+++ b/optbinning/scorecard/monitoring.py
@@ -780,11 +780,11 @@ class ScorecardMonitoring(BaseEstimator):
         l_df_psi = []
 
         for name in variables:
-            optb = self.scorecard.binning_process_.get_binned_variable(name)
-            ta = optb.transform(X_actual[name], metric="indices")
-            te = optb.transform(X_expected[name], metric="indices")
+            ta = self.scorecard._row_indices(name, X_actual[name])
+            te = self.scorecard._row_indices(name, X_expected[name])
 
-            n_bins = te.max() + 1
+            bins = sc_table[sc_table.Variable == name]["Bin"].values
+            n_bins = len(bins)
 
             n_records_a = np.empty(n_bins, dtype=np.int64)
             n_records_e = np.empty(n_bins, dtype=np.int64)
@@ -799,7 +799,6 @@ class ScorecardMonitoring(BaseEstimator):
             p_records_e = n_records_e / t_n_records_e
 
             psi = jeffrey(p_records_a, p_records_e, return_sum=False)
-            bins = sc_table[sc_table.Variable == name]["Bin"].values[:n_bins]
 
             df_psi = pd.DataFrame({
                 "Variable": [name] * n_bins,
-- 
2.43.0


From 193fe8f48162d631b69bdd50e8b357077829aa8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:35 +0000
Subject: [PATCH 079/120] fix: monitoring counts scores equal to a split in
 their interval

---
 optbinning/scorecard/monitoring.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/optbinning/scorecard/monitoring.py b/optbinning/scorecard/monitoring.py
index 6231095..3a6975b 100644
--- a/optbinning/scorecard/monitoring.py
+++ b/optbinning/scorecard/monitoring.py
@@ -499,8 +499,8 @@ class ScorecardMonitoring(BaseEstimator):
         n_bins = len(splits) + 1
 
         # Compute basic metrics
-        indices_a = np.digitize(score_actual, splits, right=True)
-        indices_e = np.digitize(score_expected, splits, right=True)
+        indices_a = np.digitize(score_actual, splits, right=False)
+        indices_e = np.digitize(score_expected, splits, right=False)
 
         if self._target_dtype == "binary":
             n_nonevent_a = np.empty(n_bins, dtype=np.int64)
-- 
2.43.0


From 4754836ae94b834883cdd45d6aef2fae304db9fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:48 +0000
Subject: [PATCH 080/120] fix: divergences of distributions without mass at the
 same place

---
 optbinning/binning/metrics.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/optbinning/binning/metrics.py b/optbinning/binning/metrics.py
index e0220ce..50a2e34 100644
--- a/optbinning/binning/metrics.py
+++ b/optbinning/binning/metrics.py
@@ -98,10 +98,14 @@ def kullback_leibler(x, y, return_sum=False):
     """
     x, y = _check_x_y(x, y)
 
+    # Terms without mass in both distributions are zero
+    d = np.where((x == 0) & (y == 0), 1, y)
+    kl = special.xlogy(x, x / d)
+
     if return_sum:
-        return special.xlogy(x, x / y).sum()
+        return kl.sum()
     else:
-        return special.xlogy(x, x / y)
+        return kl
 
 
 def jeffrey(x, y, return_sum=False):
@@ -124,7 +128,9 @@ def jeffrey(x, y, return_sum=False):
     """
     x, y = _check_x_y(x, y)
 
-    j = special.xlogy(x - y, x / y)
+    # Terms without mass in both distributions are zero
+    d = np.where((x == 0) & (y == 0), 1, y)
+    j = special.xlogy(x - y, x / d)
 
     if return_sum:
         return j.sum()
@@ -245,7 +251,10 @@ def triangular(x, y, return_sum=False):
     """
     x, y = _check_x_y(x, y)
 
-    t = (x - y) ** 2 / (x + y)
+    # Terms without mass in both distributions are zero
+    d = np.where((x == 0) & (y == 0), 1, x + y)
+    t = (x - y) ** 2 / d
+
 
     if return_sum:
         return t.sum()
-- 
2.43.0


From 282ac67d877c3a886f2df6eda929fad65894d1e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:48 +0000
Subject: [PATCH 081/120] fix: monitoring with score intervals of one class or
 without records

---
 optbinning/scorecard/monitoring.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/optbinning/scorecard/monitoring.py b/optbinning/scorecard/monitoring.py
index 3a6975b..e2efda4 100644
--- a/optbinning/scorecard/monitoring.py
+++ b/optbinning/scorecard/monitoring.py
@@ -619,7 +619,14 @@ class ScorecardMonitoring(BaseEstimator):
                 [n_nonevent_a[i], n_nonevent_e[i]],
                 [n_event_a[i], n_event_e[i]]])
 
-            t, p, _, _ = stats.chi2_contingency(obs, correction=False)
+            if not obs.sum(axis=0).all():
+                # One of the samples has no records
+                t, p = np.nan, np.nan
+            elif not obs.sum(axis=1).all():
+                # Both samples have the same event rate, 0 or 1
+                t, p = 0.0, 1.0
+            else:
+                t, p, _, _ = stats.chi2_contingency(obs, correction=False)
 
             t_statistics.append(t)
             p_values.append(p)
-- 
2.43.0


From 7d8a7b67ed4cd4c9ba871af395ef94f4b0365e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:48 +0000
Subject: [PATCH 082/120] fix: classification metrics of samples with a single
 class

---
 optbinning/metrics/classification.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optbinning/metrics/classification.py b/optbinning/metrics/classification.py
index 791e0fc..805faae 100644
--- a/optbinning/metrics/classification.py
+++ b/optbinning/metrics/classification.py
@@ -87,7 +87,7 @@ def imbalanced_classification_metrics(y_true, y_pred):
     metrics : dict
         Dictionary of metrics.
     """
-    tn, fp, fn, tp = confusion_matrix(y_true, y_pred).ravel()
+    tn, fp, fn, tp = confusion_matrix(y_true, y_pred, labels=[0, 1]).ravel()
 
     # Sensitivity - True positive rate (TPR)
     tpr = tp / (tp + fn)
-- 
2.43.0


From 9118bcbbf26b5b8e57227fb69694adae1945d28d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:48 +0000
Subject: [PATCH 083/120] fix: monitoring with targets given as list or series

---
 optbinning/scorecard/monitoring.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/optbinning/scorecard/monitoring.py b/optbinning/scorecard/monitoring.py
index e2efda4..539416e 100644
--- a/optbinning/scorecard/monitoring.py
+++ b/optbinning/scorecard/monitoring.py
@@ -273,6 +273,10 @@ class ScorecardMonitoring(BaseEstimator):
 
         self._target_dtype = target_dtype
 
+        y_actual = np.asarray(y_actual)
+        y_expected = np.asarray(y_expected)
+
+
         # Check variable names
         if list(X_actual.columns) != list(X_expected.columns):
             raise ValueError("Dataframes X_actual and X_expected must "
-- 
2.43.0


From 5417f97f2508bdf0114473d61548d3b1df0791d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:42 +0000
Subject: [PATCH 084/120] fix: counterfactuals of variables with the same
 number of bins

---
 optbinning/scorecard/counterfactual/counterfactual.py |  2 +-
 optbinning/scorecard/counterfactual/mip.py            |  7 +++----
 optbinning/scorecard/counterfactual/multi_mip.py      | 11 +++++------
 3 files changed, 9 insertions(+), 11 deletions(-)

diff --git a/optbinning/scorecard/counterfactual/counterfactual.py b/optbinning/scorecard/counterfactual/counterfactual.py
index 485f7b7..4390f18 100644
--- a/optbinning/scorecard/counterfactual/counterfactual.py
+++ b/optbinning/scorecard/counterfactual/counterfactual.py
@@ -595,7 +595,7 @@ class Counterfactual(BaseCounterfactual):
         new_indices = {}
         score = 0
         for i, v in enumerate(self._variable_names):
-            new_index = np.array(indices[i])[solution[i]]
+            new_index = np.array(indices[i], dtype=int)[solution[i]]
             if len(new_index):
                 new_indices[v] = new_index
 
diff --git a/optbinning/scorecard/counterfactual/mip.py b/optbinning/scorecard/counterfactual/mip.py
index f9f84e3..ba81a64 100644
--- a/optbinning/scorecard/counterfactual/mip.py
+++ b/optbinning/scorecard/counterfactual/mip.py
@@ -198,10 +198,9 @@ class CFMIP:
             else:
                 status_name = "FEASIBLE"
 
-            solution = np.array([np.array([self._z[i, j].solution_value()
-                                           for j in range(self._nbins[i])]
-                                          ).astype(bool)
-                                 for i in range(self._p)], dtype=object)
+            solution = [np.array([self._z[i, j].solution_value() > 0.5
+                                  for j in range(self._nbins[i])], dtype=bool)
+                        for i in range(self._p)]
         else:
             if status == pywraplp.Solver.ABNORMAL:
                 status_name = "ABNORMAL"
diff --git a/optbinning/scorecard/counterfactual/multi_mip.py b/optbinning/scorecard/counterfactual/multi_mip.py
index d42d8e5..bc8b191 100644
--- a/optbinning/scorecard/counterfactual/multi_mip.py
+++ b/optbinning/scorecard/counterfactual/multi_mip.py
@@ -237,12 +237,11 @@ class MCFMIP(CFMIP):
             else:
                 status_name = "FEASIBLE"
 
-            solution = np.array(
-                [np.array(
-                    [np.array([self._z[k, i, j].solution_value()
-                               for j in range(self._nbins[i])]).astype(bool)
-                     for i in range(self._p)], dtype=object)
-                 for k in range(self.K)], dtype=object)
+            solution = [
+                [np.array([self._z[k, i, j].solution_value() > 0.5
+                           for j in range(self._nbins[i])], dtype=bool)
+                 for i in range(self._p)]
+                for k in range(self.K)]
         else:
             if status == pywraplp.Solver.ABNORMAL:
                 status_name = "ABNORMAL"
-- 
2.43.0


From 82cf6abddebe271ad040564e5f810a25a5039510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:42 +0000
Subject: [PATCH 085/120] fix: counterfactuals with objective closeness only

---
 optbinning/scorecard/counterfactual/mip.py    | 25 +++++++++++-------
 .../scorecard/counterfactual/multi_mip.py     | 26 ++++++++++++-------
 2 files changed, 31 insertions(+), 20 deletions(-)

diff --git a/optbinning/scorecard/counterfactual/mip.py b/optbinning/scorecard/counterfactual/mip.py
index ba81a64..03d472b 100644
--- a/optbinning/scorecard/counterfactual/mip.py
+++ b/optbinning/scorecard/counterfactual/mip.py
@@ -71,10 +71,12 @@ class CFMIP:
         solver.Minimize(solver.Sum([weights[name] * objs[name]
                                     for name in names]))
 
+        # Constraint: values of the counterfactual
+        self.add_constraint_values(solver, p, x, nbins, metric, x_p, z)
+
         # Constraint: proximity
         if "proximity" in self.objectives:
-            self.add_constraint_proximity(
-                solver, p, x, nbins, metric, x_p, t_p, t_m, z)
+            self.add_constraint_proximity(solver, p, x, x_p, t_p, t_m)
 
         # Constraint: closeness
         if "closeness" in self.objectives:
@@ -146,10 +148,12 @@ class CFMIP:
                     solver.Add(d_p[i] - d_m[i] == objs[pobj_name] - pobj_val)
                     solver.Add(d_p[i] + d_m[i] <= self.priority_tol * absval)
 
+            # Constraint: values of the counterfactual
+            self.add_constraint_values(solver, p, x, nbins, metric, x_p, z)
+
             # Constraint: proximity
             if "proximity" in self.objectives:
-                self.add_constraint_proximity(
-                    solver, p, x, nbins, metric, x_p, t_p, t_m, z)
+                self.add_constraint_proximity(solver, p, x, x_p, t_p, t_m)
 
             # Constraint: closeness
             if "closeness" in self.objectives:
@@ -258,16 +262,17 @@ class CFMIP:
 
         return x_p, t_p, t_m, m_p, m_m, a, z, q_p, q_m, h, s, f
 
-    def add_constraint_proximity(self, solver, p, x, nbins, metric, x_p, t_p,
-                                 t_m, z):
+    def add_constraint_values(self, solver, p, x, nbins, metric, x_p, z):
+        # Compute x'
         for i in range(p):
-            # Absolute value
-            solver.Add(t_p[i] - t_m[i] == x[i] - x_p[i])
-
-            # Compute x'
             solver.Add(x_p[i] == x[i] + solver.Sum([
                 (metric[i][j] - x[i]) * z[i, j] for j in range(nbins[i])]))
 
+    def add_constraint_proximity(self, solver, p, x, x_p, t_p, t_m):
+        # Absolute value
+        for i in range(p):
+            solver.Add(t_p[i] - t_m[i] == x[i] - x_p[i])
+
     def add_constraint_closeness(self, solver, p, F, mu, x_p, m_p, m_m):
         # Mahalanobis distance l1-norm
         for i in range(p):
diff --git a/optbinning/scorecard/counterfactual/multi_mip.py b/optbinning/scorecard/counterfactual/multi_mip.py
index bc8b191..86553aa 100644
--- a/optbinning/scorecard/counterfactual/multi_mip.py
+++ b/optbinning/scorecard/counterfactual/multi_mip.py
@@ -54,10 +54,12 @@ class MCFMIP(CFMIP):
 
         # Constraints
         for k in range(self.K):
+            # Constraint: values of the counterfactual
+            self.add_constraint_values(solver, p, x, nbins, metric, x_p, z)
+
             # Constraint: proximity
             if "proximity" in self.objectives:
-                self.add_constraint_proximity(
-                    solver, p, x, nbins, metric, x_p, t_p, t_m, z)
+                self.add_constraint_proximity(solver, p, x, x_p, t_p, t_m)
 
             # Constraint: closeness
             if "closeness" in self.objectives:
@@ -157,10 +159,12 @@ class MCFMIP(CFMIP):
 
             # Constraints
             for k in range(self.K):
+                # Constraint: values of the counterfactual
+                self.add_constraint_values(solver, p, x, nbins, metric, x_p, z)
+
                 # Constraint: proximity
                 if "proximity" in self.objectives:
-                    self.add_constraint_proximity(
-                        solver, p, x, nbins, metric, x_p, t_p, t_m, z)
+                    self.add_constraint_proximity(solver, p, x, x_p, t_p, t_m)
 
                 # Constraint: closeness
                 if "closeness" in self.objectives:
@@ -315,18 +319,20 @@ class MCFMIP(CFMIP):
 
         return x_p, t_p, t_m, m_p, m_m, a, z, q_p, q_m, h, s, f, u, d
 
-    def add_constraint_proximity(self, solver, p, x, nbins, metric, x_p, t_p,
-                                 t_m, z):
+    def add_constraint_values(self, solver, p, x, nbins, metric, x_p, z):
+        # Compute x'
         for k in range(self.K):
             for i in range(p):
-                # Absolute value
-                solver.Add(t_p[k, i] - t_m[k, i] == x[i] - x_p[k, i])
-
-                # Compute x'
                 solver.Add(x_p[k, i] == x[i] + solver.Sum(
                     [(metric[i][j] - x[i]) * z[k, i, j]
                      for j in range(nbins[i])]))
 
+    def add_constraint_proximity(self, solver, p, x, x_p, t_p, t_m):
+        # Absolute value
+        for k in range(self.K):
+            for i in range(p):
+                solver.Add(t_p[k, i] - t_m[k, i] == x[i] - x_p[k, i])
+
     def add_constraint_closeness(self, solver, p, F, mu, x_p, m_p, m_m):
         # Mahalanobis distance l1-norm
         for k in range(self.K):
-- 
2.43.0


From e7ed54423ec5cddba3e6a839773e46fcb17df9f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:09 +0000
Subject: [PATCH 086/120] fix: counterfactuals with constant special and
 missing metrics

---
 .../counterfactual/counterfactual.py          |  4 +++-
 .../scorecard/counterfactual/model_data.py    |  7 ++----
 .../scorecard/counterfactual/problem_data.py  | 14 ++++-------
 optbinning/scorecard/scorecard.py             | 23 +++++++++++--------
 4 files changed, 23 insertions(+), 25 deletions(-)

diff --git a/optbinning/scorecard/counterfactual/counterfactual.py b/optbinning/scorecard/counterfactual/counterfactual.py
index 4390f18..e53a8a0 100644
--- a/optbinning/scorecard/counterfactual/counterfactual.py
+++ b/optbinning/scorecard/counterfactual/counterfactual.py
@@ -618,7 +618,9 @@ class Counterfactual(BaseCounterfactual):
             query = pd.DataFrame.from_dict(query, orient="index").T
 
         x = self.scorecard.binning_process_.transform(
-            query[self._variable_names]).values.ravel()
+            query[self._variable_names],
+            metric_special=self.scorecard._metric_special,
+            metric_missing=self.scorecard._metric_missing).values.ravel()
 
         return x, query
 
diff --git a/optbinning/scorecard/counterfactual/model_data.py b/optbinning/scorecard/counterfactual/model_data.py
index 2220286..5586998 100644
--- a/optbinning/scorecard/counterfactual/model_data.py
+++ b/optbinning/scorecard/counterfactual/model_data.py
@@ -9,18 +9,15 @@ Counterfactual model data.
 def model_data(scorecard, x, special_missing):
     s_vars = scorecard.binning_process_.get_support(names=True)
 
-    sc = scorecard.table(style="detailed")
-    metric_name = "WoE" if scorecard._target_dtype == "binary" else "Mean"
-
     # Number of bins, metric and indices
     nbins = []
     metric = []
     indices = []
     for i, v in enumerate(s_vars):
-        metric_i = sc[sc.Variable == v][metric_name].values
+        metric_i, n_specials = scorecard._model_values[v]
 
         if not special_missing:
-            metric_i = metric_i[:-2]
+            metric_i = metric_i[:-(n_specials + 1)]
 
         _metric = []
         _indices = []
diff --git a/optbinning/scorecard/counterfactual/problem_data.py b/optbinning/scorecard/counterfactual/problem_data.py
index 2b0131b..38d62f4 100644
--- a/optbinning/scorecard/counterfactual/problem_data.py
+++ b/optbinning/scorecard/counterfactual/problem_data.py
@@ -12,14 +12,6 @@ def problem_data(scorecard, X):
     s_vars = X.columns
     n_vars = X.shape[1]
 
-    # Scorecard table
-    sc = scorecard.table(style="detailed")
-
-    if scorecard._target_dtype == "binary":
-        sc["Points"] = sc["WoE"] * sc["Coefficient"]
-    else:
-        sc["Points"] = sc["Mean"] * sc["Coefficient"]
-
     # Linear model coefficients
 
     # Only index into the intercept if it is an array, it is a scalar otherwise
@@ -37,7 +29,7 @@ def problem_data(scorecard, X):
     wrange = np.empty(n_vars)
 
     for i, v in enumerate(s_vars):
-        v_points = sc[sc["Variable"] == v]["Points"]
+        v_points = scorecard._model_values[v][0] * coef[i]
         _min = np.min(v_points)
         _max = np.max(v_points)
         min_p += _min
@@ -49,7 +41,9 @@ def problem_data(scorecard, X):
     max_p += intercept
 
     # Mahalanobis distance
-    Xt = scorecard.binning_process_.transform(X).values
+    Xt = scorecard.binning_process_.transform(
+        X, metric_special=scorecard._metric_special,
+        metric_missing=scorecard._metric_missing).values
     F = np.linalg.cholesky(np.linalg.inv(np.cov(Xt.T)))
     mu = Xt.mean(axis=0)
 
diff --git a/optbinning/scorecard/scorecard.py b/optbinning/scorecard/scorecard.py
index c0f9a3e..0849ca6 100644
--- a/optbinning/scorecard/scorecard.py
+++ b/optbinning/scorecard/scorecard.py
@@ -594,6 +594,7 @@ class Scorecard(Base, BaseEstimator):
         selected_variables = self.binning_process_.get_support(names=True)
         binning_tables = []
         unknown_points = {}
+        model_values = {}
         for i, variable in enumerate(selected_variables):
             optb = self.binning_process_.get_binned_variable(variable)
             binning_table = optb.binning_table.build(
@@ -614,19 +615,22 @@ class Scorecard(Base, BaseEstimator):
 
             binning_table.loc[:, "Variable"] = variable
             binning_table.loc[:, "Coefficient"] = c
-            binning_table.loc[:, "Points"] = binning_table[bt_metric] * c
+            values = binning_table[bt_metric].astype(float).copy()
 
             nt = len(binning_table)
-            if var_special != 'empirical':
-                if isinstance(optb.special_codes, dict):
-                    n_specials = len(optb.special_codes)
-                else:
-                    n_specials = 1
+            if isinstance(optb.special_codes, dict):
+                n_specials = len(optb.special_codes)
+            else:
+                n_specials = 1
 
-                binning_table.loc[
-                    nt-1-n_specials:nt-2, "Points"] = var_special * c
+            if var_special != 'empirical':
+                values.loc[nt-1-n_specials:nt-2] = var_special
             if var_missing != 'empirical':
-                binning_table.loc[nt-1, "Points"] = var_missing * c
+                values.loc[nt-1] = var_missing
+
+            # Values of the variable given to the estimator
+            model_values[variable] = (values.values, n_specials)
+            binning_table.loc[:, "Points"] = values * c
 
             # Points of categories not seen during fitting
             unknown = optb.cat_unknown
@@ -697,6 +701,7 @@ class Scorecard(Base, BaseEstimator):
 
         self._df_scorecard = df_scorecard
         self._unknown_points = unknown_points
+        self._model_values = model_values
 
         self._time_build_scorecard = time.perf_counter() - time_build_scorecard
         self._time_total = time.perf_counter() - time_init
-- 
2.43.0


From 9cb85594668a67fe4370c714b73f280d3d1b9bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:43 +0000
Subject: [PATCH 087/120] fix: counterfactuals changing a value to its own bin

---
 optbinning/scorecard/counterfactual/model_data.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/optbinning/scorecard/counterfactual/model_data.py b/optbinning/scorecard/counterfactual/model_data.py
index 5586998..70e07da 100644
--- a/optbinning/scorecard/counterfactual/model_data.py
+++ b/optbinning/scorecard/counterfactual/model_data.py
@@ -6,6 +6,9 @@ Counterfactual model data.
 # Copyright (C) 2021
 
 
+import numpy as np
+
+
 def model_data(scorecard, x, special_missing):
     s_vars = scorecard.binning_process_.get_support(names=True)
 
@@ -22,7 +25,7 @@ def model_data(scorecard, x, special_missing):
         _metric = []
         _indices = []
         for j, m in enumerate(metric_i):
-            if m != x[i]:
+            if not np.isclose(m, x[i], rtol=1e-9, atol=1e-12):
                 _indices.append(j)
                 _metric.append(m)
 
-- 
2.43.0


From ca245afd0e46d9ee0da69e1be79aad1da0d239df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:21 +0000
Subject: [PATCH 088/120] fix: counterfactual bounds on the outcome probability
 are exact

---
 optbinning/scorecard/counterfactual/mip.py    | 24 +++++++++++++++----
 .../scorecard/counterfactual/multi_mip.py     | 19 ++++++++++++---
 2 files changed, 36 insertions(+), 7 deletions(-)

diff --git a/optbinning/scorecard/counterfactual/mip.py b/optbinning/scorecard/counterfactual/mip.py
index 03d472b..1026030 100644
--- a/optbinning/scorecard/counterfactual/mip.py
+++ b/optbinning/scorecard/counterfactual/mip.py
@@ -37,7 +37,13 @@ class CFMIP:
 
         # Parameters - probability outcome requires piecewise approximation
         if outcome_type == "probability":
-            b_pw, c_pw = logistic_pw(min_p, max_p, 15)
+            # Bounds of the activation including the query
+            bounds = [[c * v for v in [*metric_i, x_i]]
+                      for c, x_i, metric_i in zip(coef, x, metric)]
+            min_p = min(min_p, intercept + sum(min(b) for b in bounds))
+            max_p = max(max_p, intercept + sum(max(b) for b in bounds))
+
+            b_pw, c_pw = logistic_pw(min_p - 1e-3, max_p + 1e-3, 15)
         else:
             b_pw, c_pw = None, None
 
@@ -253,7 +259,7 @@ class CFMIP:
             q_m = solver.NumVar(0, np.inf, "q_m")
 
             if outcome_type == "probability":
-                f = solver.NumVar(0, 1, "f")
+                f = solver.NumVar(-np.inf, np.inf, "f")
                 h = {}
                 s = {}
                 for r in range(len(b_pw)):
@@ -306,6 +312,16 @@ class CFMIP:
         activation = intercept + solver.Sum(
             [coef[i] * x_p[i] for i in range(p)])
 
+        if outcome_type == "probability" and 0 < y < 1:
+            # Exact bounds, f is only approximated
+            y_activation = np.log(y / (1.0 - y))
+
+            if "min_outcome" in self.hard_constraints:
+                solver.Add(activation >= y_activation)
+
+            if "max_outcome" in self.hard_constraints:
+                solver.Add(activation <= y_activation)
+
         if outcome_type == "probability":
             nbins_pw = len(b_pw)
 
@@ -321,10 +337,10 @@ class CFMIP:
                 solver.Add(b_pw[r][0] * s[r] <= h[r])
                 solver.Add(h[r] <= b_pw[r][1] * s[r])
 
-            if "min_outcome" in self.hard_constraints:
+            if "min_outcome" in self.hard_constraints and not 0 < y < 1:
                 solver.Add(f >= y)
 
-            if "max_outcome" in self.hard_constraints:
+            if "max_outcome" in self.hard_constraints and not 0 < y < 1:
                 solver.Add(f <= y)
 
             if "diff_outcome" in self.soft_constraints:
diff --git a/optbinning/scorecard/counterfactual/multi_mip.py b/optbinning/scorecard/counterfactual/multi_mip.py
index 86553aa..c4e450b 100644
--- a/optbinning/scorecard/counterfactual/multi_mip.py
+++ b/optbinning/scorecard/counterfactual/multi_mip.py
@@ -302,7 +302,8 @@ class MCFMIP(CFMIP):
                 q_m[k] = solver.NumVar(0, np.inf, "q_m[{}".format(k))
 
                 if outcome_type == "probability":
-                    f[k] = solver.NumVar(0, 1, "f[{}]".format(k))
+                    f[k] = solver.NumVar(-np.inf, np.inf,
+                                         "f[{}]".format(k))
                     for r in range(len(b_pw)):
                         h[k, r] = solver.NumVar(-np.inf, np.inf,
                                                 "h[{}, {}]".format(k, r))
@@ -373,6 +374,16 @@ class MCFMIP(CFMIP):
             activation = intercept + solver.Sum(
                 [coef[i] * x_p[k, i] for i in range(p)])
 
+            if outcome_type == "probability" and 0 < y < 1:
+                # Exact bounds, f is only approximated
+                y_activation = np.log(y / (1.0 - y))
+
+                if "min_outcome" in self.hard_constraints:
+                    solver.Add(activation >= y_activation)
+
+                if "max_outcome" in self.hard_constraints:
+                    solver.Add(activation <= y_activation)
+
             if outcome_type == "probability":
                 nbins_pw = len(b_pw)
 
@@ -390,10 +401,12 @@ class MCFMIP(CFMIP):
                     solver.Add(b_pw[r][0] * s[k, r] <= h[k, r])
                     solver.Add(h[k, r] <= b_pw[r][1] * s[k, r])
 
-                if "min_outcome" in self.hard_constraints:
+                if ("min_outcome" in self.hard_constraints and
+                        not 0 < y < 1):
                     solver.Add(f[k] >= y)
 
-                if "max_outcome" in self.hard_constraints:
+                if ("max_outcome" in self.hard_constraints and
+                        not 0 < y < 1):
                     solver.Add(f[k] <= y)
 
                 if "diff_outcome" in self.soft_constraints:
-- 
2.43.0


From b27440489247c88c70ab005182ef3d81888b0836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:21 +0000
Subject: [PATCH 089/120] fix: counterfactuals of scorecards with zero
 coefficients

---
 optbinning/scorecard/counterfactual/problem_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optbinning/scorecard/counterfactual/problem_data.py b/optbinning/scorecard/counterfactual/problem_data.py
index 38d62f4..f02da00 100644
--- a/optbinning/scorecard/counterfactual/problem_data.py
+++ b/optbinning/scorecard/counterfactual/problem_data.py
@@ -35,7 +35,7 @@ def problem_data(scorecard, X):
         min_p += _min
         max_p += _max
 
-        wrange[i] = 1.0 / (_max - _min)
+        wrange[i] = 1.0 / (_max - _min) if _max > _min else 1.0
 
     min_p += intercept
     max_p += intercept
-- 
2.43.0


From e4044a9383023614b247f95a024f1bd3e58e4ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:50 +0000
Subject: [PATCH 090/120] fix: hierarchical counterfactuals with priority
 tolerance 0

---
 optbinning/scorecard/counterfactual/mip.py       | 3 ++-
 optbinning/scorecard/counterfactual/multi_mip.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/optbinning/scorecard/counterfactual/mip.py b/optbinning/scorecard/counterfactual/mip.py
index 1026030..284f532 100644
--- a/optbinning/scorecard/counterfactual/mip.py
+++ b/optbinning/scorecard/counterfactual/mip.py
@@ -152,7 +152,8 @@ class CFMIP:
                     # Constraint: maximum relative degradation
                     absval = abs(pobj_val)
                     solver.Add(d_p[i] - d_m[i] == objs[pobj_name] - pobj_val)
-                    solver.Add(d_p[i] + d_m[i] <= self.priority_tol * absval)
+                    solver.Add(d_p[i] + d_m[i] <= (
+                        self.priority_tol * absval + 1e-6 * max(1, absval)))
 
             # Constraint: values of the counterfactual
             self.add_constraint_values(solver, p, x, nbins, metric, x_p, z)
diff --git a/optbinning/scorecard/counterfactual/multi_mip.py b/optbinning/scorecard/counterfactual/multi_mip.py
index c4e450b..256f784 100644
--- a/optbinning/scorecard/counterfactual/multi_mip.py
+++ b/optbinning/scorecard/counterfactual/multi_mip.py
@@ -155,7 +155,8 @@ class MCFMIP(CFMIP):
                     # Constraint: maximum relative degradation
                     absval = abs(pobj_val)
                     solver.Add(d_p[i] - d_m[i] == objs[pobj_name] - pobj_val)
-                    solver.Add(d_p[i] + d_m[i] <= self.priority_tol * absval)
+                    solver.Add(d_p[i] + d_m[i] <= (
+                        self.priority_tol * absval + 1e-6 * max(1, absval)))
 
             # Constraints
             for k in range(self.K):
-- 
2.43.0


From 1ffd020e48ed9984fa7268384ca1dd22e97a72b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:50 +0000
Subject: [PATCH 091/120] fix: fractional time limits with the MIP solver

---
 optbinning/binning/mip.py                        | 2 +-
 optbinning/binning/multidimensional/mip_2d.py    | 2 +-
 optbinning/scorecard/counterfactual/mip.py       | 2 +-
 optbinning/scorecard/counterfactual/multi_mip.py | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/optbinning/binning/mip.py b/optbinning/binning/mip.py
index 99e7095..8a85848 100644
--- a/optbinning/binning/mip.py
+++ b/optbinning/binning/mip.py
@@ -178,7 +178,7 @@ class BinningMIP:
         self._x = x
 
     def solve(self):
-        self.solver_.SetTimeLimit(self.time_limit * 1000)
+        self.solver_.SetTimeLimit(int(self.time_limit * 1000))
         status = self.solver_.Solve()
 
         # BOP might report an infeasible problem as solved.
diff --git a/optbinning/binning/multidimensional/mip_2d.py b/optbinning/binning/multidimensional/mip_2d.py
index 46c3754..3f01d60 100644
--- a/optbinning/binning/multidimensional/mip_2d.py
+++ b/optbinning/binning/multidimensional/mip_2d.py
@@ -85,7 +85,7 @@ class Binning2DMIP:
 
     def solve(self):
         # Solve
-        self.solver_.SetTimeLimit(self.time_limit * 1000)
+        self.solver_.SetTimeLimit(int(self.time_limit * 1000))
         self.solver_.SetNumThreads(self.n_jobs)
         status = self.solver_.Solve()
 
diff --git a/optbinning/scorecard/counterfactual/mip.py b/optbinning/scorecard/counterfactual/mip.py
index 284f532..9c53b0e 100644
--- a/optbinning/scorecard/counterfactual/mip.py
+++ b/optbinning/scorecard/counterfactual/mip.py
@@ -199,7 +199,7 @@ class CFMIP:
                     pre_objs[name] = self._objectives[name].solution_value()
 
     def solve(self):
-        self.solver_.SetTimeLimit(self.time_limit * 1000)
+        self.solver_.SetTimeLimit(int(self.time_limit * 1000))
         self.solver_.SetNumThreads(self.n_jobs)
         status = self.solver_.Solve()
 
diff --git a/optbinning/scorecard/counterfactual/multi_mip.py b/optbinning/scorecard/counterfactual/multi_mip.py
index 256f784..c0416f8 100644
--- a/optbinning/scorecard/counterfactual/multi_mip.py
+++ b/optbinning/scorecard/counterfactual/multi_mip.py
@@ -232,7 +232,7 @@ class MCFMIP(CFMIP):
                     pre_objs[name] = self._objectives[name].solution_value()
 
     def solve(self):
-        self.solver_.SetTimeLimit(self.time_limit * 1000)
+        self.solver_.SetTimeLimit(int(self.time_limit * 1000))
         self.solver_.SetNumThreads(self.n_jobs)
         status = self.solver_.Solve()
 
-- 
2.43.0


From 3604dd644248775096bf4a74a6b0e1add6ecae08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:23 +0000
Subject: [PATCH 092/120] fix: highest density interval of the whole sample

---
 optbinning/binning/outlier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optbinning/binning/outlier.py b/optbinning/binning/outlier.py
index 1537fb1..9bb45e9 100644
--- a/optbinning/binning/outlier.py
+++ b/optbinning/binning/outlier.py
@@ -108,7 +108,7 @@ class RangeDetector(BaseEstimator, OutlierDetector):
         else:
             n = len(x)
             xsorted = np.sort(x)
-            n_included = int(np.ceil(self.interval_length * n))
+            n_included = min(int(np.ceil(self.interval_length * n)), n - 1)
             n_ci = n - n_included
             ci = xsorted[n_included:] - xsorted[:n_ci]
             j = np.argmin(ci)
-- 
2.43.0


From f4724dcdb26522da0930a81827e9e6dbeb471e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:23 +0000
Subject: [PATCH 093/120] fix: range outlier detector with lists and series

---
 optbinning/binning/outlier.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/optbinning/binning/outlier.py b/optbinning/binning/outlier.py
index 9bb45e9..a58440b 100644
--- a/optbinning/binning/outlier.py
+++ b/optbinning/binning/outlier.py
@@ -100,6 +100,8 @@ class RangeDetector(BaseEstimator, OutlierDetector):
             raise ValueError("Interval length must a value in [0, 1]; got {}."
                              .format(self.interval_length))
 
+        x = np.asarray(x)
+
         if self.method == "ETI":
             lower = 100 * (1 - self.interval_length) / 2
             upper = 100 * (1 + self.interval_length) / 2
-- 
2.43.0


From 99b5693612a0dbc08f6b3b7b999ae6361999869d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:23 +0000
Subject: [PATCH 094/120] fix: quantile outlier detector with bins without
 records

---
 optbinning/binning/outlier.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/optbinning/binning/outlier.py b/optbinning/binning/outlier.py
index a58440b..5b1196d 100644
--- a/optbinning/binning/outlier.py
+++ b/optbinning/binning/outlier.py
@@ -221,6 +221,8 @@ class YQuantileDetector(BaseEstimator, OutlierDetector):
 
         for i in range(n_bins):
             mask_x = indices == i
+            if not mask_x.any():
+                continue
             detector.fit(y[mask_x])
             mask_out = detector.get_support()
             idx_out = idx_support[mask_x][mask_out]
-- 
2.43.0


From 5700d5920fc57dab7d3152f975996a86e14f4f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:23 +0000
Subject: [PATCH 095/120] fix: outlier detectors raise NotFittedError before
 fit

---
 optbinning/binning/outlier.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/optbinning/binning/outlier.py b/optbinning/binning/outlier.py
index 5b1196d..85e5e31 100644
--- a/optbinning/binning/outlier.py
+++ b/optbinning/binning/outlier.py
@@ -15,11 +15,11 @@ from sklearn.exceptions import NotFittedError
 
 class OutlierDetector:
     """Base class for all outlier detectors."""
-    def __init__(self):
-        self._support = None
+    _support = None
+
+    # flag
+    _is_fitted = False
 
-        # flag
-        self._is_fitted = False
 
     def fit(self, x, y=None):
         """Fit outlier detector.
-- 
2.43.0


From 6f90cda805608118458cf4df9592ce9ce1e2e91b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:50 +0000
Subject: [PATCH 096/120] fix: percentage error metrics of lists and series

---
 optbinning/metrics/regression.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/optbinning/metrics/regression.py b/optbinning/metrics/regression.py
index 3878473..424111b 100644
--- a/optbinning/metrics/regression.py
+++ b/optbinning/metrics/regression.py
@@ -14,6 +14,10 @@ from sklearn.metrics import median_absolute_error
 from sklearn.metrics import r2_score
 
 
+def _check_arrays(y_true, y_pred):
+    return np.asarray(y_true), np.asarray(y_pred)
+
+
 def mean_absolute_percentage_error(y_true, y_pred):
     """Compute the mean absolute percentage error (MAPE).
 
@@ -29,6 +33,8 @@ def mean_absolute_percentage_error(y_true, y_pred):
     -------
     mape : float
     """
+    y_true, y_pred = _check_arrays(y_true, y_pred)
+
     return np.abs((y_true - y_pred) / y_true).mean()
 
 
@@ -47,6 +53,8 @@ def median_absolute_percentage_error(y_true, y_pred):
     -------
     mdape : float
     """
+    y_true, y_pred = _check_arrays(y_true, y_pred)
+
     return np.median(np.abs((y_true - y_pred) / y_true))
 
 
@@ -65,6 +73,8 @@ def mean_percentage_error(y_true, y_pred):
     -------
     mpe : float
     """
+    y_true, y_pred = _check_arrays(y_true, y_pred)
+
     return ((y_true - y_pred) / y_true).mean()
 
 
@@ -83,6 +93,8 @@ def symmetric_mean_absolute_percentage_error(y_true, y_pred):
     -------
     smape : float
     """
+    y_true, y_pred = _check_arrays(y_true, y_pred)
+
     e = np.abs(y_true - y_pred)
     return (e / (np.abs(y_true) + np.abs(y_pred))).mean()
 
@@ -102,6 +114,8 @@ def symmetric_median_absolute_percentage_error(y_true, y_pred):
     -------
     smdape : float
     """
+    y_true, y_pred = _check_arrays(y_true, y_pred)
+
     e = np.abs(y_true - y_pred)
     return np.median(e / (np.abs(y_true) + np.abs(y_pred)))
 
-- 
2.43.0


From b976fc82ede755f739adf31ce190c93889b0fbdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:50 +0000
Subject: [PATCH 097/120] fix: ks metric of lists and series

---
 optbinning/metrics/classification.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/optbinning/metrics/classification.py b/optbinning/metrics/classification.py
index 805faae..cb5b4df 100644
--- a/optbinning/metrics/classification.py
+++ b/optbinning/metrics/classification.py
@@ -46,6 +46,9 @@ def ks(y_true, y_pred_proba):
     -------
     ks : tuple(ks_score, ks_position)
     """
+    y_true = np.asarray(y_true)
+    y_pred_proba = np.asarray(y_pred_proba)
+
     n_samples = y_true.shape[0]
     n_event = np.sum(y_true)
     n_nonevent = n_samples - n_event
-- 
2.43.0


From 732c0fa0d8d4a9f6267a8c5b48a3f41e80d9ddf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:50 +0000
Subject: [PATCH 098/120] fix: weights of jensen_shannon_multivariate up to
 rounding

---
 optbinning/binning/metrics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optbinning/binning/metrics.py b/optbinning/binning/metrics.py
index 50a2e34..a821bdb 100644
--- a/optbinning/binning/metrics.py
+++ b/optbinning/binning/metrics.py
@@ -191,7 +191,7 @@ def jensen_shannon_multivariate(X, weights=None):
         if len(weights) != n:
             raise ValueError("Shapes of X and weights differ.")
 
-        if weights.sum() != 1.0:
+        if not np.isclose(weights.sum(), 1.0):
             raise ValueError("weights must sum 1.")
     else:
         weights = np.ones(n) / n
-- 
2.43.0


From cb4e51c48f1dcaf0739b06fc4e4117536123adde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:04 +0000
Subject: [PATCH 099/120] fix: MDLP with float or boolean targets

---
 optbinning/binning/mdlp.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/optbinning/binning/mdlp.py b/optbinning/binning/mdlp.py
index 53641b6..2145ec5 100644
--- a/optbinning/binning/mdlp.py
+++ b/optbinning/binning/mdlp.py
@@ -101,6 +101,9 @@ class MDLP(BaseEstimator):
 
         x = check_array(x, ensure_2d=False, force_all_finite=True)
         y = check_array(y, ensure_2d=False, force_all_finite=True)
+        if y.dtype.kind != "i":
+            _, y = np.unique(y, return_inverse=True)
+
 
         idx = np.argsort(x)
         x = x[idx]
-- 
2.43.0


From 7262e10c930fd927b972909c2d27183852e66deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:49 +0000
Subject: [PATCH 100/120] fix: cart pre-binning keeps a split at -2

---
 optbinning/binning/prebinning.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/optbinning/binning/prebinning.py b/optbinning/binning/prebinning.py
index 9b02baf..10fca47 100644
--- a/optbinning/binning/prebinning.py
+++ b/optbinning/binning/prebinning.py
@@ -115,8 +115,8 @@ class PreBinning:
                 est = DecisionTreeRegressor(**cart_kwargs)
 
             est.fit(x.reshape(-1, 1), y, sample_weight=sample_weight)
-            splits = np.unique(est.tree_.threshold)
-            self._splits = splits[splits != _tree.TREE_UNDEFINED]
+            inner = est.tree_.children_left != _tree.TREE_LEAF
+            self._splits = np.unique(est.tree_.threshold[inner])
 
         elif self.method == "mdlp":
             mdlp_kwargs = {"min_samples_leaf": self.min_bin_size}
-- 
2.43.0


From 2dd3c1b2efd9af347fdac352700fe9770fb2c386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:29 +0000
Subject: [PATCH 101/120] fix: user_splits_fixed as a boolean array

---
 optbinning/binning/binning.py                       | 3 ++-
 optbinning/binning/continuous_binning.py            | 3 ++-
 optbinning/binning/multiclass_binning.py            | 3 ++-
 optbinning/binning/piecewise/base.py                | 3 ++-
 optbinning/binning/uncertainty/binning_scenarios.py | 3 ++-
 5 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/optbinning/binning/binning.py b/optbinning/binning/binning.py
index ba465b5..5a4b7e9 100644
--- a/optbinning/binning/binning.py
+++ b/optbinning/binning/binning.py
@@ -216,7 +216,8 @@ def _check_parameters(name, dtype, prebinning_method, solver, divergence,
             if not isinstance(user_splits_fixed, (np.ndarray, list)):
                 raise TypeError("user_splits_fixed must be a list or "
                                 "numpy.ndarray.")
-            elif not all(isinstance(s, bool) for s in user_splits_fixed):
+            elif not all(isinstance(s, (bool, np.bool_))
+                         for s in user_splits_fixed):
                 raise ValueError("user_splits_fixed must be list of boolean.")
             elif len(user_splits) != len(user_splits_fixed):
                 raise ValueError("Inconsistent length of user_splits and "
diff --git a/optbinning/binning/continuous_binning.py b/optbinning/binning/continuous_binning.py
index f15b482..d54eb51 100644
--- a/optbinning/binning/continuous_binning.py
+++ b/optbinning/binning/continuous_binning.py
@@ -153,7 +153,8 @@ def _check_parameters(name, dtype, prebinning_method, max_n_prebins,
             if not isinstance(user_splits_fixed, (np.ndarray, list)):
                 raise TypeError("user_splits_fixed must be a list or "
                                 "numpy.ndarray.")
-            elif not all(isinstance(s, bool) for s in user_splits_fixed):
+            elif not all(isinstance(s, (bool, np.bool_))
+                         for s in user_splits_fixed):
                 raise ValueError("user_splits_fixed must be list of boolean.")
             elif len(user_splits) != len(user_splits_fixed):
                 raise ValueError("Inconsistent length of user_splits and "
diff --git a/optbinning/binning/multiclass_binning.py b/optbinning/binning/multiclass_binning.py
index 26fcf73..e92a31d 100644
--- a/optbinning/binning/multiclass_binning.py
+++ b/optbinning/binning/multiclass_binning.py
@@ -149,7 +149,8 @@ def _check_parameters(name, prebinning_method, solver, max_n_prebins,
             if not isinstance(user_splits_fixed, (np.ndarray, list)):
                 raise TypeError("user_splits_fixed must be a list or "
                                 "numpy.ndarray.")
-            elif not all(isinstance(s, bool) for s in user_splits_fixed):
+            elif not all(isinstance(s, (bool, np.bool_))
+                         for s in user_splits_fixed):
                 raise ValueError("user_splits_fixed must be list of boolean.")
             elif len(user_splits) != len(user_splits_fixed):
                 raise ValueError("Inconsistent length of user_splits and "
diff --git a/optbinning/binning/piecewise/base.py b/optbinning/binning/piecewise/base.py
index 43a0903..3e725e0 100644
--- a/optbinning/binning/piecewise/base.py
+++ b/optbinning/binning/piecewise/base.py
@@ -157,7 +157,8 @@ def _check_parameters(name, estimator, objective, degree, continuous,
             if not isinstance(user_splits_fixed, (np.ndarray, list)):
                 raise TypeError("user_splits_fixed must be a list or "
                                 "numpy.ndarray.")
-            elif not all(isinstance(s, bool) for s in user_splits_fixed):
+            elif not all(isinstance(s, (bool, np.bool_))
+                         for s in user_splits_fixed):
                 raise ValueError("user_splits_fixed must be list of boolean.")
             elif len(user_splits) != len(user_splits_fixed):
                 raise ValueError("Inconsistent length of user_splits and "
diff --git a/optbinning/binning/uncertainty/binning_scenarios.py b/optbinning/binning/uncertainty/binning_scenarios.py
index 1ae5a34..091601e 100644
--- a/optbinning/binning/uncertainty/binning_scenarios.py
+++ b/optbinning/binning/uncertainty/binning_scenarios.py
@@ -125,7 +125,8 @@ def _check_parameters(name, prebinning_method, max_n_prebins, min_prebin_size,
             if not isinstance(user_splits_fixed, (np.ndarray, list)):
                 raise TypeError("user_splits_fixed must be a list or "
                                 "numpy.ndarray.")
-            elif not all(isinstance(s, bool) for s in user_splits_fixed):
+            elif not all(isinstance(s, (bool, np.bool_))
+                         for s in user_splits_fixed):
                 raise ValueError("user_splits_fixed must be list of boolean.")
             elif len(user_splits) != len(user_splits_fixed):
                 raise ValueError("Inconsistent length of user_splits and "
-- 
2.43.0


From 3dfd7862f0dfe89ba82ab59b83214dbf3eca2fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:29 +0000
Subject: [PATCH 102/120] fix: NaN is refused where a bound is required

---
 optbinning/binning/binning.py                              | 4 ++--
 optbinning/binning/continuous_binning.py                   | 7 ++++---
 optbinning/binning/distributed/binning_sketch.py           | 4 ++--
 optbinning/binning/multiclass_binning.py                   | 2 +-
 optbinning/binning/multidimensional/binning_2d.py          | 4 ++--
 .../binning/multidimensional/continuous_binning_2d.py      | 4 ++--
 optbinning/binning/outlier.py                              | 2 +-
 optbinning/binning/piecewise/base.py                       | 6 +++---
 optbinning/binning/uncertainty/binning_scenarios.py        | 2 +-
 9 files changed, 18 insertions(+), 17 deletions(-)

diff --git a/optbinning/binning/binning.py b/optbinning/binning/binning.py
index 5a4b7e9..95e6bdd 100644
--- a/optbinning/binning/binning.py
+++ b/optbinning/binning/binning.py
@@ -172,7 +172,7 @@ def _check_parameters(name, dtype, prebinning_method, solver, divergence,
         raise ValueError('Invalid value for max_pvalue_policy. Allowed string '
                          'values are "all" and "consecutive".')
 
-    if not isinstance(gamma, numbers.Number) or gamma < 0:
+    if not isinstance(gamma, numbers.Number) or not gamma >= 0:
         raise ValueError("gamma must be >= 0; got {}.".format(gamma))
 
     if outlier_detector is not None:
@@ -244,7 +244,7 @@ def _check_parameters(name, dtype, prebinning_method, solver, divergence,
         raise ValueError('Invalid value for mip_solver. Allowed string '
                          'values are "bop" and "cbc".')
 
-    if not isinstance(time_limit, numbers.Number) or time_limit < 0:
+    if not isinstance(time_limit, numbers.Number) or not time_limit >= 0:
         raise ValueError("time_limit must be a positive value in seconds; "
                          "got {}.".format(time_limit))
 
diff --git a/optbinning/binning/continuous_binning.py b/optbinning/binning/continuous_binning.py
index d54eb51..142dc4e 100644
--- a/optbinning/binning/continuous_binning.py
+++ b/optbinning/binning/continuous_binning.py
@@ -103,7 +103,8 @@ def _check_parameters(name, dtype, prebinning_method, max_n_prebins,
                              '"concave", "convex", "peak", "valley", '
                              '"peak_heuristic" and "valley_heuristic".')
 
-    if (not isinstance(min_mean_diff, numbers.Number) or min_mean_diff < 0):
+    if (not isinstance(min_mean_diff, numbers.Number) or
+            not min_mean_diff >= 0):
         raise ValueError("min_mean_diff must be >= 0; got {}."
                          .format(min_mean_diff))
 
@@ -117,7 +118,7 @@ def _check_parameters(name, dtype, prebinning_method, max_n_prebins,
         raise ValueError('Invalid value for max_pvalue_policy. Allowed string '
                          'values are "all" and "consecutive".')
 
-    if not isinstance(gamma, numbers.Number) or gamma < 0:
+    if not isinstance(gamma, numbers.Number) or not gamma >= 0:
         raise ValueError("gamma must be >= 0; got {}.".format(gamma))
 
     if outlier_detector is not None:
@@ -177,7 +178,7 @@ def _check_parameters(name, dtype, prebinning_method, max_n_prebins,
             raise ValueError("split_digist must be an integer in [0, 8]; "
                              "got {}.".format(split_digits))
 
-    if not isinstance(time_limit, numbers.Number) or time_limit < 0:
+    if not isinstance(time_limit, numbers.Number) or not time_limit >= 0:
         raise ValueError("time_limit must be a positive value in seconds; "
                          "got {}.".format(time_limit))
 
diff --git a/optbinning/binning/distributed/binning_sketch.py b/optbinning/binning/distributed/binning_sketch.py
index 0f822f4..8baffaf 100644
--- a/optbinning/binning/distributed/binning_sketch.py
+++ b/optbinning/binning/distributed/binning_sketch.py
@@ -182,7 +182,7 @@ def _check_parameters(name, dtype, sketch, eps, K, solver, divergence,
         raise ValueError('Invalid value for max_pvalue_policy. Allowed string '
                          'values are "all" and "consecutive".')
 
-    if not isinstance(gamma, numbers.Number) or gamma < 0:
+    if not isinstance(gamma, numbers.Number) or not gamma >= 0:
         raise ValueError("gamma must be >= 0; got {}.".format(gamma))
 
     if cat_cutoff is not None:
@@ -214,7 +214,7 @@ def _check_parameters(name, dtype, sketch, eps, K, solver, divergence,
         raise ValueError('Invalid value for mip_solver. Allowed string '
                          'values are "bop" and "cbc".')
 
-    if not isinstance(time_limit, numbers.Number) or time_limit < 0:
+    if not isinstance(time_limit, numbers.Number) or not time_limit >= 0:
         raise ValueError("time_limit must be a positive value in seconds; "
                          "got {}.".format(time_limit))
 
diff --git a/optbinning/binning/multiclass_binning.py b/optbinning/binning/multiclass_binning.py
index e92a31d..f81ac51 100644
--- a/optbinning/binning/multiclass_binning.py
+++ b/optbinning/binning/multiclass_binning.py
@@ -177,7 +177,7 @@ def _check_parameters(name, prebinning_method, solver, max_n_prebins,
         raise ValueError('Invalid value for mip_solver. Allowed string '
                          'values are "bop" and "cbc".')
 
-    if not isinstance(time_limit, numbers.Number) or time_limit < 0:
+    if not isinstance(time_limit, numbers.Number) or not time_limit >= 0:
         raise ValueError("time_limit must be a positive value in seconds; "
                          "got {}.".format(time_limit))
 
diff --git a/optbinning/binning/multidimensional/binning_2d.py b/optbinning/binning/multidimensional/binning_2d.py
index 9a63fd7..67552be 100644
--- a/optbinning/binning/multidimensional/binning_2d.py
+++ b/optbinning/binning/multidimensional/binning_2d.py
@@ -179,7 +179,7 @@ def _check_parameters(name_x, name_y, dtype_x, dtype_y, prebinning_method,
         raise ValueError("min_event_rate_diff_y must be in [0, 1]; got {}."
                          .format(min_event_rate_diff_y))
 
-    if not isinstance(gamma, numbers.Number) or gamma < 0:
+    if not isinstance(gamma, numbers.Number) or not gamma >= 0:
         raise ValueError("gamma must be >= 0; got {}.".format(gamma))
 
     if special_codes_x is not None:
@@ -200,7 +200,7 @@ def _check_parameters(name_x, name_y, dtype_x, dtype_y, prebinning_method,
             raise ValueError("n_jobs must be an integer or None; got {}."
                              .format(n_jobs))
 
-    if not isinstance(time_limit, numbers.Number) or time_limit < 0:
+    if not isinstance(time_limit, numbers.Number) or not time_limit >= 0:
         raise ValueError("time_limit must be a positive value in seconds; "
                          "got {}.".format(time_limit))
 
diff --git a/optbinning/binning/multidimensional/continuous_binning_2d.py b/optbinning/binning/multidimensional/continuous_binning_2d.py
index f771a82..36452a7 100644
--- a/optbinning/binning/multidimensional/continuous_binning_2d.py
+++ b/optbinning/binning/multidimensional/continuous_binning_2d.py
@@ -132,7 +132,7 @@ def _check_parameters(name_x, name_y, dtype_x, dtype_y, prebinning_method,
         raise ValueError("min_mean_diff_y must be numeric; got {}."
                          .format(min_mean_diff_y))
 
-    if not isinstance(gamma, numbers.Number) or gamma < 0:
+    if not isinstance(gamma, numbers.Number) or not gamma >= 0:
         raise ValueError("gamma must be >= 0; got {}.".format(gamma))
 
     if special_codes_x is not None:
@@ -153,7 +153,7 @@ def _check_parameters(name_x, name_y, dtype_x, dtype_y, prebinning_method,
             raise ValueError("n_jobs must be an integer or None; got {}."
                              .format(n_jobs))
 
-    if not isinstance(time_limit, numbers.Number) or time_limit < 0:
+    if not isinstance(time_limit, numbers.Number) or not time_limit >= 0:
         raise ValueError("time_limit must be a positive value in seconds; "
                          "got {}.".format(time_limit))
 
diff --git a/optbinning/binning/outlier.py b/optbinning/binning/outlier.py
index 85e5e31..7c691e7 100644
--- a/optbinning/binning/outlier.py
+++ b/optbinning/binning/outlier.py
@@ -150,7 +150,7 @@ class ModifiedZScoreDetector(BaseEstimator, OutlierDetector):
 
     def _fit(self, x, y=None):
         if (not isinstance(self.threshold, numbers.Number) or
-                self.threshold < 0):
+                not self.threshold >= 0):
             raise ValueError("threshold must be a value >= 0; got {}".
                              format(self.threshold))
 
diff --git a/optbinning/binning/piecewise/base.py b/optbinning/binning/piecewise/base.py
index 3e725e0..bb0901a 100644
--- a/optbinning/binning/piecewise/base.py
+++ b/optbinning/binning/piecewise/base.py
@@ -182,7 +182,7 @@ def _check_parameters(name, estimator, objective, degree, continuous,
                          'values are "auto", "ecos", "osqp", "direct", '
                          '"scs" and "highs".')
 
-    if not isinstance(h_epsilon, numbers.Number) or h_epsilon < 1.0:
+    if not isinstance(h_epsilon, numbers.Number) or not h_epsilon >= 1.0:
         raise ValueError("h_epsilon must a number >= 1.0; got {}."
                          .format(h_epsilon))
 
@@ -195,11 +195,11 @@ def _check_parameters(name, estimator, objective, degree, continuous,
             raise ValueError('Invalid value for regularization. Allowed '
                              'string values are "l1" and "l2".')
 
-    if not isinstance(reg_l1, numbers.Number) or reg_l1 < 0.0:
+    if not isinstance(reg_l1, numbers.Number) or not reg_l1 >= 0.0:
         raise ValueError("reg_l1 must be a positive value; got {}."
                          .format(reg_l1))
 
-    if not isinstance(reg_l2, numbers.Number) or reg_l2 < 0.0:
+    if not isinstance(reg_l2, numbers.Number) or not reg_l2 >= 0.0:
         raise ValueError("reg_l2 must be a positive value; got {}."
                          .format(reg_l2))
 
diff --git a/optbinning/binning/uncertainty/binning_scenarios.py b/optbinning/binning/uncertainty/binning_scenarios.py
index 091601e..dae57a5 100644
--- a/optbinning/binning/uncertainty/binning_scenarios.py
+++ b/optbinning/binning/uncertainty/binning_scenarios.py
@@ -144,7 +144,7 @@ def _check_parameters(name, prebinning_method, max_n_prebins, min_prebin_size,
             raise ValueError("split_digits must be an integer in [0, 8]; "
                              "got {}.".format(split_digits))
 
-    if not isinstance(time_limit, numbers.Number) or time_limit < 0:
+    if not isinstance(time_limit, numbers.Number) or not time_limit >= 0:
         raise ValueError("time_limit must be a positive value in seconds; "
                          "got {}.".format(time_limit))
 
-- 
2.43.0


From cda5c6400d20cebd9ae83034d7477bb3faf614e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:29 +0000
Subject: [PATCH 103/120] fix: negative mean differences of 2D binning are
 refused

---
 .../binning/multidimensional/continuous_binning_2d.py  | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/optbinning/binning/multidimensional/continuous_binning_2d.py b/optbinning/binning/multidimensional/continuous_binning_2d.py
index 36452a7..2311e88 100644
--- a/optbinning/binning/multidimensional/continuous_binning_2d.py
+++ b/optbinning/binning/multidimensional/continuous_binning_2d.py
@@ -124,12 +124,14 @@ def _check_parameters(name_x, name_y, dtype_x, dtype_y, prebinning_method,
             raise ValueError('Invalid value for monotonic trend y. Allowed '
                              'string values are "ascending" and "descending".')
 
-    if not isinstance(min_mean_diff_x, numbers.Number):
-        raise ValueError("min_mean_diff_x must be numeric; got {}."
+    if (not isinstance(min_mean_diff_x, numbers.Number) or
+            not min_mean_diff_x >= 0):
+        raise ValueError("min_mean_diff_x must be >= 0; got {}."
                          .format(min_mean_diff_x))
 
-    if not isinstance(min_mean_diff_y, numbers.Number):
-        raise ValueError("min_mean_diff_y must be numeric; got {}."
+    if (not isinstance(min_mean_diff_y, numbers.Number) or
+            not min_mean_diff_y >= 0):
+        raise ValueError("min_mean_diff_y must be >= 0; got {}."
                          .format(min_mean_diff_y))
 
     if not isinstance(gamma, numbers.Number) or not gamma >= 0:
-- 
2.43.0


From 345ceb15d1d788fca5dc01448d7085c88aee5ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:30 +0000
Subject: [PATCH 104/120] fix: PSI plot with a single bin

---
 optbinning/scorecard/monitoring.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optbinning/scorecard/monitoring.py b/optbinning/scorecard/monitoring.py
index 539416e..7cb178f 100644
--- a/optbinning/scorecard/monitoring.py
+++ b/optbinning/scorecard/monitoring.py
@@ -436,7 +436,7 @@ class ScorecardMonitoring(BaseEstimator):
 
         n_bins = len(self._n_records_a)
         indices = np.arange(n_bins)
-        width = np.min(np.diff(indices))/3
+        width = 1 / 3
 
         p_records_a = self._n_records_a / self._n_records_a.sum() * 100.0
         p_records_e = self._n_records_e / self._n_records_e.sum() * 100.0
-- 
2.43.0


From 5e1eedecacd423ec6efd3462034dd00cafe1bb5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:30 +0000
Subject: [PATCH 105/120] fix: fitting options of binning process sketches are
 validated

---
 optbinning/binning/distributed/binning_process_sketch.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/optbinning/binning/distributed/binning_process_sketch.py b/optbinning/binning/distributed/binning_process_sketch.py
index aa754d6..ff4e535 100644
--- a/optbinning/binning/distributed/binning_process_sketch.py
+++ b/optbinning/binning/distributed/binning_process_sketch.py
@@ -643,7 +643,7 @@ class BinningProcessSketch(BaseSketch, BaseEstimator, BaseBinningProcess):
             else:
                 dtype = "numerical"
 
-            optb = OptimalBinningSketch(
+            params = dict(
                     name=name, dtype=dtype,
                     max_n_prebins=self.max_n_prebins,
                     min_n_bins=self.min_n_bins,
@@ -656,11 +656,9 @@ class BinningProcessSketch(BaseSketch, BaseEstimator, BaseBinningProcess):
                     split_digits=self.split_digits)
 
             if self.binning_fit_params is not None:
-                params = self.binning_fit_params.get(name, {})
-            else:
-                params = {}
+                params.update(self.binning_fit_params.get(name, {}))
 
-            optb.set_params(**params)
+            optb = OptimalBinningSketch(**params)
 
             self._variable_dtypes[name] = dtype
             self._binned_variables[name] = optb
-- 
2.43.0


From 8b354035288d8cdba3387cde88489962eaa27495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:42 +0000
Subject: [PATCH 106/120] fix: analysis of a 2D table that is not built

---
 optbinning/binning/multidimensional/binning_statistics_2d.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/optbinning/binning/multidimensional/binning_statistics_2d.py b/optbinning/binning/multidimensional/binning_statistics_2d.py
index 5225575..8ef1dd4 100644
--- a/optbinning/binning/multidimensional/binning_statistics_2d.py
+++ b/optbinning/binning/multidimensional/binning_statistics_2d.py
@@ -482,6 +482,8 @@ class BinningTable2D(BinningTable):
         `scipy.stats.fisher_exact <https://docs.scipy.org/doc/scipy/reference/
         generated/scipy.stats.fisher_exact.html>`_.
         """
+        _check_is_built(self)
+
         # Pairs
         pairs = get_pairs(self._paths_x, self._paths_y)
 
@@ -851,6 +853,8 @@ class ContinuousBinningTable2D(ContinuousBinningTable):
         the total target mean, :math:`r_i` is the number of records for each
         bin, and :math:`r_T` is the total number of records.
         """
+        _check_is_built(self)
+
         # Pairs
         pairs = get_pairs(self._paths_x, self._paths_y)
 
-- 
2.43.0


From d5f0b3cd1407cd6865352dae48ef20b14420b2f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:42 +0000
Subject: [PATCH 107/120] fix: options of the 2D table analysis are validated

---
 .../binning/multidimensional/binning_statistics_2d.py  | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/optbinning/binning/multidimensional/binning_statistics_2d.py b/optbinning/binning/multidimensional/binning_statistics_2d.py
index 8ef1dd4..f1b77b1 100644
--- a/optbinning/binning/multidimensional/binning_statistics_2d.py
+++ b/optbinning/binning/multidimensional/binning_statistics_2d.py
@@ -5,6 +5,8 @@ Optimal binning algorithm 2D.
 # Guillermo Navas-Palencia <g.navas.palencia@gmail.com>
 # Copyright (C) 2021
 
+import numbers
+
 import matplotlib.pyplot as plt
 import numpy as np
 import pandas as pd
@@ -484,6 +486,14 @@ class BinningTable2D(BinningTable):
         """
         _check_is_built(self)
 
+        if pvalue_test not in ("chi2", "fisher"):
+            raise ValueError('Invalid value for pvalue_test. Allowed string '
+                             'values are "chi2" and "fisher".')
+
+        if not isinstance(n_samples, numbers.Integral) or n_samples <= 0:
+            raise ValueError("n_samples must be a positive integer; got {}."
+                             .format(n_samples))
+
         # Pairs
         pairs = get_pairs(self._paths_x, self._paths_y)
 
-- 
2.43.0


From 1834c8c9d67ebb982a601fe419acb297cf4e21cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:06 +0000
Subject: [PATCH 108/120] fix: number of variables and constraints of MIP
 statistics were swapped

---
 optbinning/information.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optbinning/information.py b/optbinning/information.py
index e37b83b..35d9104 100644
--- a/optbinning/information.py
+++ b/optbinning/information.py
@@ -65,8 +65,8 @@ def solver_statistics(solver_type, solver):
         time_optimizer = solver.WallTime()
 
     elif solver_type == "mip":
-        d_solver["n_constraints"] = solver.NumConstraints()
         d_solver["n_variables"] = solver.NumVariables()
+        d_solver["n_constraints"] = solver.NumConstraints()
         d_solver["objective"] = solver.Objective().Value()
         d_solver["best_bound"] = solver.Objective().BestBound()
 
-- 
2.43.0


From 80ee036034039da5ab7e66df0e373bff36e0eec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:20 +0000
Subject: [PATCH 109/120] fix: metric at the missing bin of a binning table
 plot without special bins

---
 optbinning/binning/binning_statistics.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/optbinning/binning/binning_statistics.py b/optbinning/binning/binning_statistics.py
index 2a5003c..d524f43 100644
--- a/optbinning/binning/binning_statistics.py
+++ b/optbinning/binning/binning_statistics.py
@@ -778,7 +778,7 @@ class BinningTable:
                 handle_missing = mpatches.Patch(hatch="\\", alpha=0.1)
                 label_missing = "Bin missing"
 
-                ax2.plot(pos_missing, metric_values[pos_missing], marker="o",
+                ax2.plot(pos_missing, metric_values[-1], marker="o",
                          color="black")
 
             if add_special and add_missing:
@@ -1349,7 +1349,7 @@ class MulticlassBinningTable:
             label_missing = "Bin missing"
 
             for i, cl in enumerate(self.classes):
-                ax2.plot(pos_missing, metric_values[pos_missing, i],
+                ax2.plot(pos_missing, metric_values[-1, i],
                          marker="o", color=colors[i])
 
         if add_special and add_missing:
@@ -1860,7 +1860,7 @@ class ContinuousBinningTable:
                 handle_missing = mpatches.Patch(hatch="\\", alpha=0.1)
                 label_missing = "Bin missing"
 
-                ax2.plot(pos_missing, metric_values[pos_missing], marker="o",
+                ax2.plot(pos_missing, metric_values[-1], marker="o",
                          color="black")
 
             if add_special and add_missing:
-- 
2.43.0


From 6f536f644b93c2b2e4b4d4231992fe578625a704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:20 +0000
Subject: [PATCH 110/120] fix: bin labels of a binning table plot without
 special bins

---
 optbinning/binning/binning_statistics.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/optbinning/binning/binning_statistics.py b/optbinning/binning/binning_statistics.py
index d524f43..3397a23 100644
--- a/optbinning/binning/binning_statistics.py
+++ b/optbinning/binning/binning_statistics.py
@@ -801,7 +801,8 @@ class BinningTable:
                     bin_str = self._bin_str
 
                 if not add_special:
-                    bin_str = bin_str[:-2] + [bin_str[-1]]
+                    bin_str = (bin_str[:-(self._n_specials + 1)]
+                               + [bin_str[-1]])
 
                 if not add_missing:
                     bin_str = bin_str[:-1]
@@ -1368,7 +1369,8 @@ class MulticlassBinningTable:
         if show_bin_labels:
             bin_str = self._bin_str
             if not add_special:
-                bin_str = bin_str[:-2] + [bin_str[-1]]
+                bin_str = (bin_str[:-(self._n_specials + 1)]
+                           + [bin_str[-1]])
 
             if not add_missing:
                 bin_str = bin_str[:-1]
@@ -1883,7 +1885,8 @@ class ContinuousBinningTable:
                     bin_str = self._bin_str
 
                 if not add_special:
-                    bin_str = bin_str[:-2] + [bin_str[-1]]
+                    bin_str = (bin_str[:-(self._n_specials + 1)]
+                               + [bin_str[-1]])
 
                 if not add_missing:
                     bin_str = bin_str[:-1]
-- 
2.43.0


From 0dd9185f1ced75860a8a44fc3dbf1a95fdeff433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:22:52 +0000
Subject: [PATCH 111/120] fix: checking the input of a binning process changed
 its data

---
 optbinning/binning/binning_process.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/optbinning/binning/binning_process.py b/optbinning/binning/binning_process.py
index 777c7d5..ffd66f9 100644
--- a/optbinning/binning/binning_process.py
+++ b/optbinning/binning/binning_process.py
@@ -1105,8 +1105,14 @@ class BinningProcess(Base, BaseEstimator, BaseBinningProcess):
 
         # check X and y data
         if check_input:
-            X = check_array(X, ensure_2d=False, dtype=None,
-                            force_all_finite='allow-nan')
+            if isinstance(X, pd.DataFrame):
+                # check columns, retaining names and dtypes
+                for i in range(X.shape[1]):
+                    check_array(X.iloc[:, i], ensure_2d=False, dtype=None,
+                                force_all_finite='allow-nan')
+            else:
+                X = check_array(X, ensure_2d=False, dtype=None,
+                                force_all_finite='allow-nan')
 
             y = check_array(y, ensure_2d=False, dtype=None,
                             force_all_finite=True)
-- 
2.43.0


From 5441fab72b933781202514241f9584313b02adc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:30:28 +0000
Subject: [PATCH 112/120] fix: missing values listed as a special code were
 counted twice

---
 optbinning/binning/preprocessing.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/optbinning/binning/preprocessing.py b/optbinning/binning/preprocessing.py
index 55947fb..6da2b87 100644
--- a/optbinning/binning/preprocessing.py
+++ b/optbinning/binning/preprocessing.py
@@ -213,7 +213,8 @@ def split_data(dtype, x, y, special_codes=None, cat_cutoff=None,
         sw_missing = sample_weight[missing_mask]
         sw_special = []
     else:
-        special_mask = pd.Series(x).isin(_special_codes).values
+        special_mask = (pd.Series(x).isin(_special_codes).values &
+                        ~missing_mask)
 
         clean_mask = ~missing_mask & ~special_mask
 
-- 
2.43.0


From e1d8c731f110367e53b80a9306eb1118733d429e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:06:43 +0000
Subject: [PATCH 113/120] fix: moments of a continuous 2D target were computed
 in its own type

---
 optbinning/binning/multidimensional/continuous_binning_2d.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/optbinning/binning/multidimensional/continuous_binning_2d.py b/optbinning/binning/multidimensional/continuous_binning_2d.py
index 2311e88..c76825e 100644
--- a/optbinning/binning/multidimensional/continuous_binning_2d.py
+++ b/optbinning/binning/multidimensional/continuous_binning_2d.py
@@ -698,6 +698,11 @@ class ContinuousOptimalBinning2D(OptimalBinning2D):
                              z_clean, x_missing, y_missing, z_missing,
                              x_special, y_special, z_special):
 
+        # Sums and squares may overflow integer types of the target
+        z_clean = z_clean.astype(float)
+        z_missing = z_missing.astype(float)
+        z_special = z_special.astype(float)
+
         self._n_records_missing = len(z_missing)
         self._n_records_special = len(z_special)
         self._sum_missing = np.sum(z_missing)
-- 
2.43.0


From f5e16700421fb9fe21eb7253167209983ea3c97e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:08:37 +0000
Subject: [PATCH 114/120] fix: regression metrics of unsigned integers wrapped
 around

---
 optbinning/metrics/regression.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/optbinning/metrics/regression.py b/optbinning/metrics/regression.py
index 424111b..44ea13e 100644
--- a/optbinning/metrics/regression.py
+++ b/optbinning/metrics/regression.py
@@ -15,7 +15,8 @@ from sklearn.metrics import r2_score
 
 
 def _check_arrays(y_true, y_pred):
-    return np.asarray(y_true), np.asarray(y_pred)
+    # Differences of unsigned or short integers might overflow
+    return np.asarray(y_true, dtype=float), np.asarray(y_pred, dtype=float)
 
 
 def mean_absolute_percentage_error(y_true, y_pred):
@@ -137,6 +138,8 @@ def regression_metrics(y_true, y_pred):
         Dictionary of metrics.
     """
 
+    y_true, y_pred = _check_arrays(y_true, y_pred)
+
     # Explained variance
     variance = explained_variance_score(y_true, y_pred)
 
-- 
2.43.0


From 3a087038d64f89c927ec42b19ba4c824a4aa3cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:10:44 +0000
Subject: [PATCH 115/120] fix: MDLP split nodes smaller than min_samples_split

---
 optbinning/binning/mdlp.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/optbinning/binning/mdlp.py b/optbinning/binning/mdlp.py
index 2145ec5..8f09725 100644
--- a/optbinning/binning/mdlp.py
+++ b/optbinning/binning/mdlp.py
@@ -117,8 +117,11 @@ class MDLP(BaseEstimator):
         return self
 
     def _recurse(self, x, y, id):
+        n_x = len(x)
+        if n_x < self.min_samples_split:
+            return
+
         u_x = np.unique(x)
-        n_x = len(u_x)
         n_y = len(np.bincount(y))
 
         split = self._find_split(u_x, x, y)
-- 
2.43.0


From 3b365fb70b305f2f6b47ee2e21281b55b4bd130f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:59:55 +0000
Subject: [PATCH 116/120] fix: a process counted variables made categorical by
 their own options as numerical

---
 optbinning/binning/binning_process.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optbinning/binning/binning_process.py b/optbinning/binning/binning_process.py
index ffd66f9..a76c537 100644
--- a/optbinning/binning/binning_process.py
+++ b/optbinning/binning/binning_process.py
@@ -129,7 +129,7 @@ def _fit_variable(x, y, name, target_dtype, categorical_variables,
     else:
         optb.fit(x, y)
 
-    return dtype, optb
+    return optb.dtype, optb
 
 
 def _fit_block(X, y, names, target_dtype, categorical_variables,
-- 
2.43.0


From bd609cc889f313b67028fbfd39a8fb5413ac1eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:02:07 +0000
Subject: [PATCH 117/120] fix: a sketch process counted variables made
 categorical by their own options as numerical

---
 .../binning/distributed/binning_process_sketch.py   | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/optbinning/binning/distributed/binning_process_sketch.py b/optbinning/binning/distributed/binning_process_sketch.py
index ff4e535..2d380d5 100644
--- a/optbinning/binning/distributed/binning_process_sketch.py
+++ b/optbinning/binning/distributed/binning_process_sketch.py
@@ -621,13 +621,6 @@ class BinningProcessSketch(BaseSketch, BaseEstimator, BaseBinningProcess):
         self._n_samples = 0
         self._n_variables = len(self.variable_names)
 
-        if self.categorical_variables is not None:
-            self._n_categorical = len(self.categorical_variables)
-        else:
-            self._n_categorical = 0
-
-        self._n_numerical = self._n_variables - self._n_categorical
-
         # Check selection criteria
         if self.selection_criteria is not None:
             _check_selection_criteria(self.selection_criteria,
@@ -660,7 +653,11 @@ class BinningProcessSketch(BaseSketch, BaseEstimator, BaseBinningProcess):
 
             optb = OptimalBinningSketch(**params)
 
-            self._variable_dtypes[name] = dtype
+            self._variable_dtypes[name] = optb.dtype
             self._binned_variables[name] = optb
 
+        self._n_categorical = list(
+            self._variable_dtypes.values()).count("categorical")
+        self._n_numerical = self._n_variables - self._n_categorical
+
         self._is_started = True
-- 
2.43.0


From fb066e27c8393e80998ebbf988174977dc235108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:51:57 +0000
Subject: [PATCH 118/120] fix: a binning sketch accepted an eps outside [0, 1]

---
 optbinning/binning/distributed/bsketch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optbinning/binning/distributed/bsketch.py b/optbinning/binning/distributed/bsketch.py
index a64d7dd..4feb081 100644
--- a/optbinning/binning/distributed/bsketch.py
+++ b/optbinning/binning/distributed/bsketch.py
@@ -30,7 +30,7 @@ def _check_parameters(sketch, eps, K, special_codes):
                           'install optbinning using pip install '
                           'optbinning[distributed]')
 
-    if not isinstance(eps, numbers.Number) and not 0 <= eps <= 1:
+    if not isinstance(eps, numbers.Number) or not 0 <= eps <= 1:
         raise ValueError("eps must be a value in [0, 1]; got {}."
                          .format(eps))
 
-- 
2.43.0


From cf3a6e34746524723b1dc2fd79d90649545e0188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:53:27 +0000
Subject: [PATCH 119/120] fix: binning sketches with and without special codes
 were merged

---
 optbinning/binning/distributed/bsketch.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/optbinning/binning/distributed/bsketch.py b/optbinning/binning/distributed/bsketch.py
index 4feb081..496562b 100644
--- a/optbinning/binning/distributed/bsketch.py
+++ b/optbinning/binning/distributed/bsketch.py
@@ -43,6 +43,15 @@ def _check_parameters(sketch, eps, K, special_codes):
             raise TypeError("special_codes must be a list or numpy.ndarray.")
 
 
+def _same_codes(a, b):
+    if a is None or b is None:
+        return a is b
+
+    # NaN, which is not equal to itself, is represented by None
+    return ({None if v != v else v for v in a} ==
+            {None if v != v else v for v in b})
+
+
 def _indices_count(sketch_type, sketch, splits):
     values = np.zeros(len(sketch))
     count = np.zeros(len(sketch))
@@ -221,9 +230,7 @@ class BSketch:
         self._count_special_ne = bsketch._count_special_ne
 
     def _mergeable(self, other):
-        special_eq = True
-        if self.special_codes is not None and other.special_codes is not None:
-            special_eq = set(self.special_codes) == set(other.special_codes)
+        special_eq = _same_codes(self.special_codes, other.special_codes)
 
         return (self.sketch == other.sketch and self.eps == other.eps and
                 self.K == other.K and special_eq)
@@ -387,6 +394,8 @@ class BCatSketch:
         bcatsketch : object
             BCatSketch instance.
         """
+        if not self._mergeable(bcatsketch):
+            raise Exception("bcatsketch does not share signature.")
 
         # Merge categories
         for k, v in bcatsketch._d_categories.items():
@@ -410,9 +419,7 @@ class BCatSketch:
         self._count_special_ne = bcatsketch._count_special_ne
 
     def _mergeable(self, other):
-        special_eq = True
-        if self.special_codes is not None and other.special_codes is not None:
-            special_eq = set(self.special_codes) == set(other.special_codes)
+        special_eq = _same_codes(self.special_codes, other.special_codes)
 
         return special_eq
 
-- 
2.43.0


From 7ea9dc324fa5826f324310b4c884d3bd03222545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:54:29 +0000
Subject: [PATCH 120/120] fix: sketches with NaN among their special codes
 could not be merged

---
 optbinning/binning/distributed/base.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/optbinning/binning/distributed/base.py b/optbinning/binning/distributed/base.py
index 131f84b..5ca451a 100644
--- a/optbinning/binning/distributed/base.py
+++ b/optbinning/binning/distributed/base.py
@@ -16,10 +16,13 @@ def same_params(a, b):
         return (a.keys() == b.keys() and
                 all(same_params(a[key], b[key]) for key in a))
 
-    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
-        return type(a) is type(b) and np.array_equal(a, b)
+    sequences = (list, tuple, np.ndarray)
+    if isinstance(a, sequences) or isinstance(b, sequences):
+        return (type(a) is type(b) and len(a) == len(b) and
+                all(same_params(u, v) for u, v in zip(a, b)))
 
-    return a == b
+    # NaN is the same parameter value, although it is not equal to itself
+    return bool(a is b or a == b or (a != a and b != b))
 
 
 class BaseSketch:
-- 
2.43.0

