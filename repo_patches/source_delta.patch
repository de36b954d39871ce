From c551d3a1ee263a752e64728337cf1b9f05228710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:01 +0000
Subject: [PATCH 01/42] fix: keep per-event mc aligned with the sorted
 x-variable

---
 seismostats/analysis/b_significant.py | 1 +
 seismostats/plots/statistical.py      | 3 +++
 2 files changed, 4 insertions(+)

diff --git a/seismostats/analysis/b_significant.py b/seismostats/analysis/b_significant.py
index 66271f8..9eda0f6 100644
--- a/seismostats/analysis/b_significant.py
+++ b/seismostats/analysis/b_significant.py
@@ -384,6 +384,7 @@ def b_significant_1D(
         srt = np.argsort(x_variable)
         magnitudes = magnitudes[srt]
         times = times[srt]
+        mc = mc[srt]
         x_variable = x_variable[srt]
 
     idx = magnitudes >= mc - delta_m / 2
diff --git a/seismostats/plots/statistical.py b/seismostats/plots/statistical.py
index 08a8e07..105e253 100644
--- a/seismostats/plots/statistical.py
+++ b/seismostats/plots/statistical.py
@@ -292,6 +292,8 @@ def plot_b_significant_1D(
 
     if isinstance(mc, (float, int)):
         mc = np.ones(len(magnitudes)) * mc
+    else:
+        mc = np.array(mc)
     if x_variable is None:
         x_variable = np.arange(len(magnitudes))
     else:
@@ -303,6 +305,7 @@ def plot_b_significant_1D(
         srt = np.argsort(x_variable)
         magnitudes = magnitudes[srt]
         times = times[srt]
+        mc = mc[srt]
         x_variable = x_variable[srt]
     if ax is None:
         _, ax = plt.subplots()
-- 
2.43.0


From 73fa60ab785b3ae589a74fc928fb1b5c11e9cab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:01 +0000
Subject: [PATCH 02/42] fix: trim times of APositiveAValueEstimator also when
 no events are left

---
 seismostats/analysis/avalue/positive.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/seismostats/analysis/avalue/positive.py b/seismostats/analysis/avalue/positive.py
index 75ae4a7..fddf789 100644
--- a/seismostats/analysis/avalue/positive.py
+++ b/seismostats/analysis/avalue/positive.py
@@ -131,6 +131,8 @@ class APositiveAValueEstimator(AValueEstimator):
         time_diffs = time_diffs[is_larger]
         self.magnitudes = self.magnitudes[1:][is_larger]
         self.idx = self.idx[1:][is_larger]
+        times = self.times
+        self.times = self.times[1:][is_larger]
 
         # check if there are enough events
         if len(time_diffs) == 0:
@@ -139,8 +141,7 @@ class APositiveAValueEstimator(AValueEstimator):
             return np.nan
 
         # estimate the number of events within the time interval
-        total_time = self.times[-1] - self.times[0]
-        self.times = self.times[1:][is_larger]
+        total_time = times[-1] - times[0]
 
         time_factor = sum(time_diffs / total_time)
         n_pos = sum(is_larger) / time_factor
-- 
2.43.0


From 14a8376aa9dbc33f17ce863af4eaa939108fc5ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:13 +0000
Subject: [PATCH 03/42] fix: drop the weights of NaN magnitudes in the FMD
 plots

---
 seismostats/plots/basics.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/seismostats/plots/basics.py b/seismostats/plots/basics.py
index ba291f7..4b3c528 100644
--- a/seismostats/plots/basics.py
+++ b/seismostats/plots/basics.py
@@ -80,6 +80,8 @@ def plot_cum_fmd(
     if fmd_bin is None:
         fmd_bin = 0
 
+    if weights is not None:
+        weights = np.asarray(weights)[~np.isnan(magnitudes)]
     magnitudes = magnitudes[~np.isnan(magnitudes)]
     bins, c_counts, magnitudes = get_cum_fmd(
         magnitudes, fmd_bin, weights=weights, bin_position=bin_position
@@ -172,6 +174,8 @@ def plot_fmd(
         ax: The ax object that was plotted on.
     """
 
+    if weights is not None:
+        weights = np.asarray(weights)[~np.isnan(magnitudes)]
     magnitudes = magnitudes[~np.isnan(magnitudes)]
 
     bins, counts, magnitudes = get_fmd(
-- 
2.43.0


From de64745ca2a4c6b543e02ca55136d74b99668f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:13 +0000
Subject: [PATCH 04/42] fix: do not extend the caller's lists in
 plot_mags_in_time

---
 seismostats/plots/basics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/seismostats/plots/basics.py b/seismostats/plots/basics.py
index 4b3c528..55b8f31 100644
--- a/seismostats/plots/basics.py
+++ b/seismostats/plots/basics.py
@@ -365,8 +365,8 @@ def plot_mags_in_time(
         if isinstance(mc_change_times[0], int):
             mc_change_times = [dt.datetime(x, 1, 1) for x in mc_change_times]
 
-        mc_change_times.append(np.max(times))
-        mcs.append(mcs[-1])
+        mc_change_times = [*mc_change_times, np.max(times)]
+        mcs = [*mcs, mcs[-1]]
         ax.step(mc_change_times, mcs, where="post", c=color_line)
 
     ax.set_xlabel("Time")
-- 
2.43.0


From 97ab84f0340a271dff9c3f3016d81bb256b688d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:23 +0000
Subject: [PATCH 05/42] fix: return beta from the Weichert and Kijko-Smit
 estimators when asked for it

---
 seismostats/analysis/bvalue/kijko_smit.py | 1 +
 seismostats/analysis/bvalue/weichert.py   | 1 +
 2 files changed, 2 insertions(+)

diff --git a/seismostats/analysis/bvalue/kijko_smit.py b/seismostats/analysis/bvalue/kijko_smit.py
index 9e98b18..e31bcd7 100644
--- a/seismostats/analysis/bvalue/kijko_smit.py
+++ b/seismostats/analysis/bvalue/kijko_smit.py
@@ -125,6 +125,7 @@ def estimate_b_kijko_smit(
     # standard deviation of b/beta (Equation 8)
     std_b = beta / np.sqrt(ncomplete)
 
+    b = beta
     if b_parameter == "b_value":
         b = beta_to_b_value(beta)
         std_b = beta_to_b_value(std_b)
diff --git a/seismostats/analysis/bvalue/weichert.py b/seismostats/analysis/bvalue/weichert.py
index babdfb7..fbe90b9 100644
--- a/seismostats/analysis/bvalue/weichert.py
+++ b/seismostats/analysis/bvalue/weichert.py
@@ -205,6 +205,7 @@ def estimate_b_weichert(
         / (denominator_term1 - denominator_term2)
     )
     std_b = np.sqrt(var_beta)
+    b = beta
     if b_parameter == "b_value":
         b = beta_to_b_value(beta)
         std_b = beta_to_b_value(std_b)
-- 
2.43.0


From 06de008f67533da17ac1d3fb2e1b6f78ea92774b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:23 +0000
Subject: [PATCH 06/42] fix: honour last_year=0 in the Weichert and Kijko-Smit
 estimators

---
 seismostats/analysis/bvalue/kijko_smit.py | 2 +-
 seismostats/analysis/bvalue/weichert.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/seismostats/analysis/bvalue/kijko_smit.py b/seismostats/analysis/bvalue/kijko_smit.py
index e31bcd7..18feed2 100644
--- a/seismostats/analysis/bvalue/kijko_smit.py
+++ b/seismostats/analysis/bvalue/kijko_smit.py
@@ -91,7 +91,7 @@ def estimate_b_kijko_smit(
     years = np.array(times).astype("datetime64[Y]").astype(int) + 1970
 
     # get last year of catalogue if last_year not defined
-    last_year = last_year if last_year else np.max(years)
+    last_year = last_year if last_year is not None else np.max(years)
 
     # Get the magnitudes and completeness years as separate arrays
     completeness_magnitudes = completeness_table[:, 0]
diff --git a/seismostats/analysis/bvalue/weichert.py b/seismostats/analysis/bvalue/weichert.py
index fbe90b9..dfa285e 100644
--- a/seismostats/analysis/bvalue/weichert.py
+++ b/seismostats/analysis/bvalue/weichert.py
@@ -90,7 +90,7 @@ def estimate_b_weichert(
     years = np.array(times).astype("datetime64[Y]").astype(int) + 1970
 
     # get last year of catalogue if last_year not defined
-    last_year = last_year if last_year else np.max(years)
+    last_year = last_year if last_year is not None else np.max(years)
 
     # Get the magnitudes and completeness years as separate arrays
     completeness_table_magnitudes = completeness_table[:, 0]
-- 
2.43.0


From 6201f6757ec4b2b8875f8923afbd407bc4c0a63a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:23 +0000
Subject: [PATCH 07/42] fix: estimate_b(return_n=True) without return_std

---
 seismostats/analysis/bvalue/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seismostats/analysis/bvalue/__init__.py b/seismostats/analysis/bvalue/__init__.py
index 4699e80..949a861 100644
--- a/seismostats/analysis/bvalue/__init__.py
+++ b/seismostats/analysis/bvalue/__init__.py
@@ -114,6 +114,6 @@ def estimate_b(
             out = (out, estimator.std_beta)
 
     if return_n:
-        out = (*tuple(out), estimator.n)
+        out = (*out, estimator.n) if return_std else (out, estimator.n)
 
     return out
-- 
2.43.0


From f295d0d2969253aae525ff30e3ba1829cfbce312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:25 +0000
Subject: [PATCH 08/42] fix: keep weights and times aligned with the magnitudes
 in the mc estimation

---
 seismostats/analysis/estimate_mc.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/seismostats/analysis/estimate_mc.py b/seismostats/analysis/estimate_mc.py
index 6e92c79..a9aaae0 100644
--- a/seismostats/analysis/estimate_mc.py
+++ b/seismostats/analysis/estimate_mc.py
@@ -269,7 +269,7 @@ def estimate_mc_ks(
         # if no b_value is given, estimate b_value
         if b_value is None:
             estimator.calculate(
-                mc_sample, mc=mc, delta_m=delta_m, **kwargs)
+                magnitudes, mc=mc, delta_m=delta_m, **kwargs)
             mc_b_value = estimator.b_value
         else:
             mc_b_value = b_value
@@ -536,7 +536,7 @@ def estimate_mc_b_stability(
             warnings.warn("Number of events above tested Mc is less than 30. "
                           "This might affect the stability test.")
 
-        estimator.calculate(sample_selected, mc, delta_m, **kwargs)
+        estimator.calculate(magnitudes, mc, delta_m, **kwargs)
         b = estimator.b_value
         std = estimator.std
         b_values_test.append(b)
@@ -545,8 +545,7 @@ def estimate_mc_b_stability(
         mc_plus = mc_plus[mc_plus <= np.max(magnitudes)]
         b_ex = []
         for mc_p in mc_plus:
-            sample_selected = magnitudes[magnitudes >= mc_p - delta_m / 2]
-            estimator.calculate(sample_selected, mc_p, delta_m, **kwargs)
+            estimator.calculate(magnitudes, mc_p, delta_m, **kwargs)
             b_ex.append(estimator.b_value)
         b_avg = np.sum(b_ex) / steps
         diff_b = np.abs(b_avg - b) / std
-- 
2.43.0


From 901c4f9164f493ee87ec620f1f05d959b95bf621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:25 +0000
Subject: [PATCH 09/42] fix: keep ks_ds_list aligned with the sorted mcs_test

---
 seismostats/analysis/estimate_mc.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/seismostats/analysis/estimate_mc.py b/seismostats/analysis/estimate_mc.py
index a9aaae0..5052179 100644
--- a/seismostats/analysis/estimate_mc.py
+++ b/seismostats/analysis/estimate_mc.py
@@ -233,8 +233,10 @@ def estimate_mc_ks(
             np.arange(np.min(magnitudes), np.max(magnitudes), delta_m), delta_m
         )
     else:
-        # sort mcs
-        mcs_test = np.sort(np.unique(mcs_test))
+        # sort mcs, together with the distances that belong to them
+        mcs_test, order = np.unique(mcs_test, return_index=True)
+        if ks_ds_list is not None:
+            ks_ds_list = [ks_ds_list[ii] for ii in order]
 
     # if magnitude binning is incorrect, b-value calculation will fail anyway
     if b_value is None and not binning_test(magnitudes, delta_m,
-- 
2.43.0


From c61b3acd63355897561e10972395340f314bd4ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:25 +0000
Subject: [PATCH 10/42] fix: make the result of ks_test_gr independent of the
 warnings option

---
 seismostats/analysis/estimate_mc.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/seismostats/analysis/estimate_mc.py b/seismostats/analysis/estimate_mc.py
index 5052179..06ab292 100644
--- a/seismostats/analysis/estimate_mc.py
+++ b/seismostats/analysis/estimate_mc.py
@@ -76,17 +76,19 @@ def ks_test_gr(
         ks_d_obs:   KS distance of the sample.
         ks_ds:      Array of KS distances.
     """
+    if len(magnitudes) == 0:
+        if get_option("warnings") is True:
+            warnings.warn("No sample given.")
+        return 0, 1, []
+
     if get_option("warnings") is True:
         if np.min(magnitudes) < mc - delta_m / 2:
             warnings.warn("Sample contains values below mc.")
 
-        if len(magnitudes) == 0:
-            warnings.warn("No sample given.")
-            return 0, 1, []
-
-        if len(np.unique(magnitudes)) == 1:
+    if len(np.unique(magnitudes)) == 1:
+        if get_option("warnings") is True:
             warnings.warn("Sample contains only one value.")
-            return 0, 1, []
+        return 0, 1, []
 
     beta = b_value_to_beta(b_value)
     n_sample = len(magnitudes)
-- 
2.43.0


From f16875551448866b10b7e12f6b16ae514d8c64bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:25 +0000
Subject: [PATCH 11/42] fix: respect the warnings option in
 estimate_mc_b_stability

---
 seismostats/analysis/estimate_mc.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/seismostats/analysis/estimate_mc.py b/seismostats/analysis/estimate_mc.py
index 06ab292..fd9ec24 100644
--- a/seismostats/analysis/estimate_mc.py
+++ b/seismostats/analysis/estimate_mc.py
@@ -537,8 +537,10 @@ def estimate_mc_b_stability(
         sample_selected = magnitudes[magnitudes >= mc - delta_m / 2]
 
         if len(sample_selected) < 30:
-            warnings.warn("Number of events above tested Mc is less than 30. "
-                          "This might affect the stability test.")
+            if get_option("warnings") is True:
+                warnings.warn(
+                    "Number of events above tested Mc is less than 30. "
+                    "This might affect the stability test.")
 
         estimator.calculate(magnitudes, mc, delta_m, **kwargs)
         b = estimator.b_value
-- 
2.43.0


From 5dbf0a89c4a9e4fbf9ec38c3e40a5754787b35f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:25 +0000
Subject: [PATCH 12/42] fix: do not report a completeness magnitude of 0 as no
 result

---
 seismostats/analysis/estimate_mc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seismostats/analysis/estimate_mc.py b/seismostats/analysis/estimate_mc.py
index fd9ec24..8505cfa 100644
--- a/seismostats/analysis/estimate_mc.py
+++ b/seismostats/analysis/estimate_mc.py
@@ -583,5 +583,5 @@ def estimate_mc_b_stability(
     }
     if verbose:
         print(f'return_vals: {return_vals}')
-    return (bin_to_precision(best_mc, delta_m) if best_mc else None,
+    return (bin_to_precision(best_mc, delta_m) if best_mc is not None else None,
             return_vals)
-- 
2.43.0


From 4e616cbb2b432b1f7b115fc2350b1e1103c549ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:25 +0000
Subject: [PATCH 13/42] fix: accept continuous magnitudes in
 BMorePositiveBValueEstimator

---
 seismostats/analysis/bvalue/more_positive.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/seismostats/analysis/bvalue/more_positive.py b/seismostats/analysis/bvalue/more_positive.py
index 638ff86..749fcd1 100644
--- a/seismostats/analysis/bvalue/more_positive.py
+++ b/seismostats/analysis/bvalue/more_positive.py
@@ -130,7 +130,8 @@ class BMorePositiveBValueEstimator(BValueEstimator):
         idx_next_larger = find_next_larger(
             self.magnitudes, self.delta_m, self.dmc)
         mag_diffs = self.magnitudes[idx_next_larger] - self.magnitudes
-        mag_diffs = bin_to_precision(mag_diffs, self.delta_m)
+        if self.delta_m > 0:
+            mag_diffs = bin_to_precision(mag_diffs, self.delta_m)
 
         idx_no_next = idx_next_larger == 0
         self.magnitudes = mag_diffs[~idx_no_next]
-- 
2.43.0


From 0347385e16b8d894974804cbe5283aa66bdb590e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:18 +0000
Subject: [PATCH 14/42] fix: reject times that do not match the magnitudes in
 the positive estimators

---
 seismostats/analysis/avalue/more_positive.py |  9 +++++++++
 seismostats/analysis/avalue/positive.py      |  9 +++++++++
 seismostats/analysis/bvalue/more_positive.py | 10 ++++++++++
 seismostats/analysis/bvalue/positive.py      | 10 ++++++++++
 4 files changed, 38 insertions(+)

diff --git a/seismostats/analysis/avalue/more_positive.py b/seismostats/analysis/avalue/more_positive.py
index bacd299..6e4e00c 100644
--- a/seismostats/analysis/avalue/more_positive.py
+++ b/seismostats/analysis/avalue/more_positive.py
@@ -114,6 +114,15 @@ class AMorePositiveAValueEstimator(AValueEstimator):
                                  b_value=b_value,
                                  )
 
+    def _sanity_checks(self):
+        '''
+        Perform sanity checks on the input data.
+        '''
+        super()._sanity_checks()
+        if len(self.magnitudes) != len(self.times):
+            raise IndexError(
+                'The number of magnitudes and times must be equal.')
+
     def _filter_magnitudes(self) -> np.ndarray:
         '''
         Filters out magnitudes below the completeness magnitude.
diff --git a/seismostats/analysis/avalue/positive.py b/seismostats/analysis/avalue/positive.py
index fddf789..053c828 100644
--- a/seismostats/analysis/avalue/positive.py
+++ b/seismostats/analysis/avalue/positive.py
@@ -108,6 +108,15 @@ class APositiveAValueEstimator(AValueEstimator):
                                  b_value=b_value
                                  )
 
+    def _sanity_checks(self):
+        '''
+        Perform sanity checks on the input data.
+        '''
+        super()._sanity_checks()
+        if len(self.magnitudes) != len(self.times):
+            raise IndexError(
+                'The number of magnitudes and times must be equal.')
+
     def _filter_magnitudes(self) -> np.ndarray:
         '''
         Filters out magnitudes below the completeness magnitude.
diff --git a/seismostats/analysis/bvalue/more_positive.py b/seismostats/analysis/bvalue/more_positive.py
index 749fcd1..75d731f 100644
--- a/seismostats/analysis/bvalue/more_positive.py
+++ b/seismostats/analysis/bvalue/more_positive.py
@@ -106,6 +106,16 @@ class BMorePositiveBValueEstimator(BValueEstimator):
                                  delta_m=delta_m,
                                  weights=weights)
 
+    def _sanity_checks(self):
+        '''
+        Perform sanity checks on the input data.
+        '''
+        super()._sanity_checks()
+        if self.times is not None and \
+                len(self.magnitudes) != len(self.times):
+            raise IndexError(
+                'The number of magnitudes and times must be equal.')
+
     def _filter_magnitudes(self) -> np.ndarray:
         '''
         Filters out magnitudes below the completeness magnitude.
diff --git a/seismostats/analysis/bvalue/positive.py b/seismostats/analysis/bvalue/positive.py
index da0c604..fd5a03c 100644
--- a/seismostats/analysis/bvalue/positive.py
+++ b/seismostats/analysis/bvalue/positive.py
@@ -100,6 +100,16 @@ class BPositiveBValueEstimator(BValueEstimator):
                                  delta_m=delta_m,
                                  weights=weights)
 
+    def _sanity_checks(self):
+        '''
+        Perform sanity checks on the input data.
+        '''
+        super()._sanity_checks()
+        if self.times is not None and \
+                len(self.magnitudes) != len(self.times):
+            raise IndexError(
+                'The number of magnitudes and times must be equal.')
+
     def _filter_magnitudes(self) -> np.ndarray:
         '''
         Filters out magnitudes below the completeness magnitude.
-- 
2.43.0


From e691201c9ae524058b1a81216a79fb8193aa912e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:35 +0000
Subject: [PATCH 15/42] fix: write every secondary magnitude of the catalog to
 QuakeML

---
 seismostats/catalogs/catalog.py | 31 ++++++++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/seismostats/catalogs/catalog.py b/seismostats/catalogs/catalog.py
index 350cc88..68ee712 100644
--- a/seismostats/catalogs/catalog.py
+++ b/seismostats/catalogs/catalog.py
@@ -47,6 +47,27 @@ _PD_TIME_COLS = ['year', 'month', 'day',
                  'hour', 'minute', 'second', 'microsecond']
 
 
+def _secondary_magnitude_type(key: str) -> str:
+    '''
+    Magnitude type of the column of a secondary magnitude. The type itself
+    can contain underscores (e.g. Ms_20, mB_BB).
+
+    Args:
+        key:        Column name, e.g. ``magnitude_Ms_20_uncertainty``.
+
+    Returns:
+        mag_type:   Type of the magnitude, e.g. ``Ms_20``.
+    '''
+    key = key.removeprefix('magnitude_')
+    for suffix in ['_magnitudeID',
+                   '_uncertainty',
+                   '_lowerUncertainty',
+                   '_upperUncertainty',
+                   '_confidenceLevel']:
+        key = key.removesuffix(suffix)
+    return key
+
+
 def _catalog_constructor_with_fallback(df, **kwargs):
     if not _check_required_cols(df, ['magnitude']):
         return df
@@ -1441,7 +1462,7 @@ class Catalog(pd.DataFrame):
             if col not in df.columns:
                 df[col] = df.apply(lambda _: uuid.uuid4().hex, axis=1)
 
-        mag_types = set([mag.split('_')[1]
+        mag_types = set([_secondary_magnitude_type(mag)
                         for mag in df._secondary_magnitudekeys()])
 
         for mag_type in mag_types:
@@ -1495,7 +1516,7 @@ class Catalog(pd.DataFrame):
             self.logger.info(
                 f"Dropped {len(self) - len(df)} rows with missing values")
 
-        secondary_mags = self._secondary_magnitudekeys()
+        secondary_mags = df._secondary_magnitudekeys()
 
         data = dict(events=df.to_dict(orient='records'),
                     agencyID=agencyID, author=author)
@@ -1503,11 +1524,11 @@ class Catalog(pd.DataFrame):
         for event in data['events']:
             event['sec_mags'] = defaultdict(dict)
             for mag in secondary_mags:
+                mag_type = _secondary_magnitude_type(mag)
                 if pd.notna(event[mag]) and pd.notna(event['magnitude_type']) \
-                        and event['magnitude_type'] not in mag:
+                        and event['magnitude_type'] != mag_type:
 
-                    mag_type = mag.split('_')[1]
-                    mag_key = mag.replace('_' + mag_type, '')
+                    mag_key = mag.replace('_' + mag_type, '', 1)
 
                     event['sec_mags'][mag_type][mag_key] = \
                         event[mag]
-- 
2.43.0


From fc2f27b25710eadc5bc8af6549505f5505c87038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:57 +0000
Subject: [PATCH 16/42] fix: construct catalogs from plain arrays (e.g.
 transpose)

---
 seismostats/catalogs/catalog.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/seismostats/catalogs/catalog.py b/seismostats/catalogs/catalog.py
index 68ee712..6edb747 100644
--- a/seismostats/catalogs/catalog.py
+++ b/seismostats/catalogs/catalog.py
@@ -69,6 +69,10 @@ def _secondary_magnitude_type(key: str) -> str:
 
 
 def _catalog_constructor_with_fallback(df, **kwargs):
+    if not isinstance(df, pd.DataFrame):
+        # some pandas operations (e.g. transpose) construct from plain arrays
+        df = pd.DataFrame(df, **kwargs)
+        kwargs = {}
     if not _check_required_cols(df, ['magnitude']):
         return df
     if not _check_required_cols(df, ['catalog_id']):
-- 
2.43.0


From bf4f7733ce287a391bc2e7650dd005c68017b350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:57 +0000
Subject: [PATCH 17/42] fix: honour mag_max=0 in simulate_magnitudes

---
 seismostats/utils/simulate_distributions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seismostats/utils/simulate_distributions.py b/seismostats/utils/simulate_distributions.py
index 7d55dc6..21e6714 100644
--- a/seismostats/utils/simulate_distributions.py
+++ b/seismostats/utils/simulate_distributions.py
@@ -35,7 +35,7 @@ def simulate_magnitudes(
         :func:`~seismostats.utils.simulate_distributions.simulate_magnitudes_binned`
 
     """
-    if mag_max:
+    if mag_max is not None:
         u = np.random.uniform(0, 1, size=n)
         lower_cdf = 1 - np.exp(-beta * mc)
         upper_cdf = 1 - np.exp(-beta * mag_max)
-- 
2.43.0


From 2a31793408b1afb10b755be1be0489fd13aa9a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:57 +0000
Subject: [PATCH 18/42] fix: honour time_cutoff=0 in the declustering windows

---
 seismostats/analysis/declustering/distance_time_windows.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seismostats/analysis/declustering/distance_time_windows.py b/seismostats/analysis/declustering/distance_time_windows.py
index 49f94c6..f1aaf62 100644
--- a/seismostats/analysis/declustering/distance_time_windows.py
+++ b/seismostats/analysis/declustering/distance_time_windows.py
@@ -54,7 +54,7 @@ class BaseDistanceTimeWindow(abc.ABC):
             sw_time:    Array of time windows.
         """
         sw_space, sw_time = self._calc(magnitude)
-        if self.time_cutoff:
+        if self.time_cutoff is not None:
             sw_time = np.clip(sw_time, a_min=0, a_max=self.time_cutoff)
         sw_time = np.array([pd.Timedelta(days=t) for t in sw_time])
         return sw_space, sw_time
-- 
2.43.0


From 2162909f7be51b5d50617116bfa320f7dcf02cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:57 +0000
Subject: [PATCH 19/42] fix: accept b_value=0 in AMorePositiveAValueEstimator

---
 seismostats/analysis/avalue/more_positive.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seismostats/analysis/avalue/more_positive.py b/seismostats/analysis/avalue/more_positive.py
index 6e4e00c..0a9a573 100644
--- a/seismostats/analysis/avalue/more_positive.py
+++ b/seismostats/analysis/avalue/more_positive.py
@@ -92,7 +92,7 @@ class AMorePositiveAValueEstimator(AValueEstimator):
                 0.730070812347905
         '''
 
-        if not b_value:
+        if b_value is None:
             # if using estimate_a function, b_value can be None even though its
             # not passed to the function
             raise ValueError("b_value must be given")
-- 
2.43.0


From 9fba6216a290c46a4bad61102386ba575d86f3ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:16 +0000
Subject: [PATCH 20/42] fix: decluster catalogs independently of their index

---
 seismostats/analysis/declustering/dec_gardner_knopoff.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/seismostats/analysis/declustering/dec_gardner_knopoff.py b/seismostats/analysis/declustering/dec_gardner_knopoff.py
index 32368f5..510c019 100644
--- a/seismostats/analysis/declustering/dec_gardner_knopoff.py
+++ b/seismostats/analysis/declustering/dec_gardner_knopoff.py
@@ -67,6 +67,9 @@ class GardnerKnopoffType1(Declusterer):
                 "catalog must contain the following columns: " + ", ".join(cols)
             )
 
+        # events are addressed by position, independent of the given index
+        catalog = catalog.reset_index(drop=True)
+
         # each cluster of events is assigned a non-negative integer id
         cluster_ids = np.zeros(len(catalog), dtype=int)
         cluster_id = 1
-- 
2.43.0


From b0ae81b1edb9506bb7610c779ee4175b76e88302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:33 +0000
Subject: [PATCH 21/42] fix: identify rate grid cells with missing depth bounds

---
 seismostats/catalogs/rategrid.py | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/seismostats/catalogs/rategrid.py b/seismostats/catalogs/rategrid.py
index 007801b..cad50a3 100644
--- a/seismostats/catalogs/rategrid.py
+++ b/seismostats/catalogs/rategrid.py
@@ -2,7 +2,6 @@ from __future__ import annotations
 
 from typing import Callable
 
-import numpy as np
 import pandas as pd
 
 from seismostats.utils import _check_required_cols, require_cols
@@ -270,12 +269,13 @@ class GRRateGrid(pd.DataFrame):
         """
 
         if 'cell_id' in self.index.names:
-            cell_bounds = self[['longitude_min', 'longitude_max',
-                                'latitude_min', 'latitude_max',
-                                'depth_min', 'depth_max']]
+            cell_bounds = ['longitude_min', 'longitude_max',
+                           'latitude_min', 'latitude_max',
+                           'depth_min', 'depth_max']
 
-            self['cell'] = np.unique(
-                cell_bounds, axis=0, return_inverse=True, equal_nan=True)[1]
+            # missing (e.g. depth) bounds are the same bound
+            self['cell'] = pd.DataFrame(self).groupby(
+                cell_bounds, dropna=False).ngroup()
 
             self.set_index('cell', append=True, drop=True, inplace=True)
             self.index = self.index.droplevel('cell_id')
@@ -452,7 +452,13 @@ class ForecastGRRateGrid(GRRateGrid):
         """
         # Base columns to compute statistics on
         rategrid = self.copy()
-        rategrid = rategrid.dropna(axis=1, how='all')
+        cell_bounds = ['longitude_min', 'longitude_max',
+                       'latitude_min', 'latitude_max',
+                       'depth_min', 'depth_max']
+        rategrid = rategrid.drop(
+            columns=[col for col in rategrid.columns
+                     if col not in cell_bounds
+                     and rategrid[col].isna().all()])
 
         # get available columns
         base_cols = ['number_events', 'b', 'mc', 'a', 'alpha']
@@ -472,9 +478,7 @@ class ForecastGRRateGrid(GRRateGrid):
 
         # Perform the groupby and aggregation
         if rategrid.index.nlevels == 1:
-            agg = {'by': ['longitude_min', 'longitude_max',
-                          'latitude_min', 'latitude_max',
-                          'depth_min', 'depth_max']}
+            agg = {'by': cell_bounds, 'dropna': False}
         else:  # aggregate by all levels
             agg = {'level': list(range(rategrid.index.nlevels))}
 
-- 
2.43.0


From 9babea45f407fad7f2c0d6a4a4d58c1346eda6f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:37 +0000
Subject: [PATCH 22/42] fix: keep the cell bounds in calculate_statistics
 whatever the statistic

---
 seismostats/catalogs/rategrid.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/seismostats/catalogs/rategrid.py b/seismostats/catalogs/rategrid.py
index cad50a3..9680541 100644
--- a/seismostats/catalogs/rategrid.py
+++ b/seismostats/catalogs/rategrid.py
@@ -466,7 +466,9 @@ class ForecastGRRateGrid(GRRateGrid):
         numeric_cols = rategrid.select_dtypes(include='number').columns
 
         # Apply agg_func to all numeric columns
-        agg_dict = {col: agg_func for col in numeric_cols}
+        # (the bounds identify the cell, they are no statistic)
+        agg_dict = {col: 'first' if col in cell_bounds else agg_func
+                    for col in numeric_cols}
 
         # Add extra metrics for base_cols (if not already present)
         for suffix, func in extra_stats.items():
-- 
2.43.0


From 9c7663d5abc81bcd01f34cd5436d227e07531cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:48 +0000
Subject: [PATCH 23/42] fix: escape text in the QuakeML export

---
 .../catalogs/catalog_templates/quakeml.j2     | 40 +++++++++----------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/seismostats/catalogs/catalog_templates/quakeml.j2 b/seismostats/catalogs/catalog_templates/quakeml.j2
index 1445dba..398738d 100644
--- a/seismostats/catalogs/catalog_templates/quakeml.j2
+++ b/seismostats/catalogs/catalog_templates/quakeml.j2
@@ -2,41 +2,41 @@
 <q:quakeml xmlns="http://quakeml.org/xmlns/bed/1.2" xmlns:q="http://quakeml.org/xmlns/quakeml/1.2">
     <eventParameters publicID="smi:org.gfz-potsdam.de/geofon/EventParameters"> 
         {% for event in events %} 
-        <event publicID="{{ event.eventID }}">
+        <event publicID="{{ event.eventID|e }}">
             <creationInfo>
-                <agencyID>{{ agencyID }}</agencyID>
-                <author>{{ author }}</author>
+                <agencyID>{{ agencyID|e }}</agencyID>
+                <author>{{ author|e }}</author>
             </creationInfo>
 
-            <magnitude publicID="{{ event.magnitudeID }}">
+            <magnitude publicID="{{ event.magnitudeID|e }}">
                 <creationInfo>
-                    <agencyID>{{ agencyID }}</agencyID>
-                    <author>{{ author }}</author>
+                    <agencyID>{{ agencyID|e }}</agencyID>
+                    <author>{{ author|e }}</author>
                 </creationInfo>
                 <mag>
                     {{'<value>{}</value>'.format(event.magnitude) if not event.magnitude is nan and event.magnitude is defined else '' -}}
                     {{'<uncertainty>{}</uncertainty>'.format(event.magnitude_uncertainty) if not event.magnitude_uncertainty is nan and event.magnitude_uncertainty is defined else '' -}}
                 </mag>
-                <type>{{ event.magnitude_type }}</type>
-                <originID>{{ event.originID }}</originID>
+                <type>{{ event.magnitude_type|e }}</type>
+                <originID>{{ event.originID|e }}</originID>
             </magnitude>
 
             {% for type, magnitude in event.sec_mags.items() %}
-            <magnitude publicID="{{ magnitude.magnitude_magnitudeID }}">
+            <magnitude publicID="{{ magnitude.magnitude_magnitudeID|e }}">
                 <creationInfo>
-                    <agencyID>{{ agencyID }}</agencyID>
-                    <author>{{ author }}</author>
+                    <agencyID>{{ agencyID|e }}</agencyID>
+                    <author>{{ author|e }}</author>
                 </creationInfo>
                 <mag>
                     {{'<value>{}</value>'.format(magnitude.magnitude) if not magnitude.magnitude is nan and magnitude.magnitude is defined else '' -}}
                     {{'<uncertainty>{}</uncertainty>'.format(magnitude.magnitude_uncertainty) if not magnitude.magnitude_uncertainty is nan and magnitude.magnitude_uncertainty is defined else '' -}}
                 </mag>
-                <type>{{ type }}</type>
-                <originID>{{ event.originID }}</originID>
+                <type>{{ type|e }}</type>
+                <originID>{{ event.originID|e }}</originID>
             </magnitude>
             {% endfor %}
 
-            <origin publicID="{{ event.originID }}">
+            <origin publicID="{{ event.originID|e }}">
                 <time>
                     <value>{{ event.time.strftime('%Y-%m-%dT%H:%M:%S.%fZ') }}</value>
                 </time>
@@ -48,10 +48,10 @@
                     {{'<value>{}</value>'.format(event.latitude) if not event.latitude is nan and event.latitude is defined else '' -}}
                     {{'<uncertainty>{}</uncertainty>'.format(event.latitude_uncertainty) if not event.latitude_uncertainty is nan and event.latitude_uncertainty is defined else '' -}}
                 </latitude>
-                <evaluationMode>{{ event.evaluationmode }}</evaluationMode>
+                <evaluationMode>{{ event.evaluationmode|e }}</evaluationMode>
                 <creationInfo>
-                    <agencyID>{{ agencyID }}</agencyID>
-                    <author>{{ author }}</author>
+                    <agencyID>{{ agencyID|e }}</agencyID>
+                    <author>{{ author|e }}</author>
                 </creationInfo>
                 <depth>
                     {{'<value>{}</value>'.format(event.depth) if not event.depth is nan and event.depth is defined else '' -}}
@@ -72,9 +72,9 @@
                 </quality>
             </origin>
 
-            <preferredOriginID>{{ event.originID }}</preferredOriginID>
-            <preferredMagnitudeID>{{ event.magnitudeID }}</preferredMagnitudeID>
-            <type>{{ event.event_type }}</type>
+            <preferredOriginID>{{ event.originID|e }}</preferredOriginID>
+            <preferredMagnitudeID>{{ event.magnitudeID|e }}</preferredMagnitudeID>
+            <type>{{ event.event_type|e }}</type>
 
         </event> 
         {% endfor %} 
-- 
2.43.0


From 49f636bebdc7aec5354d8f60f04f1bb8c3831259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:18 +0000
Subject: [PATCH 24/42] fix: keep the spaces of texts which the XML parser
 delivers in chunks

---
 seismostats/io/parser.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/seismostats/io/parser.py b/seismostats/io/parser.py
index 3019f16..bf239e8 100644
--- a/seismostats/io/parser.py
+++ b/seismostats/io/parser.py
@@ -230,6 +230,7 @@ class QuakeMLHandler(xml.sax.ContentHandler):
 
         self.parent = ''
         self.location = ''
+        self.text = ''
 
     def setter(self, key, value, additional_key=''):
         if self.location in getattr(self, key)[-1]:
@@ -238,6 +239,7 @@ class QuakeMLHandler(xml.sax.ContentHandler):
             getattr(self, key)[-1][self.location + additional_key] = value
 
     def startElement(self, tagName, attrs):
+        self.text = ''
         if tagName in ['event', 'origin', 'magnitude']:
 
             self.parent = tagName
@@ -251,6 +253,10 @@ class QuakeMLHandler(xml.sax.ContentHandler):
             self.location += tagName
 
     def endElement(self, tagName):
+        if self.text.strip() and self.parent:
+            self.setter(self.parent, self.text.strip())
+        self.text = ''
+
         if tagName == 'event':
             self.catalog.append(_parse_to_dict(
                 self.event[-1], self.origin, self.magnitude,
@@ -269,8 +275,8 @@ class QuakeMLHandler(xml.sax.ContentHandler):
             self.location = self.location[:-len(tagName)]
 
     def characters(self, chars):
-        if chars.strip() and self.parent:
-            self.setter(self.parent, chars.strip())
+        # the text of an element can arrive in several chunks
+        self.text += chars
 
     def startDocument(self):
         pass
-- 
2.43.0


From 73f50c679c4980f99bba46768982709580b88a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:18 +0000
Subject: [PATCH 25/42] fix: parse magnitudes without a type

---
 seismostats/io/parser.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/seismostats/io/parser.py b/seismostats/io/parser.py
index bf239e8..38ecd05 100644
--- a/seismostats/io/parser.py
+++ b/seismostats/io/parser.py
@@ -70,8 +70,9 @@ def _select_magnitude_by_id(magnitudes: list, id: str | None) \
     preferred = next((m for m in magnitudes if id
                      == m['magnitudepublicID']), DUMMY_MAGNITUDE)
 
-    magnitudes = [m for m in magnitudes if m['magnitudetype']
-                  != preferred['magnitudetype'] or id == m['magnitudepublicID']]
+    magnitudes = [m for m in magnitudes if m.get('magnitudetype')
+                  != preferred.get('magnitudetype')
+                  or id == m['magnitudepublicID']]
 
     return preferred, magnitudes
 
@@ -95,6 +96,8 @@ def _select_secondary_magnitudes(magnitudes: list) -> list:
     Returns:
         selected:      The selected magnitudes.
     """
+    # the type of a magnitude is optional, untyped ones can not be told apart
+    magnitudes = [m for m in magnitudes if 'magnitudetype' in m]
     magnitude_types = set(m['magnitudetype'] for m in magnitudes)
 
     # only one magnitude per type, return all magnitudes
-- 
2.43.0


From 862325ff505c0d3c5e5f6b8071e2abf17c67d7ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:18 +0000
Subject: [PATCH 26/42] fix: parse magnitudes with a version which is not a
 number

---
 seismostats/io/parser.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/seismostats/io/parser.py b/seismostats/io/parser.py
index 38ecd05..0e4267c 100644
--- a/seismostats/io/parser.py
+++ b/seismostats/io/parser.py
@@ -84,6 +84,14 @@ def _select_origin_by_id(origins: list, id: str) -> tuple[dict, list]:
     return preferred, origins
 
 
+def _is_number(value: str | None) -> bool:
+    try:
+        float(value)
+    except (TypeError, ValueError):
+        return False
+    return True
+
+
 def _select_secondary_magnitudes(magnitudes: list) -> list:
     """
     Check the magnitudes for multiple magnitudes of the same type and
@@ -116,7 +124,7 @@ def _select_secondary_magnitudes(magnitudes: list) -> list:
         # sort mags array by version number and creation time
         key1 = [False, 'magnitudecreationInfoversion']
         key2 = [False, 'magnitudecreationInfocreationTime']
-        key1[0] = all(key1[1] in m for m in mags)
+        key1[0] = all(_is_number(m.get(key1[1])) for m in mags)
         key2[0] = all(key2[1] in m for m in mags)
         mags = sorted(mags, key=lambda x: (
             float(x[key1[1]]) if key1[0] else None,
-- 
2.43.0


From 239845cd9b7f6701943b91b1ac07eb8b3c9d56ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:18 +0000
Subject: [PATCH 27/42] fix: order the columns of secondary magnitudes
 reproducibly

---
 seismostats/catalogs/catalog.py | 5 +++--
 seismostats/io/parser.py        | 3 ++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/seismostats/catalogs/catalog.py b/seismostats/catalogs/catalog.py
index 6edb747..2fd7f26 100644
--- a/seismostats/catalogs/catalog.py
+++ b/seismostats/catalogs/catalog.py
@@ -1466,8 +1466,9 @@ class Catalog(pd.DataFrame):
             if col not in df.columns:
                 df[col] = df.apply(lambda _: uuid.uuid4().hex, axis=1)
 
-        mag_types = set([_secondary_magnitude_type(mag)
-                        for mag in df._secondary_magnitudekeys()])
+        mag_types = list(dict.fromkeys(
+            _secondary_magnitude_type(mag)
+            for mag in df._secondary_magnitudekeys()))
 
         for mag_type in mag_types:
             if f'magnitude_{mag_type}_magnitudeID' not in df.columns:
diff --git a/seismostats/io/parser.py b/seismostats/io/parser.py
index 0e4267c..f0ba3e7 100644
--- a/seismostats/io/parser.py
+++ b/seismostats/io/parser.py
@@ -106,7 +106,8 @@ def _select_secondary_magnitudes(magnitudes: list) -> list:
     """
     # the type of a magnitude is optional, untyped ones can not be told apart
     magnitudes = [m for m in magnitudes if 'magnitudetype' in m]
-    magnitude_types = set(m['magnitudetype'] for m in magnitudes)
+    magnitude_types = list(dict.fromkeys(
+        m['magnitudetype'] for m in magnitudes))
 
     # only one magnitude per type, return all magnitudes
     if len(magnitude_types) == len(magnitudes):
-- 
2.43.0


From 803893e6f4ab01a48ac69973dd9d58f4066bbf31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:18 +0000
Subject: [PATCH 28/42] fix: do not take a truncated QuakeML document for a
 complete one

---
 seismostats/io/parser.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/seismostats/io/parser.py b/seismostats/io/parser.py
index f0ba3e7..9aa48aa 100644
--- a/seismostats/io/parser.py
+++ b/seismostats/io/parser.py
@@ -243,6 +243,7 @@ class QuakeMLHandler(xml.sax.ContentHandler):
         self.parent = ''
         self.location = ''
         self.text = ''
+        self.empty = True
 
     def setter(self, key, value, additional_key=''):
         if self.location in getattr(self, key)[-1]:
@@ -251,6 +252,7 @@ class QuakeMLHandler(xml.sax.ContentHandler):
             getattr(self, key)[-1][self.location + additional_key] = value
 
     def startElement(self, tagName, attrs):
+        self.empty = False
         self.text = ''
         if tagName in ['event', 'origin', 'magnitude']:
 
@@ -317,7 +319,7 @@ def parse_quakeml_file(file_path: str,
     try:
         parser.parse(file_path)
     except SAXParseException as e:
-        if 'no element found' in str(e):
+        if 'no element found' in str(e) and handler.empty:
             return data
         raise e
     return data
@@ -368,7 +370,7 @@ def parse_quakeml_response(response: Response,
     try:
         parser.parse(response.raw)
     except SAXParseException as e:
-        if 'no element found' in str(e):
+        if 'no element found' in str(e) and handler.empty:
             return data
         raise e
     return data
-- 
2.43.0


From 35c11a0a7305e6753493991215815184d5c69c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:26 +0000
Subject: [PATCH 29/42] fix: raise on HTTP errors instead of returning an empty
 catalog

---
 seismostats/catalogs/client.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/seismostats/catalogs/client.py b/seismostats/catalogs/client.py
index 5dc0ac9..e7b648e 100644
--- a/seismostats/catalogs/client.py
+++ b/seismostats/catalogs/client.py
@@ -128,6 +128,7 @@ class FDSNWSEventClient():
             catalog = self._get_events_batched(batch_size, include_quality)
         else:
             r = requests.get(self.url, stream=True, params=self.params)
+            r.raise_for_status()
             catalog = parse_quakeml_response(r, include_quality=include_quality)
 
         catalog = Catalog.from_dict(
@@ -158,6 +159,7 @@ class FDSNWSEventClient():
         batch_params = self._get_batch_params(batch_size)
         for params in batch_params:
             r = requests.get(self.url, stream=True, params=params)
+            r.raise_for_status()
             batch = parse_quakeml_response(r, include_quality=include_quality)
             catalog.extend(batch)
 
-- 
2.43.0


From 8eff1c58f5809bd4ccfe1eb816e515a765593114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:36 +0000
Subject: [PATCH 30/42] fix: apply color_map to the background map only, not to
 matplotlib's global state

---
 seismostats/plots/seismicity.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/seismostats/plots/seismicity.py b/seismostats/plots/seismicity.py
index d30fed5..9600e91 100644
--- a/seismostats/plots/seismicity.py
+++ b/seismostats/plots/seismicity.py
@@ -89,7 +89,6 @@ def plot_in_space(
 
     if color_map is not None:
         tiles = cimgt.GoogleTiles(style=style, desired_tile_form="L")
-        plt.set_cmap(color_map)
     else:
         tiles = cimgt.GoogleTiles(style=style)
 
@@ -146,7 +145,7 @@ def plot_in_space(
         ax.set_extent(exts, crs=ll_proj)
 
     if include_map is True:
-        ax.add_image(tiles, 8, alpha=0.6)
+        ax.add_image(tiles, 8, alpha=0.6, cmap=color_map)
 
     # gridlines
     gl = ax.gridlines(
-- 
2.43.0


From ae0a1f920b823d1e5b8ec3c88c3105d739ebaf81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:42 +0000
Subject: [PATCH 31/42] fix: let the warnings option of estimate_mc_ks not
 decide about exceptions

---
 seismostats/analysis/estimate_mc.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/seismostats/analysis/estimate_mc.py b/seismostats/analysis/estimate_mc.py
index 8505cfa..f1f7c0a 100644
--- a/seismostats/analysis/estimate_mc.py
+++ b/seismostats/analysis/estimate_mc.py
@@ -240,16 +240,18 @@ def estimate_mc_ks(
         if ks_ds_list is not None:
             ks_ds_list = [ks_ds_list[ii] for ii in order]
 
+    mags_binned = binning_test(magnitudes, delta_m, check_larger_binning=False)
+    mcs_binned = binning_test(mcs_test, delta_m, check_larger_binning=False)
+
     # if magnitude binning is incorrect, b-value calculation will fail anyway
-    if b_value is None and not binning_test(magnitudes, delta_m,
-                                            check_larger_binning=False):
+    if b_value is None and not mags_binned:
         raise ValueError('Magnitudes are not binned correctly.')
 
     if get_option("warnings") is True:
-        if not binning_test(magnitudes, delta_m, check_larger_binning=False):
+        if not mags_binned:
             warnings.warn("Magnitudes are not binned correctly. "
                           "Test might fail because of this.")
-        if not binning_test(mcs_test, delta_m, check_larger_binning=False):
+        if not mcs_binned:
             warnings.warn("Mcs to test are not binned correctly. "
                           "Test might fail because of this.")
 
-- 
2.43.0


From 32e26d5c4b4e60ddc496dca91c1a693fb4bb3149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:58 +0000
Subject: [PATCH 32/42] fix: depthphasecount of a catalog is numeric like the
 other quality columns

---
 seismostats/catalogs/catalog.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seismostats/catalogs/catalog.py b/seismostats/catalogs/catalog.py
index 2fd7f26..1c1d277 100644
--- a/seismostats/catalogs/catalog.py
+++ b/seismostats/catalogs/catalog.py
@@ -198,7 +198,7 @@ class Catalog(pd.DataFrame):
         numeric_cols = ['magnitude', 'latitude', 'longitude', 'depth',
                         'associatedphasecount', 'usedphasecount',
                         'associatedstationcount', 'usedstationcount',
-                        'standarderror', 'azimuthalgap',
+                        'depthphasecount', 'standarderror', 'azimuthalgap',
                         'secondaryazimuthalgap', 'maximumdistance',
                         'minimumdistance', 'mediandistance']
         string_cols = ['magnitude_type', 'event_type']
-- 
2.43.0


From a012a9e03b517c2f8e508ed91a07c504dcf897f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:14 +0000
Subject: [PATCH 33/42] fix: raise on server errors while counting batches
 instead of returning a part of the events

---
 seismostats/catalogs/client.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/seismostats/catalogs/client.py b/seismostats/catalogs/client.py
index e7b648e..66930a0 100644
--- a/seismostats/catalogs/client.py
+++ b/seismostats/catalogs/client.py
@@ -172,6 +172,9 @@ class FDSNWSEventClient():
         """
         params = self.params | {'limit': limit, 'offset': offset}
         r = requests.get(self.url, params=params)
+        # a server error does not tell whether there are more events
+        if r.status_code >= 500:
+            r.raise_for_status()
         return (r.status_code == 200 and r.content)
 
     def _get_batch_count(self, batch_size: int) -> int:
-- 
2.43.0


From 70a69b5052973ade2b8f4b5c756c665dd6dd56e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:48 +0000
Subject: [PATCH 34/42] fix: estimate_mc_b_stability tests magnitudes when the
 stability range is one bin

---
 seismostats/analysis/estimate_mc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seismostats/analysis/estimate_mc.py b/seismostats/analysis/estimate_mc.py
index f1f7c0a..0b4e951 100644
--- a/seismostats/analysis/estimate_mc.py
+++ b/seismostats/analysis/estimate_mc.py
@@ -507,7 +507,7 @@ def estimate_mc_b_stability(
         if len(mcs_test) <= steps:
             raise ValueError(
                 "The range of magnitudes is smaller than the stability range.")
-        mcs_test = mcs_test[:-steps + 1]
+        mcs_test = mcs_test[:len(mcs_test) - steps + 1]
     else:
         mcs_test = np.array(mcs_test)
         mcs_test = mcs_test[mcs_test + stability_range <= np.max(magnitudes)]
-- 
2.43.0


From 7e088607f7ee6216aa7f54d5e80066aafe0b8a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:55 +0000
Subject: [PATCH 35/42] fix: estimators return NaN if no magnitudes or
 differences are left, also with weights and for the standard deviation

---
 seismostats/analysis/bvalue/classic.py       | 3 +++
 seismostats/analysis/bvalue/more_positive.py | 3 +++
 seismostats/analysis/bvalue/utils.py         | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/seismostats/analysis/bvalue/classic.py b/seismostats/analysis/bvalue/classic.py
index bc37b49..d4f66fa 100644
--- a/seismostats/analysis/bvalue/classic.py
+++ b/seismostats/analysis/bvalue/classic.py
@@ -12,6 +12,9 @@ def _mle_estimator(magnitudes: np.ndarray,
     Internal function for the classic b-value estimator. For b-value
     estimation use `ClassicBValueEstimator` instead.
     '''
+    if len(magnitudes) == 0:
+        return np.nan
+
     if delta_m > 0:
         p = 1 + delta_m / np.average(magnitudes - mc, weights=weights)
         beta = 1 / delta_m * np.log(p)
diff --git a/seismostats/analysis/bvalue/more_positive.py b/seismostats/analysis/bvalue/more_positive.py
index 75d731f..9733819 100644
--- a/seismostats/analysis/bvalue/more_positive.py
+++ b/seismostats/analysis/bvalue/more_positive.py
@@ -164,6 +164,9 @@ class BMorePositiveBValueEstimator(BValueEstimator):
         Bootstrap uncertainty of the b-value estimate. Depending on the number
         of the magnitudes, this can take a while to compute.
         '''
+        if np.isnan(self.b_value):
+            return np.nan
+
         estimator = self.__class__()
 
         # Define the function for the bootstrap.
diff --git a/seismostats/analysis/bvalue/utils.py b/seismostats/analysis/bvalue/utils.py
index f964169..b641c9e 100644
--- a/seismostats/analysis/bvalue/utils.py
+++ b/seismostats/analysis/bvalue/utils.py
@@ -88,6 +88,9 @@ def shi_bolt_confidence(
     if b_parameter not in ['b_value', 'beta']:
         raise ValueError('b_parameter must be either "b_value" or "beta"')
 
+    if len(magnitudes) == 0:
+        return np.nan
+
     std_mags = np.sqrt(np.average(np.square(
         magnitudes - np.average(magnitudes, weights=weights)), weights=weights))
     if weights is None:
-- 
2.43.0


From 370e362730a4d992933910158581c0442d8bb3bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:55 +0000
Subject: [PATCH 36/42] fix: find_next_larger and make_more_incomplete address
 events by position for pandas Series

---
 seismostats/analysis/bvalue/utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/seismostats/analysis/bvalue/utils.py b/seismostats/analysis/bvalue/utils.py
index b641c9e..974422e 100644
--- a/seismostats/analysis/bvalue/utils.py
+++ b/seismostats/analysis/bvalue/utils.py
@@ -128,6 +128,7 @@ def find_next_larger(magnitudes: np.array,
     if dmc is None:
         dmc = delta_m
 
+    magnitudes = np.asarray(magnitudes)
     idx_next_larger = np.zeros(len(magnitudes))
     for ii in range(len(magnitudes) - 1):
         for jj in range(ii + 1, len(magnitudes)):
@@ -168,6 +169,9 @@ def make_more_incomplete(
         idx:        Array of indices of the events that were kept.
         '''
 
+    magnitudes = np.asarray(magnitudes)
+    times = np.asarray(times)
+
     # sort magnitudes in time
     idx_sort = np.argsort(times)
     magnitudes = magnitudes[idx_sort]
-- 
2.43.0


From 5a0ce1b160d8ab55c038539b7c3018ad60649c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:07 +0000
Subject: [PATCH 37/42] fix: plot_in_space without ax draws on a new axes, not
 on an earlier map

---
 seismostats/plots/seismicity.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/seismostats/plots/seismicity.py b/seismostats/plots/seismicity.py
index 9600e91..1993a85 100644
--- a/seismostats/plots/seismicity.py
+++ b/seismostats/plots/seismicity.py
@@ -97,7 +97,9 @@ def plot_in_space(
     ll_proj = ccrs.PlateCarree()  # CRS for raw long/lat
 
     if ax is None:
-        ax = plt.subplot(projection=tile_proj)
+        # (plt.subplot would reuse the axes of an earlier map)
+        fig = plt.figure() if plt.gcf().axes else plt.gcf()
+        ax = fig.add_subplot(projection=tile_proj)
         ax_temp = None
     else:
         ax_temp = ax
-- 
2.43.0


From 75345a6bb704ce8e346939f2f7187d6c3e251201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:28 +0000
Subject: [PATCH 38/42] fix: dots of events which all have the same magnitude
 have a size

---
 seismostats/plots/basics.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/seismostats/plots/basics.py b/seismostats/plots/basics.py
index 55b8f31..27769a7 100644
--- a/seismostats/plots/basics.py
+++ b/seismostats/plots/basics.py
@@ -409,7 +409,10 @@ def dot_size(
     smallest_mag = np.min(magnitudes)
     largest_mag = np.max(magnitudes)
 
-    mag_norm = (magnitudes - smallest_mag) / (largest_mag - smallest_mag)
+    if largest_mag > smallest_mag:
+        mag_norm = (magnitudes - smallest_mag) / (largest_mag - smallest_mag)
+    else:
+        mag_norm = np.zeros(len(magnitudes))
     mag_powered = np.power(mag_norm, interpolation_power)
     sizes = mag_powered * (largest - smallest) + smallest
 
@@ -445,7 +448,10 @@ def reverse_dot_size(
     if interpolation_power == 0:
         raise ValueError("interpolation_power cannot be 0")
 
-    size_norm = (sizes - min(sizes)) / (max(sizes) - min(sizes))
+    if max(sizes) > min(sizes):
+        size_norm = (sizes - min(sizes)) / (max(sizes) - min(sizes))
+    else:
+        size_norm = np.zeros(len(sizes))
     size_powered = np.power(size_norm, 1 / interpolation_power)
     magnitudes = size_powered * (max_mag - min_mag) + min_mag
     return magnitudes
-- 
2.43.0


From bd31e7f5f37a59c621566bbc1572d15d63b16f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:45 +0000
Subject: [PATCH 39/42] fix: an event without magnitude does not hide all
 others in dot plots

---
 seismostats/plots/basics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/seismostats/plots/basics.py b/seismostats/plots/basics.py
index 27769a7..c957249 100644
--- a/seismostats/plots/basics.py
+++ b/seismostats/plots/basics.py
@@ -406,8 +406,8 @@ def dot_size(
             "setting it to whatever I think is better"
         )
         largest = 50 * max(smallest, 2)
-    smallest_mag = np.min(magnitudes)
-    largest_mag = np.max(magnitudes)
+    smallest_mag = np.nanmin(magnitudes)
+    largest_mag = np.nanmax(magnitudes)
 
     if largest_mag > smallest_mag:
         mag_norm = (magnitudes - smallest_mag) / (largest_mag - smallest_mag)
-- 
2.43.0


From d49998d4e273d1971a22d6ab4668e101d37c002a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:53 +0000
Subject: [PATCH 40/42] fix: the Gutenberg-Richter line of a weighted
 cumulative FMD has the height of the weighted counts

---
 seismostats/plots/basics.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/seismostats/plots/basics.py b/seismostats/plots/basics.py
index c957249..171b21f 100644
--- a/seismostats/plots/basics.py
+++ b/seismostats/plots/basics.py
@@ -114,7 +114,8 @@ def plot_cum_fmd(
         if color_line is None:
             color_line = scatter1.get_facecolor()[0]
 
-        n_mc = len(magnitudes[magnitudes >= mc - fmd_bin / 2])
+        above_mc = magnitudes >= mc - fmd_bin / 2
+        n_mc = np.sum(above_mc if weights is None else weights[above_mc])
         if bin_position == "left":
             mc -= fmd_bin / 2
         x = bins[bins >= mc - fmd_bin / 2]
-- 
2.43.0


From b46ae4ac2c5829c6a34addc6b03ea3aaa087bdc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:04 +0000
Subject: [PATCH 41/42] fix: leave completeness periods without events out of
 the Kijko-Smit estimate

---
 seismostats/analysis/bvalue/kijko_smit.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/seismostats/analysis/bvalue/kijko_smit.py b/seismostats/analysis/bvalue/kijko_smit.py
index 18feed2..9e6e768 100644
--- a/seismostats/analysis/bvalue/kijko_smit.py
+++ b/seismostats/analysis/bvalue/kijko_smit.py
@@ -115,12 +115,15 @@ def estimate_b_kijko_smit(
     # Equation (7) from Kijko, Smit (2012)
     estimator_terms = []
     for ii, subcat_magnitudes in enumerate(sub_catalogues):
+        # a period without complete events does not contribute
+        if len(subcat_magnitudes) == 0:
+            continue
         # get sub-catalogue beta-value as per Aki-Utsu
         sub_beta = 1 / (
             np.average(subcat_magnitudes) - completeness_magnitudes[ii]
         )
         estimator_terms.append((len(subcat_magnitudes) / ncomplete) / sub_beta)
-    beta = 1 / np.sum(estimator_terms)
+    beta = 1 / np.sum(estimator_terms) if estimator_terms else np.nan
 
     # standard deviation of b/beta (Equation 8)
     std_b = beta / np.sqrt(ncomplete)
-- 
2.43.0


From 6e5122af4485e908389c3cb79be4750b667d3d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:15 +0000
Subject: [PATCH 42/42] fix: count every year once in the rate of the
 Kijko-Smit estimate

---
 seismostats/analysis/bvalue/kijko_smit.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/seismostats/analysis/bvalue/kijko_smit.py b/seismostats/analysis/bvalue/kijko_smit.py
index 9e6e768..9dc8503 100644
--- a/seismostats/analysis/bvalue/kijko_smit.py
+++ b/seismostats/analysis/bvalue/kijko_smit.py
@@ -133,10 +133,12 @@ def estimate_b_kijko_smit(
         b = beta_to_b_value(beta)
         std_b = beta_to_b_value(std_b)
 
-    # get rate assuming Poisson process (Equation 10)
+    # get rate assuming Poisson process (Equation 10), where every
+    # sub-catalogue only covers the years until the next one starts
     denominator_rate = 0
     for idx in range(len(completeness_magnitudes)):
-        denominator_rate += (last_year - completeness_years[idx]) * np.exp(
+        period_end = last_year if idx == 0 else completeness_years[idx - 1]
+        denominator_rate += (period_end - completeness_years[idx]) * np.exp(
             (-beta)
             * (completeness_magnitudes[idx] - completeness_magnitudes[0])
         )
-- 
2.43.0

