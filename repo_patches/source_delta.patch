From d3a1b83231ae5ea6daad22cc8f359148803ad234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:07 +0000
Subject: [PATCH 01/36] fix: discard bootstrap results of an earlier fit when a
 DiD or TWFE estimator is refitted

---
 diff_diff/estimators.py | 3 +++
 diff_diff/twfe.py       | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/diff_diff/estimators.py b/diff_diff/estimators.py
index 83fc72b..2c52426 100644
--- a/diff_diff/estimators.py
+++ b/diff_diff/estimators.py
@@ -203,6 +203,9 @@ class DifferenceInDifferences:
         >>> did.fit(data, outcome='sales', treatment='treated', time='post',
         ...         absorb=['firm_id'])
         """
+        # Discard bootstrap results left by an earlier fit of this object
+        self._bootstrap_results = None
+
         # Parse formula if provided
         if formula is not None:
             outcome, treatment, time, covariates = self._parse_formula(formula, data)
diff --git a/diff_diff/twfe.py b/diff_diff/twfe.py
index 45b08d6..0ff54ae 100644
--- a/diff_diff/twfe.py
+++ b/diff_diff/twfe.py
@@ -86,6 +86,9 @@ class TwoWayFixedEffects(DifferenceInDifferences):
         DiDResults
             Estimation results.
         """
+        # Discard bootstrap results left by an earlier fit of this object
+        self._bootstrap_results = None
+
         # Validate unit column exists
         if unit not in data.columns:
             raise ValueError(f"Unit column '{unit}' not found in data")
-- 
2.43.0


From 56bce70a954ebaf78b4259d4525c73996ccf5f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:22 +0000
Subject: [PATCH 02/36] fix: build fallback datasets with a local generator
 instead of reseeding numpy's global one

---
 diff_diff/datasets.py | 58 +++++++++++++++++++++----------------------
 1 file changed, 29 insertions(+), 29 deletions(-)

diff --git a/diff_diff/datasets.py b/diff_diff/datasets.py
index d676a5c..b3a23cc 100644
--- a/diff_diff/datasets.py
+++ b/diff_diff/datasets.py
@@ -160,7 +160,7 @@ def _construct_card_krueger_data() -> pd.DataFrame:
     Uses aggregated data that preserves the key DiD estimates.
     """
     # Representative sample based on published summary statistics
-    np.random.seed(1994)  # Card-Krueger publication year, for reproducibility
+    rng = np.random.RandomState(1994)  # Card-Krueger publication year, for reproducibility
 
     stores = []
     store_id = 1
@@ -171,8 +171,8 @@ def _construct_card_krueger_data() -> pd.DataFrame:
     for chain in ["bk", "kfc", "roys", "wendys"]:
         n_stores = {"bk": 85, "kfc": 62, "roys": 48, "wendys": 36}[chain]
         for _ in range(n_stores):
-            emp_pre = np.random.normal(20.44, 8.5)
-            emp_post = emp_pre + np.random.normal(0.59, 7.0)  # Change ≈ 0.59
+            emp_pre = rng.normal(20.44, 8.5)
+            emp_post = emp_pre + rng.normal(0.59, 7.0)  # Change ≈ 0.59
             emp_pre = max(0, emp_pre)
             emp_post = max(0, emp_post)
 
@@ -182,8 +182,8 @@ def _construct_card_krueger_data() -> pd.DataFrame:
                 "chain": chain,
                 "emp_pre": round(emp_pre, 1),
                 "emp_post": round(emp_post, 1),
-                "wage_pre": round(np.random.normal(4.61, 0.35), 2),
-                "wage_post": round(np.random.normal(5.08, 0.12), 2),
+                "wage_pre": round(rng.normal(4.61, 0.35), 2),
+                "wage_post": round(rng.normal(5.08, 0.12), 2),
             })
             store_id += 1
 
@@ -193,8 +193,8 @@ def _construct_card_krueger_data() -> pd.DataFrame:
     for chain in ["bk", "kfc", "roys", "wendys"]:
         n_stores = {"bk": 30, "kfc": 20, "roys": 14, "wendys": 15}[chain]
         for _ in range(n_stores):
-            emp_pre = np.random.normal(23.33, 8.2)
-            emp_post = emp_pre + np.random.normal(-2.16, 7.0)  # Change ≈ -2.16
+            emp_pre = rng.normal(23.33, 8.2)
+            emp_post = emp_pre + rng.normal(-2.16, 7.0)  # Change ≈ -2.16
             emp_pre = max(0, emp_pre)
             emp_post = max(0, emp_post)
 
@@ -204,8 +204,8 @@ def _construct_card_krueger_data() -> pd.DataFrame:
                 "chain": chain,
                 "emp_pre": round(emp_pre, 1),
                 "emp_post": round(emp_post, 1),
-                "wage_pre": round(np.random.normal(4.63, 0.35), 2),
-                "wage_post": round(np.random.normal(4.62, 0.35), 2),
+                "wage_pre": round(rng.normal(4.63, 0.35), 2),
+                "wage_post": round(rng.normal(4.62, 0.35), 2),
             })
             store_id += 1
 
@@ -305,7 +305,7 @@ def _construct_castle_doctrine_data() -> pd.DataFrame:
 
     This is a fallback when the online source is unavailable.
     """
-    np.random.seed(2013)  # Cheng-Hoekstra publication year, for reproducibility
+    rng = np.random.RandomState(2013)  # Cheng-Hoekstra publication year, for reproducibility
 
     # States and their Castle Doctrine adoption years
     # 0 = never adopted during the study period
@@ -328,9 +328,9 @@ def _construct_castle_doctrine_data() -> pd.DataFrame:
     data = []
     for state, first_treat in state_adoption.items():
         # State-level baseline characteristics
-        base_homicide = np.random.uniform(3.0, 8.0)
-        pop = np.random.randint(500000, 20000000)
-        base_income = np.random.uniform(30000, 50000)
+        base_homicide = rng.uniform(3.0, 8.0)
+        pop = rng.randint(500000, 20000000)
+        base_income = rng.uniform(30000, 50000)
 
         for year in range(2000, 2011):
             # Time trend
@@ -342,15 +342,15 @@ def _construct_castle_doctrine_data() -> pd.DataFrame:
             else:
                 treatment_effect = 0
 
-            homicide = max(0, base_homicide + time_effect + treatment_effect + np.random.normal(0, 0.5))
+            homicide = max(0, base_homicide + time_effect + treatment_effect + rng.normal(0, 0.5))
 
             data.append({
                 "state": state,
                 "year": year,
                 "first_treat": first_treat,
                 "homicide_rate": round(homicide, 2),
-                "population": pop + year * 10000 + np.random.randint(-5000, 5000),
-                "income": round(base_income * (1 + 0.02 * (year - 2000)) + np.random.normal(0, 1000), 0),
+                "population": pop + year * 10000 + rng.randint(-5000, 5000),
+                "income": round(base_income * (1 + 0.02 * (year - 2000)) + rng.normal(0, 1000), 0),
                 "treated": int(first_treat > 0 and year >= first_treat),
             })
 
@@ -454,7 +454,7 @@ def _construct_divorce_laws_data() -> pd.DataFrame:
 
     This is a fallback when the online source is unavailable.
     """
-    np.random.seed(2006)  # Stevenson-Wolfers publication year, for reproducibility
+    rng = np.random.RandomState(2006)  # Stevenson-Wolfers publication year, for reproducibility
 
     # State adoption years for unilateral divorce (from Wolfers 2006)
     # 0 = never adopted or adopted before 1968
@@ -477,9 +477,9 @@ def _construct_divorce_laws_data() -> pd.DataFrame:
     data = []
     for state, first_treat in state_adoption.items():
         # State-level baselines
-        base_divorce = np.random.uniform(2.0, 6.0)
-        base_lfp = np.random.uniform(0.35, 0.55)
-        base_suicide = np.random.uniform(4.0, 8.0)
+        base_divorce = rng.uniform(2.0, 6.0)
+        base_lfp = rng.uniform(0.35, 0.55)
+        base_suicide = rng.uniform(4.0, 8.0)
 
         for year in range(1968, 1989):
             # Time trends
@@ -512,11 +512,11 @@ def _construct_divorce_laws_data() -> pd.DataFrame:
                 "year": year,
                 "first_treat": first_treat if first_treat >= 1968 else 0,
                 "divorce_rate": round(max(0, base_divorce + time_trend + divorce_effect +
-                                          np.random.normal(0, 0.3)), 2),
+                                          rng.normal(0, 0.3)), 2),
                 "female_lfp": round(min(1, max(0, base_lfp + 0.01 * (year - 1968) +
-                                               lfp_effect + np.random.normal(0, 0.02))), 3),
+                                               lfp_effect + rng.normal(0, 0.02))), 3),
                 "suicide_rate": round(max(0, base_suicide + suicide_effect +
-                                          np.random.normal(0, 0.5)), 2),
+                                          rng.normal(0, 0.5)), 2),
             })
 
     df = pd.DataFrame(data)
@@ -601,7 +601,7 @@ def _construct_mpdta_data() -> pd.DataFrame:
 
     This replicates the simulated dataset used in Callaway-Sant'Anna tutorials.
     """
-    np.random.seed(2021)  # Callaway-Sant'Anna publication year, for reproducibility
+    rng = np.random.RandomState(2021)  # Callaway-Sant'Anna publication year, for reproducibility
 
     n_counties = 500
     years = [2003, 2004, 2005, 2006, 2007]
@@ -612,9 +612,9 @@ def _construct_mpdta_data() -> pd.DataFrame:
 
     data = []
     for county in range(1, n_counties + 1):
-        first_treat = np.random.choice(cohorts, p=cohort_probs)
-        base_lpop = np.random.normal(12.0, 1.0)
-        base_lemp = base_lpop - np.random.uniform(1.5, 2.5)
+        first_treat = rng.choice(cohorts, p=cohort_probs)
+        base_lpop = rng.normal(12.0, 1.0)
+        base_lemp = base_lpop - rng.uniform(1.5, 2.5)
 
         for year in years:
             time_effect = (year - 2003) * 0.02
@@ -633,8 +633,8 @@ def _construct_mpdta_data() -> pd.DataFrame:
             data.append({
                 "countyreal": county,
                 "year": year,
-                "lpop": round(base_lpop + np.random.normal(0, 0.05), 4),
-                "lemp": round(base_lemp + time_effect + te + np.random.normal(0, 0.02), 4),
+                "lpop": round(base_lpop + rng.normal(0, 0.05), 4),
+                "lemp": round(base_lemp + time_effect + te + rng.normal(0, 0.02), 4),
                 "first_treat": first_treat,
                 "treat": int(first_treat > 0),
             })
-- 
2.43.0


From 9bb17caca50a0d6f0fa6ab8d25cea6ff624dba74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:17 +0000
Subject: [PATCH 03/36] fix: average treated units in column order in
 rank_control_units, not in set iteration order

---
 diff_diff/prep.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/diff_diff/prep.py b/diff_diff/prep.py
index 3f80cfe..761629a 100644
--- a/diff_diff/prep.py
+++ b/diff_diff/prep.py
@@ -995,7 +995,8 @@ def rank_control_units(
     Y_control = pivot.loc[valid_pre_periods, control_candidates].values.astype(float)
 
     # Treated outcomes mean: shape (n_pre_periods,)
-    treated_list = [u for u in treated_set if u in pivot.columns]
+    # (column order, so that float sums do not depend on set iteration order)
+    treated_list = [u for u in pivot.columns if u in treated_set]
     if len(treated_list) == 0:
         raise ValueError("Treated units not found in pre-treatment data.")
     Y_treated_mean = pivot.loc[valid_pre_periods, treated_list].mean(axis=1).values.astype(float)
@@ -1035,7 +1036,7 @@ def rank_control_units(
         cov_data = pre_data.groupby(unit_column)[covariates].mean()
 
         # Treated covariate profile (mean across treated units)
-        treated_cov = cov_data.loc[list(treated_set)].mean()
+        treated_cov = cov_data.loc[treated_list].mean()
 
         # Standardize covariates
         cov_mean = cov_data.mean()
-- 
2.43.0


From 6cf6e126635ba05163e679245255bacc33a74923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:21 +0000
Subject: [PATCH 04/36] fix: set_params rejects names that are not parameters
 (methods, fitted attributes, unknown names)

---
 diff_diff/bacon.py         | 3 +++
 diff_diff/estimators.py    | 3 ++-
 diff_diff/honest_did.py    | 3 ++-
 diff_diff/pretrends.py     | 3 ++-
 diff_diff/staggered.py     | 3 ++-
 diff_diff/sun_abraham.py   | 3 ++-
 diff_diff/synthetic_did.py | 3 ++-
 diff_diff/triple_diff.py   | 3 ++-
 diff_diff/trop.py          | 3 ++-
 9 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/diff_diff/bacon.py b/diff_diff/bacon.py
index 8f09d9f..77d7cec 100644
--- a/diff_diff/bacon.py
+++ b/diff_diff/bacon.py
@@ -872,6 +872,9 @@ class BaconDecomposition:
 
     def set_params(self, **params) -> "BaconDecomposition":
         """Set estimator parameters (sklearn-compatible)."""
+        for key in params:
+            if key not in self.get_params():
+                raise ValueError(f"Unknown parameter: {key}")
         if "weights" in params:
             if params["weights"] not in ("approximate", "exact"):
                 raise ValueError(
diff --git a/diff_diff/estimators.py b/diff_diff/estimators.py
index 2c52426..02f236a 100644
--- a/diff_diff/estimators.py
+++ b/diff_diff/estimators.py
@@ -623,8 +623,9 @@ class DifferenceInDifferences:
         -------
         self
         """
+        valid = self.get_params()
         for key, value in params.items():
-            if hasattr(self, key):
+            if key in valid:
                 setattr(self, key, value)
             else:
                 raise ValueError(f"Unknown parameter: {key}")
diff --git a/diff_diff/honest_did.py b/diff_diff/honest_did.py
index 81c8caf..7763de1 100644
--- a/diff_diff/honest_did.py
+++ b/diff_diff/honest_did.py
@@ -1035,8 +1035,9 @@ class HonestDiD:
 
     def set_params(self, **params) -> "HonestDiD":
         """Set parameters for this estimator."""
+        valid = self.get_params()
         for key, value in params.items():
-            if hasattr(self, key):
+            if key in valid:
                 setattr(self, key, value)
             else:
                 raise ValueError(f"Invalid parameter: {key}")
diff --git a/diff_diff/pretrends.py b/diff_diff/pretrends.py
index d9bc1c6..03fc19b 100644
--- a/diff_diff/pretrends.py
+++ b/diff_diff/pretrends.py
@@ -472,10 +472,11 @@ class PreTrendsPower:
 
     def set_params(self, **params) -> "PreTrendsPower":
         """Set parameters for this estimator."""
+        valid = self.get_params()
         for key, value in params.items():
             if key == "power":
                 self.target_power = value
-            elif hasattr(self, key):
+            elif key in valid:
                 setattr(self, key, value)
             else:
                 raise ValueError(f"Invalid parameter: {key}")
diff --git a/diff_diff/staggered.py b/diff_diff/staggered.py
index f01400e..d5ac6fa 100644
--- a/diff_diff/staggered.py
+++ b/diff_diff/staggered.py
@@ -1098,8 +1098,9 @@ class CallawaySantAnna(
 
     def set_params(self, **params) -> "CallawaySantAnna":
         """Set estimator parameters (sklearn-compatible)."""
+        valid = self.get_params()
         for key, value in params.items():
-            if hasattr(self, key):
+            if key in valid:
                 setattr(self, key, value)
             else:
                 raise ValueError(f"Unknown parameter: {key}")
diff --git a/diff_diff/sun_abraham.py b/diff_diff/sun_abraham.py
index cb7313f..16b4186 100644
--- a/diff_diff/sun_abraham.py
+++ b/diff_diff/sun_abraham.py
@@ -1172,8 +1172,9 @@ class SunAbraham:
 
     def set_params(self, **params) -> "SunAbraham":
         """Set estimator parameters (sklearn-compatible)."""
+        valid = self.get_params()
         for key, value in params.items():
-            if hasattr(self, key):
+            if key in valid:
                 setattr(self, key, value)
             else:
                 raise ValueError(f"Unknown parameter: {key}")
diff --git a/diff_diff/synthetic_did.py b/diff_diff/synthetic_did.py
index dca934b..3362c3b 100644
--- a/diff_diff/synthetic_did.py
+++ b/diff_diff/synthetic_did.py
@@ -730,8 +730,9 @@ class SyntheticDiD(DifferenceInDifferences):
 
     def set_params(self, **params) -> "SyntheticDiD":
         """Set estimator parameters."""
+        valid = self.get_params()
         for key, value in params.items():
-            if hasattr(self, key):
+            if key in valid:
                 setattr(self, key, value)
             else:
                 raise ValueError(f"Unknown parameter: {key}")
diff --git a/diff_diff/triple_diff.py b/diff_diff/triple_diff.py
index 126d30b..4dbd80a 100644
--- a/diff_diff/triple_diff.py
+++ b/diff_diff/triple_diff.py
@@ -1205,8 +1205,9 @@ class TripleDifference:
         -------
         self
         """
+        valid = self.get_params()
         for key, value in params.items():
-            if hasattr(self, key):
+            if key in valid:
                 setattr(self, key, value)
             else:
                 raise ValueError(f"Unknown parameter: {key}")
diff --git a/diff_diff/trop.py b/diff_diff/trop.py
index a6e2fdc..d42464f 100644
--- a/diff_diff/trop.py
+++ b/diff_diff/trop.py
@@ -3095,8 +3095,9 @@ class TROP:
 
     def set_params(self, **params) -> "TROP":
         """Set estimator parameters."""
+        valid = self.get_params()
         for key, value in params.items():
-            if hasattr(self, key):
+            if key in valid:
                 setattr(self, key, value)
             else:
                 raise ValueError(f"Unknown parameter: {key}")
-- 
2.43.0


From ed647e879c611a4413872a8119662f4319b19cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:21 +0000
Subject: [PATCH 05/36] fix: CallawaySantAnna.set_params(bootstrap_weights=...)
 takes effect

---
 diff_diff/staggered.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/diff_diff/staggered.py b/diff_diff/staggered.py
index d5ac6fa..47c2722 100644
--- a/diff_diff/staggered.py
+++ b/diff_diff/staggered.py
@@ -1104,6 +1104,11 @@ class CallawaySantAnna(
                 setattr(self, key, value)
             else:
                 raise ValueError(f"Unknown parameter: {key}")
+        # The two bootstrap weight names are aliases (see __init__)
+        if "bootstrap_weights" in params:
+            self.bootstrap_weight_type = self.bootstrap_weights
+        elif "bootstrap_weight_type" in params:
+            self.bootstrap_weights = self.bootstrap_weight_type
         return self
 
     def summary(self) -> str:
-- 
2.43.0


From 09aaafc06deb14ecb05562397e848599f80b5e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:21 +0000
Subject: [PATCH 06/36] fix: PreTrendsPower.set_params converts
 violation_weights like the constructor

---
 diff_diff/pretrends.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/diff_diff/pretrends.py b/diff_diff/pretrends.py
index 03fc19b..7e58e09 100644
--- a/diff_diff/pretrends.py
+++ b/diff_diff/pretrends.py
@@ -476,6 +476,8 @@ class PreTrendsPower:
         for key, value in params.items():
             if key == "power":
                 self.target_power = value
+            elif key == "violation_weights" and value is not None:
+                self.violation_weights = np.asarray(value)
             elif key in valid:
                 setattr(self, key, value)
             else:
-- 
2.43.0


From 55146c484f65b8027e4e11d42a9314aefa35c205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:53 +0000
Subject: [PATCH 07/36] fix: reject unknown inference, bootstrap_weights,
 rank_deficient_action (DiD family) and aggregate (CallawaySantAnna) values

---
 diff_diff/estimators.py | 16 ++++++++++++++++
 diff_diff/staggered.py  |  6 ++++++
 2 files changed, 22 insertions(+)

diff --git a/diff_diff/estimators.py b/diff_diff/estimators.py
index 02f236a..a73b164 100644
--- a/diff_diff/estimators.py
+++ b/diff_diff/estimators.py
@@ -128,6 +128,22 @@ class DifferenceInDifferences:
         seed: Optional[int] = None,
         rank_deficient_action: str = "warn",
     ):
+        if inference not in ["analytical", "wild_bootstrap"]:
+            raise ValueError(
+                f"inference must be 'analytical' or 'wild_bootstrap', "
+                f"got '{inference}'"
+            )
+        if bootstrap_weights not in ["rademacher", "webb", "mammen"]:
+            raise ValueError(
+                f"bootstrap_weights must be 'rademacher', 'webb', or 'mammen', "
+                f"got '{bootstrap_weights}'"
+            )
+        if rank_deficient_action not in ["warn", "error", "silent"]:
+            raise ValueError(
+                f"rank_deficient_action must be 'warn', 'error', or 'silent', "
+                f"got '{rank_deficient_action}'"
+            )
+
         self.robust = robust
         self.cluster = cluster
         self.alpha = alpha
diff --git a/diff_diff/staggered.py b/diff_diff/staggered.py
index 47c2722..35ac16d 100644
--- a/diff_diff/staggered.py
+++ b/diff_diff/staggered.py
@@ -620,6 +620,12 @@ class CallawaySantAnna(
             If required columns are missing or data validation fails.
         """
         # Validate inputs
+        if aggregate not in [None, "simple", "event_study", "group", "all"]:
+            raise ValueError(
+                f"aggregate must be None, 'simple', 'event_study', 'group', or 'all', "
+                f"got '{aggregate}'"
+            )
+
         required_cols = [outcome, unit, time, first_treat]
         if covariates:
             required_cols.extend(covariates)
-- 
2.43.0


From e78bfe731ce4c15e4850b37e0450b51047afba3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:06 +0000
Subject: [PATCH 08/36] fix: placebo_timing_test and placebo_group_test honour
 alpha

---
 diff_diff/diagnostics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/diff_diff/diagnostics.py b/diff_diff/diagnostics.py
index 123a7de..d0032ce 100644
--- a/diff_diff/diagnostics.py
+++ b/diff_diff/diagnostics.py
@@ -416,7 +416,7 @@ def placebo_timing_test(
     pre_data["_fake_post"] = (pre_data[time] >= fake_treatment_period).astype(int)
 
     # Fit DiD on pre-treatment data with fake post
-    did = DifferenceInDifferences(**estimator_kwargs)
+    did = DifferenceInDifferences(alpha=alpha, **estimator_kwargs)
     results = did.fit(
         pre_data,
         outcome=outcome,
@@ -508,7 +508,7 @@ def placebo_group_test(
     fake_data["_post"] = fake_data[time].isin(post_periods).astype(int)
 
     # Fit DiD
-    did = DifferenceInDifferences(**estimator_kwargs)
+    did = DifferenceInDifferences(alpha=alpha, **estimator_kwargs)
     results = did.fit(
         fake_data,
         outcome=outcome,
-- 
2.43.0


From c7b9540dd416cbe63b54112b082e4cdb1c1dfcd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:11 +0000
Subject: [PATCH 09/36] fix: center wild bootstrap t-statistics at the
 coefficient the bootstrap samples are generated from

---
 diff_diff/utils.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/diff_diff/utils.py b/diff_diff/utils.py
index 010d011..2224af3 100644
--- a/diff_diff/utils.py
+++ b/diff_diff/utils.py
@@ -483,9 +483,12 @@ def wild_bootstrap_se(
         bootstrap_coefs[b] = beta_star[coefficient_index]
         se_star = np.sqrt(vcov_star[coefficient_index, coefficient_index])
 
-        # Compute bootstrap t-statistic (under null hypothesis)
+        # Compute bootstrap t-statistic, centered at the coefficient that
+        # generated y_star (which is what holds in the bootstrap world)
         if se_star > 0:
-            bootstrap_t_stats[b] = (beta_star[coefficient_index] - null_hypothesis) / se_star
+            bootstrap_t_stats[b] = (
+                beta_star[coefficient_index] - beta_restricted[coefficient_index]
+            ) / se_star
         else:
             bootstrap_t_stats[b] = 0.0
 
-- 
2.43.0


From 5c5795be90e925b210fa0c1bce137a823d4a0514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:23 +0000
Subject: [PATCH 10/36] fix: wild bootstrap inference resamples with the
 identified columns, so collinear covariates neither break it nor warn again

---
 diff_diff/estimators.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/diff_diff/estimators.py b/diff_diff/estimators.py
index a73b164..c1b3f9f 100644
--- a/diff_diff/estimators.py
+++ b/diff_diff/estimators.py
@@ -19,6 +19,8 @@ import pandas as pd
 
 from diff_diff.linalg import (
     LinearRegression,
+    _detect_rank_deficiency,
+    _expand_vcov_with_nan,
     compute_r_squared,
     compute_robust_vcov,
     solve_ols,
@@ -435,6 +437,16 @@ class DifferenceInDifferences:
         tuple
             (se, p_value, conf_int, t_stat, vcov, bootstrap_results)
         """
+        # Resample with the identified columns only: columns dropped as collinear
+        # (already reported by the fit) have no coefficient to bootstrap with
+        n_columns = X.shape[1]
+        kept = np.arange(n_columns)
+        _, dropped, _ = _detect_rank_deficiency(X)
+        if coefficient_index not in dropped:
+            kept = np.setdiff1d(kept, dropped)
+            X = X[:, kept]
+            coefficient_index = int(np.searchsorted(kept, coefficient_index))
+
         bootstrap_results = wild_bootstrap_se(
             X, y, residuals, cluster_ids,
             coefficient_index=coefficient_index,
@@ -453,6 +465,8 @@ class DifferenceInDifferences:
 
         # Also compute vcov for storage (using cluster-robust for consistency)
         vcov = compute_robust_vcov(X, residuals, cluster_ids)
+        if len(kept) < n_columns:
+            vcov = _expand_vcov_with_nan(vcov, n_columns, kept)
 
         return se, p_value, conf_int, t_stat, vcov, bootstrap_results
 
-- 
2.43.0


From 9f0c8047cc672b06166516db022deb6595c7884c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:49 +0000
Subject: [PATCH 11/36] fix: TripleDifference doubly robust fit honours
 rank_deficient_action='error' and no longer adds a constant column that makes
 every cell rank deficient

---
 diff_diff/triple_diff.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/diff_diff/triple_diff.py b/diff_diff/triple_diff.py
index 4dbd80a..5cc5cde 100644
--- a/diff_diff/triple_diff.py
+++ b/diff_diff/triple_diff.py
@@ -955,14 +955,16 @@ class TripleDifference:
                 for t_val in [0, 1]:
                     mask = cell_mask & (T == t_val)
                     if np.sum(mask) > 1:
-                        X_cell = np.column_stack([X[mask], T[mask]])
+                        # T is constant within the mask: the intercept covers it
                         try:
                             _, fitted, _ = _linear_regression(
-                                X_cell, y[mask],
+                                X[mask], y[mask],
                                 rank_deficient_action=self.rank_deficient_action,
                             )
                             mu_fitted[mask] = fitted
                         except Exception:
+                            if self.rank_deficient_action == "error":
+                                raise
                             mu_fitted[mask] = np.mean(y[mask])
                     elif np.sum(mask) == 1:
                         mu_fitted[mask] = y[mask]
-- 
2.43.0


From b647cee92e301cc3f9c6b7c7bd30d9e422c3feee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:54 +0000
Subject: [PATCH 12/36] fix: undefined t statistics (zero or undefined standard
 error) are NaN, not 0.0

---
 diff_diff/diagnostics.py   | 4 ++--
 diff_diff/sun_abraham.py   | 8 ++++----
 diff_diff/synthetic_did.py | 4 ++--
 diff_diff/triple_diff.py   | 2 +-
 4 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/diff_diff/diagnostics.py b/diff_diff/diagnostics.py
index d0032ce..952f071 100644
--- a/diff_diff/diagnostics.py
+++ b/diff_diff/diagnostics.py
@@ -662,7 +662,7 @@ def permutation_test(
     ci_upper = np.percentile(valid_effects, (1 - alpha / 2) * 100)
 
     # T-stat from original estimate
-    t_stat = original_att / se if se > 0 else 0.0
+    t_stat = original_att / se if se > 0 else np.nan
 
     return PlaceboTestResults(
         test_type="permutation",
@@ -783,7 +783,7 @@ def leave_one_out_test(
     # Statistics of LOO distribution
     mean_effect = np.mean(valid_effects)
     se = np.std(valid_effects, ddof=1) if len(valid_effects) > 1 else 0.0
-    t_stat = mean_effect / se if se > 0 else 0.0
+    t_stat = mean_effect / se if se > 0 else np.nan
 
     # Use t-distribution for p-value
     df = len(valid_effects) - 1 if len(valid_effects) > 1 else 1
diff --git a/diff_diff/sun_abraham.py b/diff_diff/sun_abraham.py
index 16b4186..6b14cff 100644
--- a/diff_diff/sun_abraham.py
+++ b/diff_diff/sun_abraham.py
@@ -600,7 +600,7 @@ class SunAbraham:
             coef_index_map,
         )
 
-        overall_t = overall_att / overall_se if overall_se > 0 else 0.0
+        overall_t = overall_att / overall_se if overall_se > 0 else np.nan
         overall_p = compute_p_value(overall_t)
         overall_ci = compute_confidence_interval(overall_att, overall_se, self.alpha)
 
@@ -623,7 +623,7 @@ class SunAbraham:
 
             # Update results with bootstrap inference
             overall_se = bootstrap_results.overall_att_se
-            overall_t = overall_att / overall_se if overall_se > 0 else 0.0
+            overall_t = overall_att / overall_se if overall_se > 0 else np.nan
             overall_p = bootstrap_results.overall_att_p_value
             overall_ci = bootstrap_results.overall_att_ci
 
@@ -640,7 +640,7 @@ class SunAbraham:
                     eff_val = event_study_effects[e]["effect"]
                     se_val = event_study_effects[e]["se"]
                     event_study_effects[e]["t_stat"] = (
-                        eff_val / se_val if se_val > 0 else 0.0
+                        eff_val / se_val if se_val > 0 else np.nan
                     )
 
         # Convert cohort effects to storage format
@@ -878,7 +878,7 @@ class SunAbraham:
             agg_var = float(weight_vec @ vcov_subset @ weight_vec)
             agg_se = np.sqrt(max(agg_var, 0))
 
-            t_stat = agg_effect / agg_se if agg_se > 0 else 0.0
+            t_stat = agg_effect / agg_se if agg_se > 0 else np.nan
             p_val = compute_p_value(t_stat)
             ci = compute_confidence_interval(agg_effect, agg_se, self.alpha)
 
diff --git a/diff_diff/synthetic_did.py b/diff_diff/synthetic_did.py
index 3362c3b..75bb060 100644
--- a/diff_diff/synthetic_did.py
+++ b/diff_diff/synthetic_did.py
@@ -336,8 +336,8 @@ class SyntheticDiD(DifferenceInDifferences):
             else:
                 p_value = compute_p_value(t_stat)
         else:
-            t_stat = 0.0
-            p_value = 1.0
+            t_stat = np.nan
+            p_value = np.nan
 
         # Confidence interval
         conf_int = compute_confidence_interval(att, se, self.alpha)
diff --git a/diff_diff/triple_diff.py b/diff_diff/triple_diff.py
index 5cc5cde..839f955 100644
--- a/diff_diff/triple_diff.py
+++ b/diff_diff/triple_diff.py
@@ -598,7 +598,7 @@ class TripleDifference:
             )
 
         # Compute inference
-        t_stat = att / se if se > 0 else 0.0
+        t_stat = att / se if se > 0 else np.nan
         df = n_obs - 8  # Approximate df (8 cell means)
         if covariates:
             df -= len(covariates)
-- 
2.43.0


From 027e0fd8741573f3583b91bf0060a49d47d3947c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:52 +0000
Subject: [PATCH 13/36] fix: TROP confidence intervals use the t reference
 distribution of their p-values

---
 diff_diff/trop.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/diff_diff/trop.py b/diff_diff/trop.py
index d42464f..2ad0bde 100644
--- a/diff_diff/trop.py
+++ b/diff_diff/trop.py
@@ -1511,8 +1511,9 @@ class TROP:
         # Compute test statistics
         if se > 0:
             t_stat = att / se
-            p_value = 2 * (1 - stats.t.cdf(abs(t_stat), df=max(1, n_treated_obs - 1)))
-            conf_int = compute_confidence_interval(att, se, self.alpha)
+            df = max(1, n_treated_obs - 1)
+            p_value = 2 * (1 - stats.t.cdf(abs(t_stat), df=df))
+            conf_int = compute_confidence_interval(att, se, self.alpha, df=df)
         else:
             t_stat = np.nan
             p_value = np.nan
@@ -2188,8 +2189,9 @@ class TROP:
         # Compute test statistics
         if se > 0:
             t_stat = att / se
-            p_value = 2 * (1 - stats.t.cdf(abs(t_stat), df=max(1, n_treated_obs - 1)))
-            conf_int = compute_confidence_interval(att, se, self.alpha)
+            df = max(1, n_treated_obs - 1)
+            p_value = 2 * (1 - stats.t.cdf(abs(t_stat), df=df))
+            conf_int = compute_confidence_interval(att, se, self.alpha, df=df)
         else:
             # When SE is undefined/zero, ALL inference fields should be NaN
             t_stat = np.nan
-- 
2.43.0


From 7a810af372d886dd385fc48a169b5d4a748b8a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:52 +0000
Subject: [PATCH 14/36] fix: MultiPeriodDiD period effects with a zero standard
 error report NaN t statistics

---
 diff_diff/estimators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diff_diff/estimators.py b/diff_diff/estimators.py
index c1b3f9f..61d5d71 100644
--- a/diff_diff/estimators.py
+++ b/diff_diff/estimators.py
@@ -963,7 +963,7 @@ class MultiPeriodDiD(DifferenceInDifferences):
             idx = interaction_indices[period]
             effect = coefficients[idx]
             se = np.sqrt(vcov[idx, idx])
-            t_stat = effect / se
+            t_stat = effect / se if np.isfinite(se) and se > 0 else np.nan
             p_value = compute_p_value(t_stat, df=df)
             conf_int = compute_confidence_interval(effect, se, self.alpha, df=df)
 
-- 
2.43.0


From 3cb2d3fac24a22fe32b74f2ab4bb3e2684c527ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:25 +0000
Subject: [PATCH 15/36] fix: Sun-Abraham bootstrap resamples rows by position,
 whatever the frame's index

---
 diff_diff/sun_abraham.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diff_diff/sun_abraham.py b/diff_diff/sun_abraham.py
index 6b14cff..8af35ec 100644
--- a/diff_diff/sun_abraham.py
+++ b/diff_diff/sun_abraham.py
@@ -1008,7 +1008,7 @@ class SunAbraham:
             # Create bootstrap sample efficiently
             # Build index array for all selected units
             boot_indices = np.concatenate([
-                df.index[df[unit] == u].values for u in boot_units
+                np.flatnonzero((df[unit] == u).values) for u in boot_units
             ])
             df_b = df.iloc[boot_indices].copy()
 
-- 
2.43.0


From 44fb1e0cf30c03ab0516df0e9446cdfb49d20f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:15 +0000
Subject: [PATCH 16/36] fix: failed Sun-Abraham bootstrap iterations are
 excluded, not replaced by the original estimate

---
 diff_diff/sun_abraham.py | 36 ++++++++++++++++++++++++------------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/diff_diff/sun_abraham.py b/diff_diff/sun_abraham.py
index 8af35ec..1e3c6d0 100644
--- a/diff_diff/sun_abraham.py
+++ b/diff_diff/sun_abraham.py
@@ -1070,7 +1070,7 @@ class SunAbraham:
                     if e in event_study_b:
                         bootstrap_effects[e][b] = event_study_b[e]["effect"]
                     else:
-                        bootstrap_effects[e][b] = original_event_study[e]["effect"]
+                        bootstrap_effects[e][b] = np.nan
 
                 # Compute overall ATT for this bootstrap sample
                 overall_b, _ = self._compute_overall_att(
@@ -1085,15 +1085,15 @@ class SunAbraham:
                 bootstrap_overall[b] = overall_b
 
             except (ValueError, np.linalg.LinAlgError) as exc:
-                # If bootstrap iteration fails, use original
+                # Failed iterations are excluded from the bootstrap distribution
                 warnings.warn(
-                    f"Bootstrap iteration {b} failed: {exc}. Using original estimate.",
+                    f"Bootstrap iteration {b} failed: {exc}. Iteration excluded.",
                     UserWarning,
                     stacklevel=2,
                 )
                 for e in rel_periods:
-                    bootstrap_effects[e][b] = original_event_study[e]["effect"]
-                bootstrap_overall[b] = original_overall_att
+                    bootstrap_effects[e][b] = np.nan
+                bootstrap_overall[b] = np.nan
 
         # Compute bootstrap statistics
         event_study_ses = {}
@@ -1101,9 +1101,15 @@ class SunAbraham:
         event_study_p_values = {}
 
         for e in rel_periods:
-            boot_dist = bootstrap_effects[e]
+            boot_dist = bootstrap_effects[e][np.isfinite(bootstrap_effects[e])]
             original_effect = original_event_study[e]["effect"]
 
+            if len(boot_dist) < 2:
+                event_study_ses[e] = np.nan
+                event_study_cis[e] = (np.nan, np.nan)
+                event_study_p_values[e] = np.nan
+                continue
+
             se = float(np.std(boot_dist, ddof=1))
             ci = self._compute_percentile_ci(boot_dist, self.alpha)
             p_value = self._compute_bootstrap_pvalue(original_effect, boot_dist)
@@ -1113,11 +1119,17 @@ class SunAbraham:
             event_study_p_values[e] = p_value
 
         # Overall ATT statistics
-        overall_se = float(np.std(bootstrap_overall, ddof=1))
-        overall_ci = self._compute_percentile_ci(bootstrap_overall, self.alpha)
-        overall_p = self._compute_bootstrap_pvalue(
-            original_overall_att, bootstrap_overall
-        )
+        overall_dist = bootstrap_overall[np.isfinite(bootstrap_overall)]
+        if len(overall_dist) < 2:
+            overall_se = np.nan
+            overall_ci = (np.nan, np.nan)
+            overall_p = np.nan
+        else:
+            overall_se = float(np.std(overall_dist, ddof=1))
+            overall_ci = self._compute_percentile_ci(overall_dist, self.alpha)
+            overall_p = self._compute_bootstrap_pvalue(
+                original_overall_att, overall_dist
+            )
 
         return SABootstrapResults(
             n_bootstrap=self.n_bootstrap,
@@ -1154,7 +1166,7 @@ class SunAbraham:
             p_one_sided = float(np.mean(boot_dist >= 0))
 
         p_value = min(2 * p_one_sided, 1.0)
-        p_value = max(p_value, 1 / (self.n_bootstrap + 1))
+        p_value = max(p_value, 1 / (len(boot_dist) + 1))
 
         return p_value
 
-- 
2.43.0


From 89ff5703fda45c83f1ce73795fef50395d143e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:27 +0000
Subject: [PATCH 17/36] fix: SyntheticDiD bootstrap p-values are not read off
 the uncentred bootstrap distribution

---
 diff_diff/synthetic_did.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/diff_diff/synthetic_did.py b/diff_diff/synthetic_did.py
index 75bb060..a1031b2 100644
--- a/diff_diff/synthetic_did.py
+++ b/diff_diff/synthetic_did.py
@@ -328,8 +328,9 @@ class SyntheticDiD(DifferenceInDifferences):
         # Compute test statistics
         if se > 0:
             t_stat = att / se
-            # Use placebo distribution for p-value if available
-            if len(placebo_effects) > 0:
+            # Use placebo distribution for p-value if available (bootstrap
+            # estimates are centred on the effect, not on the null)
+            if inference_method == "placebo" and len(placebo_effects) > 0:
                 # Two-sided p-value from placebo distribution
                 p_value = np.mean(np.abs(placebo_effects) >= np.abs(att))
                 p_value = max(p_value, 1.0 / (len(placebo_effects) + 1))
-- 
2.43.0


From 18b8f70f42611ffc51180bfeeb54f2994c247daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:07 +0000
Subject: [PATCH 18/36] fix: degenerate wild-bootstrap replicates are excluded
 from the p-value instead of counting as t = 0

---
 diff_diff/utils.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/diff_diff/utils.py b/diff_diff/utils.py
index 2224af3..9b190c6 100644
--- a/diff_diff/utils.py
+++ b/diff_diff/utils.py
@@ -490,14 +490,16 @@ def wild_bootstrap_se(
                 beta_star[coefficient_index] - beta_restricted[coefficient_index]
             ) / se_star
         else:
-            bootstrap_t_stats[b] = 0.0
+            # Degenerate replicate: no t-statistic, excluded from the p-value
+            bootstrap_t_stats[b] = np.nan
 
     # Step 4: Compute bootstrap p-value
     # P-value is proportion of |t*| >= |t_original|
+    bootstrap_t_stats = bootstrap_t_stats[~np.isnan(bootstrap_t_stats)]
     p_value = np.mean(np.abs(bootstrap_t_stats) >= np.abs(t_stat_original))
 
-    # Ensure p-value is at least 1/(n_bootstrap+1) to avoid exact zero
-    p_value = float(max(float(p_value), 1 / (n_bootstrap + 1)))
+    # Ensure p-value is at least 1/(n_valid+1) to avoid exact zero
+    p_value = float(max(float(p_value), 1 / (len(bootstrap_t_stats) + 1)))
 
     # Step 5: Compute bootstrap SE and confidence interval
     # SE from standard deviation of bootstrap coefficient distribution
-- 
2.43.0


From 67363a204706f0f37d30c99a0c7123036e9223da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:54 +0000
Subject: [PATCH 19/36] fix: SunAbraham without post-treatment effects reported
 an overall ATT of 0.0 (and kept such bootstrap replicates) instead of NaN

---
 diff_diff/sun_abraham.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diff_diff/sun_abraham.py b/diff_diff/sun_abraham.py
index 1e3c6d0..12c21d1 100644
--- a/diff_diff/sun_abraham.py
+++ b/diff_diff/sun_abraham.py
@@ -915,7 +915,7 @@ class SunAbraham:
         ]
 
         if not post_effects:
-            return 0.0, 0.0
+            return np.nan, np.nan
 
         # Weight by number of treated observations at each relative time
         post_weights = []
-- 
2.43.0


From 654d745e3afb439b1d99e4c2a58375a04d1334fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:03 +0000
Subject: [PATCH 20/36] fix: the list of rank_deficient_action names in an
 error message no longer varies with the hash seed

---
 diff_diff/linalg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diff_diff/linalg.py b/diff_diff/linalg.py
index f5764d8..73886ae 100644
--- a/diff_diff/linalg.py
+++ b/diff_diff/linalg.py
@@ -459,7 +459,7 @@ def solve_ols(
         )
 
     # Validate rank_deficient_action
-    valid_actions = {"warn", "error", "silent"}
+    valid_actions = ("warn", "error", "silent")
     if rank_deficient_action not in valid_actions:
         raise ValueError(
             f"rank_deficient_action must be one of {valid_actions}, "
-- 
2.43.0


From 1969658092bb837ef7f3f938a29804eb66293cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:11 +0000
Subject: [PATCH 21/36] fix: dataset cache is written atomically and every kind
 of download failure falls back (timeouts, dropped connections)

---
 diff_diff/datasets.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/diff_diff/datasets.py b/diff_diff/datasets.py
index b3a23cc..ffafc83 100644
--- a/diff_diff/datasets.py
+++ b/diff_diff/datasets.py
@@ -8,10 +8,10 @@ All datasets are downloaded from public sources and cached locally
 for subsequent use.
 """
 
+from http.client import HTTPException
 from io import StringIO
 from pathlib import Path
 from typing import Dict
-from urllib.error import HTTPError, URLError
 from urllib.request import urlopen
 
 import numpy as np
@@ -42,9 +42,14 @@ def _download_with_cache(
     try:
         with urlopen(url, timeout=30) as response:
             content = response.read().decode("utf-8")
-            cache_path.write_text(content)
+            # Write beside the cache and move into place, so that an interrupted
+            # write never leaves a truncated file that a later call would return
+            partial_path = cache_path.with_suffix(".tmp")
+            partial_path.write_text(content)
+            partial_path.replace(cache_path)
             return content
-    except (HTTPError, URLError) as e:
+    except (HTTPException, OSError) as e:
+        # OSError covers URLError, HTTPError, timeouts and dropped connections
         if cache_path.exists():
             # Use cached version if download fails
             return cache_path.read_text()
-- 
2.43.0


From eb2d9968009f5cab8a786e72645f14a452735a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:10 +0000
Subject: [PATCH 22/36] fix: PreTrendsPowerResults.power_at uses the custom
 violation weights of the fit

---
 diff_diff/pretrends.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/diff_diff/pretrends.py b/diff_diff/pretrends.py
index 7e58e09..f42e67e 100644
--- a/diff_diff/pretrends.py
+++ b/diff_diff/pretrends.py
@@ -73,6 +73,8 @@ class PreTrendsPowerResults:
         Standard errors of pre-period effects.
     vcov : np.ndarray
         Variance-covariance matrix of pre-period effects.
+    violation_weights : np.ndarray, optional
+        Violation pattern used (unit L2 norm).
     """
 
     power: float
@@ -89,6 +91,7 @@ class PreTrendsPowerResults:
     pre_period_ses: np.ndarray = field(repr=False)
     vcov: np.ndarray = field(repr=False)
     original_results: Optional[Any] = field(default=None, repr=False)
+    violation_weights: Optional[np.ndarray] = field(default=None, repr=False)
 
     def __repr__(self) -> str:
         return (
@@ -235,8 +238,10 @@ class PreTrendsPowerResults:
         elif self.violation_type == "last_period":
             weights = np.zeros(n_pre)
             weights[-1] = 1.0
+        elif self.violation_weights is not None:
+            weights = np.asarray(self.violation_weights, dtype=float)
         else:
-            # For custom, we can't reconstruct - use equal weights as fallback
+            # Custom weights not stored with the results - use equal weights
             weights = np.ones(n_pre)
 
         # Normalize weights to unit L2 norm
@@ -910,6 +915,7 @@ class PreTrendsPower:
             pre_period_ses=ses,
             vcov=vcov,
             original_results=results,
+            violation_weights=weights,
         )
 
     def power_at(
-- 
2.43.0


From 0208c6c46591dd036d2844b61a16fb53634aa9b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:05 +0000
Subject: [PATCH 23/36] fix: PowerAnalysis panel sample size is the inverse of
 its minimum detectable effect

The panel branch of _compute_required_n kept the factor 2 of the balanced
formula next to the general 1/(p(1-p)), so it asked for twice the sample
whose power and MDE the class reports.
---
 diff_diff/power.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/diff_diff/power.py b/diff_diff/power.py
index b8aa10d..8abeaf9 100644
--- a/diff_diff/power.py
+++ b/diff_diff/power.py
@@ -681,10 +681,10 @@ class PowerAnalysis:
             design_effect = 1 + (T - 1) * rho
 
             # Var = sigma^2 * (1/n_t + 1/n_c) * design_effect / T
-            # For balanced: Var = 2 * sigma^2 / N * design_effect / T
+            #     = sigma^2 / (N * p * (1-p)) * design_effect / T
 
             n_total = (
-                2 * sigma**2 * (z_alpha + z_beta)**2 * design_effect
+                sigma**2 * (z_alpha + z_beta)**2 * design_effect
                 / (effect_size**2 * treat_frac * (1 - treat_frac) * T)
             )
 
-- 
2.43.0


From 5c459bbcba13f3b2111bc593265372e4c7fdd2d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:29 +0000
Subject: [PATCH 24/36] fix: permutation p-value of
 check_parallel_trends_robust is never zero

---
 diff_diff/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/diff_diff/utils.py b/diff_diff/utils.py
index 9b190c6..33c6e93 100644
--- a/diff_diff/utils.py
+++ b/diff_diff/utils.py
@@ -743,6 +743,8 @@ def check_parallel_trends_robust(
 
     # P-value: proportion of permuted distances >= observed
     wasserstein_p = np.mean(permuted_distances >= wasserstein_dist)
+    # The observed labelling is itself one permutation, so the p-value is never zero
+    wasserstein_p = max(wasserstein_p, 1 / (n_permutations + 1))
 
     # Kolmogorov-Smirnov test
     ks_stat, ks_p = stats.ks_2samp(treated_changes, control_changes)
-- 
2.43.0


From abc59e784ff287cb8c05d0f4edd3a8d34cfcbb4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:23 +0000
Subject: [PATCH 25/36] fix: set_params refuses values that are not among an
 option's named alternatives

---
 diff_diff/estimators.py    |  7 +++++++
 diff_diff/staggered.py     | 10 ++++++++++
 diff_diff/sun_abraham.py   |  6 ++++++
 diff_diff/synthetic_did.py |  2 ++
 diff_diff/triple_diff.py   |  6 ++++++
 diff_diff/trop.py          |  7 ++++++-
 diff_diff/utils.py         | 21 +++++++++++++++++++++
 7 files changed, 58 insertions(+), 1 deletion(-)

diff --git a/diff_diff/estimators.py b/diff_diff/estimators.py
index 61d5d71..dc4f7b4 100644
--- a/diff_diff/estimators.py
+++ b/diff_diff/estimators.py
@@ -32,6 +32,7 @@ from diff_diff.utils import (
     compute_p_value,
     demean_by_group,
     validate_binary,
+    validate_choices,
     wild_bootstrap_se,
 )
 
@@ -653,6 +654,12 @@ class DifferenceInDifferences:
         -------
         self
         """
+        validate_choices(
+            params,
+            inference=("analytical", "wild_bootstrap"),
+            bootstrap_weights=("rademacher", "webb", "mammen"),
+            rank_deficient_action=("warn", "error", "silent"),
+        )
         valid = self.get_params()
         for key, value in params.items():
             if key in valid:
diff --git a/diff_diff/staggered.py b/diff_diff/staggered.py
index 35ac16d..ec822bd 100644
--- a/diff_diff/staggered.py
+++ b/diff_diff/staggered.py
@@ -16,6 +16,7 @@ from diff_diff.linalg import solve_ols
 from diff_diff.utils import (
     compute_confidence_interval,
     compute_p_value,
+    validate_choices,
 )
 
 # Import from split modules
@@ -1104,6 +1105,15 @@ class CallawaySantAnna(
 
     def set_params(self, **params) -> "CallawaySantAnna":
         """Set estimator parameters (sklearn-compatible)."""
+        validate_choices(
+            params,
+            control_group=("never_treated", "not_yet_treated"),
+            estimation_method=("dr", "ipw", "reg"),
+            bootstrap_weights=("rademacher", "webb", "mammen"),
+            bootstrap_weight_type=("rademacher", "webb", "mammen"),
+            rank_deficient_action=("warn", "error", "silent"),
+            base_period=("varying", "universal"),
+        )
         valid = self.get_params()
         for key, value in params.items():
             if key in valid:
diff --git a/diff_diff/sun_abraham.py b/diff_diff/sun_abraham.py
index 12c21d1..6a3b3ae 100644
--- a/diff_diff/sun_abraham.py
+++ b/diff_diff/sun_abraham.py
@@ -21,6 +21,7 @@ from diff_diff.results import _get_significance_stars
 from diff_diff.utils import (
     compute_confidence_interval,
     compute_p_value,
+    validate_choices,
     within_transform as _within_transform_util,
 )
 
@@ -1184,6 +1185,11 @@ class SunAbraham:
 
     def set_params(self, **params) -> "SunAbraham":
         """Set estimator parameters (sklearn-compatible)."""
+        validate_choices(
+            params,
+            control_group=("never_treated", "not_yet_treated"),
+            rank_deficient_action=("warn", "error", "silent"),
+        )
         valid = self.get_params()
         for key, value in params.items():
             if key in valid:
diff --git a/diff_diff/synthetic_did.py b/diff_diff/synthetic_did.py
index a1031b2..5f6c3fd 100644
--- a/diff_diff/synthetic_did.py
+++ b/diff_diff/synthetic_did.py
@@ -19,6 +19,7 @@ from diff_diff.utils import (
     compute_synthetic_weights,
     compute_time_weights,
     validate_binary,
+    validate_choices,
 )
 
 
@@ -731,6 +732,7 @@ class SyntheticDiD(DifferenceInDifferences):
 
     def set_params(self, **params) -> "SyntheticDiD":
         """Set estimator parameters."""
+        validate_choices(params, variance_method=("bootstrap", "placebo"))
         valid = self.get_params()
         for key, value in params.items():
             if key in valid:
diff --git a/diff_diff/triple_diff.py b/diff_diff/triple_diff.py
index 839f955..bcfb061 100644
--- a/diff_diff/triple_diff.py
+++ b/diff_diff/triple_diff.py
@@ -42,6 +42,7 @@ from diff_diff.results import _get_significance_stars
 from diff_diff.utils import (
     compute_confidence_interval,
     compute_p_value,
+    validate_choices,
 )
 
 # =============================================================================
@@ -1207,6 +1208,11 @@ class TripleDifference:
         -------
         self
         """
+        validate_choices(
+            params,
+            estimation_method=("dr", "reg", "ipw"),
+            rank_deficient_action=("warn", "error", "silent"),
+        )
         valid = self.get_params()
         for key, value in params.items():
             if key in valid:
diff --git a/diff_diff/trop.py b/diff_diff/trop.py
index 2ad0bde..5cca585 100644
--- a/diff_diff/trop.py
+++ b/diff_diff/trop.py
@@ -42,7 +42,7 @@ from diff_diff._backend import (
     _rust_bootstrap_trop_variance_joint,
 )
 from diff_diff.results import _get_significance_stars
-from diff_diff.utils import compute_confidence_interval, compute_p_value
+from diff_diff.utils import compute_confidence_interval, compute_p_value, validate_choices
 
 
 # Sentinel value for "disabled" mode in LOOCV parameter search
@@ -3097,6 +3097,11 @@ class TROP:
 
     def set_params(self, **params) -> "TROP":
         """Set estimator parameters."""
+        validate_choices(
+            params,
+            method=("twostep", "joint"),
+            variance_method=("bootstrap", "jackknife"),
+        )
         valid = self.get_params()
         for key, value in params.items():
             if key in valid:
diff --git a/diff_diff/utils.py b/diff_diff/utils.py
index 33c6e93..50cc652 100644
--- a/diff_diff/utils.py
+++ b/diff_diff/utils.py
@@ -50,6 +50,27 @@ def validate_binary(arr: np.ndarray, name: str) -> None:
         )
 
 
+def validate_choices(params: Dict[str, Any], **choices: Tuple[str, ...]) -> None:
+    """
+    Validate options that choose among named alternatives.
+
+    Parameters
+    ----------
+    params : dict
+        Option values to validate; options without an entry in ``choices`` are ignored.
+    **choices : tuple of str
+        Accepted values of each option.
+
+    Raises
+    ------
+    ValueError
+        If an option has a value that is not among its choices.
+    """
+    for name, allowed in choices.items():
+        if name in params and params[name] not in allowed:
+            raise ValueError(f"{name} must be one of {allowed}, got '{params[name]}'")
+
+
 def compute_robust_se(
     X: np.ndarray,
     residuals: np.ndarray,
-- 
2.43.0


From 8cae920d43e230f50fec4722e8ffd187895f21e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:41 +0000
Subject: [PATCH 26/36] fix: placebo summary names the level its verdict was
 taken at

---
 diff_diff/diagnostics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/diff_diff/diagnostics.py b/diff_diff/diagnostics.py
index 952f071..6f69817 100644
--- a/diff_diff/diagnostics.py
+++ b/diff_diff/diagnostics.py
@@ -143,14 +143,14 @@ class PlaceboTestResults:
 
         if self.is_significant:
             lines.append(
-                "WARNING: Significant placebo effect detected (p < 0.05)."
+                f"WARNING: Significant placebo effect detected (p < {self.alpha})."
             )
             lines.append(
                 "This suggests potential violations of the parallel trends assumption."
             )
         else:
             lines.append(
-                "No significant placebo effect detected (p >= 0.05)."
+                f"No significant placebo effect detected (p >= {self.alpha})."
             )
             lines.append(
                 "This is consistent with the parallel trends assumption."
-- 
2.43.0


From cbe2cbe0572e796268e4e36f1e8390801f5ca033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:41 +0000
Subject: [PATCH 27/36] fix: SensitivityResults repr shows a breakdown value of
 zero

---
 diff_diff/honest_did.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diff_diff/honest_did.py b/diff_diff/honest_did.py
index 7763de1..deef4ef 100644
--- a/diff_diff/honest_did.py
+++ b/diff_diff/honest_did.py
@@ -377,7 +377,7 @@ class SensitivityResults:
     alpha: float = 0.05
 
     def __repr__(self) -> str:
-        breakdown_str = f"{self.breakdown_M:.4f}" if self.breakdown_M else "None"
+        breakdown_str = f"{self.breakdown_M:.4f}" if self.breakdown_M is not None else "None"
         return (
             f"SensitivityResults(n_M={len(self.M_values)}, "
             f"breakdown_M={breakdown_str})"
-- 
2.43.0


From ba2c1440f427ad0844d6131596745c8ef5bb50a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:09 +0000
Subject: [PATCH 28/36] fix: exact Bacon weights follow Theorem 1

The weights left out the control share (1 - n_kl) and one factor of the
window's share of periods, so the weighted 2x2 estimates did not add up
to the TWFE estimate.
---
 diff_diff/bacon.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/diff_diff/bacon.py b/diff_diff/bacon.py
index 77d7cec..e7c82d8 100644
--- a/diff_diff/bacon.py
+++ b/diff_diff/bacon.py
@@ -611,7 +611,6 @@ class BaconDecomposition:
         of the treatment indicator in each 2x2 comparison window.
         """
         n_total_obs = len(df)
-        n_total_units = df[unit].nunique()
 
         for comp in comparisons:
             # Get data for this specific comparison
@@ -683,13 +682,11 @@ class BaconDecomposition:
             D_k = T_post / T_window  # proportion treated for treated group
 
             # Within-comparison variance of treatment
-            # Var(D) = n_k/(n_k+n_l) * D_k * (1-D_k) for the 2x2
-            var_D_22 = n_k_share * D_k * (1 - D_k)
+            # n_kl * (1 - n_kl) * D_k * (1 - D_k) for the 2x2
+            var_D_22 = n_k_share * (1 - n_k_share) * D_k * (1 - D_k)
 
-            # Exact weight: proportional to sample share * variance
-            # Scale by (n_k + n_l) / n_total_units to account for subsample
-            unit_share = (n_k + n_l) / n_total_units
-            comp.weight = sample_share * var_D_22 * unit_share
+            # Exact weight (Theorem 1): squared sample share * variance
+            comp.weight = sample_share ** 2 * var_D_22
 
     def _compute_treated_vs_never(
         self,
-- 
2.43.0


From cfd360c0bcd9f49f4c090aab1834da68eb04db97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:43 +0000
Subject: [PATCH 29/36] fix: HonestDiD reads the post-period covariance block
 and any treatment name

---
 diff_diff/honest_did.py | 13 +++++++++++--
 diff_diff/results.py    | 11 +++++++++++
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/diff_diff/honest_did.py b/diff_diff/honest_did.py
index deef4ef..54781d4 100644
--- a/diff_diff/honest_did.py
+++ b/diff_diff/honest_did.py
@@ -26,6 +26,7 @@ from scipy import optimize, stats
 
 from diff_diff.results import (
     MultiPeriodDiDResults,
+    _period_interaction_name,
 )
 
 # =============================================================================
@@ -565,6 +566,14 @@ def _extract_event_study_params(
         # Get vcov if available
         if results.vcov is not None:
             sigma = results.vcov
+            # vcov covers every regressor: keep the rows and columns of the
+            # post-period interactions, in the order of beta_hat
+            coefficients = results.coefficients or {}
+            names = [_period_interaction_name(coefficients, p) for p in post_periods]
+            if sigma.shape[0] == len(coefficients) and None not in names:
+                columns = list(coefficients)
+                index = [columns.index(name) for name in names]
+                sigma = sigma[np.ix_(index, index)]
         else:
             # Construct diagonal vcov from SEs
             sigma = np.diag(np.array(ses) ** 2)
@@ -1252,8 +1261,8 @@ class HonestDiD:
                 # Look for pre-period coefficients
                 pre_effects = []
                 for period in pre_periods:
-                    key = f"treated:period_{period}"
-                    if key in results.coefficients:
+                    key = _period_interaction_name(results.coefficients, period)
+                    if key is not None:
                         pre_effects.append(abs(results.coefficients[key]))
 
                 if pre_effects:
diff --git a/diff_diff/results.py b/diff_diff/results.py
index 213d09f..4f6b5fa 100644
--- a/diff_diff/results.py
+++ b/diff_diff/results.py
@@ -180,6 +180,17 @@ class DiDResults:
         return _get_significance_stars(self.p_value)
 
 
+def _period_interaction_name(coefficients: Dict[str, float], period: Any) -> Optional[str]:
+    """
+    Name of the treatment x period interaction among event study coefficients.
+
+    MultiPeriodDiD names it "{treatment}:period_{period}", where the treatment
+    column is the caller's. Returns None if no (single) coefficient matches.
+    """
+    names = [name for name in coefficients if str(name).endswith(f":period_{period}")]
+    return names[0] if len(names) == 1 else None
+
+
 def _get_significance_stars(p_value: float) -> str:
     """Return significance stars based on p-value.
 
-- 
2.43.0


From a8545922544f13e1839f8868d072b22fffe4057e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:43 +0000
Subject: [PATCH 30/36] fix: pre-trends power finds interactions of any
 treatment column

---
 diff_diff/pretrends.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/diff_diff/pretrends.py b/diff_diff/pretrends.py
index f42e67e..75839a4 100644
--- a/diff_diff/pretrends.py
+++ b/diff_diff/pretrends.py
@@ -32,7 +32,7 @@ import numpy as np
 import pandas as pd
 from scipy import stats, optimize
 
-from diff_diff.results import MultiPeriodDiDResults
+from diff_diff.results import MultiPeriodDiDResults, _period_interaction_name
 
 
 # =============================================================================
@@ -580,7 +580,7 @@ class PreTrendsPower:
                 # Find which pre-periods have estimated coefficients
                 estimated_pre_periods = [
                     p for p in all_pre_periods
-                    if f"treated:period_{p}" in results.coefficients
+                    if _period_interaction_name(results.coefficients, p) is not None
                 ]
 
                 if len(estimated_pre_periods) == 0:
@@ -593,10 +593,11 @@ class PreTrendsPower:
                 n_pre = len(estimated_pre_periods)
 
                 # Extract effects for estimated periods only
-                effects = np.array([
-                    results.coefficients[f"treated:period_{p}"]
+                pre_names = [
+                    _period_interaction_name(results.coefficients, p)
                     for p in estimated_pre_periods
-                ])
+                ]
+                effects = np.array([results.coefficients[name] for name in pre_names])
 
                 # Extract SEs - try period_effects first, fall back to avg_se
                 ses = []
@@ -612,11 +613,7 @@ class PreTrendsPower:
                 if results.vcov is not None:
                     # Get ordered list of all coefficient keys
                     coef_keys = list(results.coefficients.keys())
-                    pre_indices = [
-                        coef_keys.index(f"treated:period_{p}")
-                        for p in estimated_pre_periods
-                        if f"treated:period_{p}" in coef_keys
-                    ]
+                    pre_indices = [coef_keys.index(name) for name in pre_names]
                     if len(pre_indices) == n_pre and results.vcov.shape[0] > max(pre_indices):
                         vcov = results.vcov[np.ix_(pre_indices, pre_indices)]
                     else:
-- 
2.43.0


From c965fd43da92297aa9a1ed02df4e739d5f1c1312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:20 +0000
Subject: [PATCH 31/36] fix: TripleDifference IPW standard error no longer
 depends on the level of the outcome

---
 diff_diff/triple_diff.py | 35 +++++++++++++----------------------
 1 file changed, 13 insertions(+), 22 deletions(-)

diff --git a/diff_diff/triple_diff.py b/diff_diff/triple_diff.py
index bcfb061..4746703 100644
--- a/diff_diff/triple_diff.py
+++ b/diff_diff/triple_diff.py
@@ -1148,29 +1148,20 @@ class TripleDifference:
         n = len(y)
         post_mask = T == 1
 
-        # Influence function for IPW estimator (vectorized)
+        # Influence function of each weighted cell-period mean, with the sign
+        # that mean has in the triple difference: weight * (y - mean), so that
+        # the standard error does not depend on the level of the outcome
         inf_func = np.zeros(n)
-
-        n_ref = np.sum(cell_1)
-        p_ref = n_ref / n
-
-        # Sign: +1 for post, -1 for pre
-        sign = np.where(post_mask, 1.0, -1.0)
-
-        # Cell 1 (G=1, P=1): sign * (y - att) / p_ref
-        inf_func[cell_1] = sign[cell_1] * (y[cell_1] - att) / p_ref
-
-        # Cell 2 (G=1, P=0): -sign * y * (p_cell_1 / p_cell_2) / p_ref
-        w_2 = p_cell_1[cell_2] / p_cell_2[cell_2]
-        inf_func[cell_2] = -sign[cell_2] * y[cell_2] * w_2 / p_ref
-
-        # Cell 3 (G=0, P=1): -sign * y * (p_cell_1 / p_cell_3) / p_ref
-        w_3 = p_cell_1[cell_3] / p_cell_3[cell_3]
-        inf_func[cell_3] = -sign[cell_3] * y[cell_3] * w_3 / p_ref
-
-        # Cell 4 (G=0, P=0): sign * y * (p_cell_1 / p_cell_4) / p_ref
-        w_4 = p_cell_1[cell_4] / p_cell_4[cell_4]
-        inf_func[cell_4] = sign[cell_4] * y[cell_4] * w_4 / p_ref
+        for cell, weights, cell_sign in [
+            (cell_1, np.ones(n), 1.0),
+            (cell_2, p_cell_1 / p_cell_2, -1.0),
+            (cell_3, p_cell_1 / p_cell_3, -1.0),
+            (cell_4, p_cell_1 / p_cell_4, 1.0),
+        ]:
+            for t_mask, t_sign in [(~post_mask, -1.0), (post_mask, 1.0)]:
+                mask = cell & t_mask
+                w = weights[mask] / np.sum(weights[mask])
+                inf_func[mask] = cell_sign * t_sign * n * w * (y[mask] - np.sum(w * y[mask]))
 
         var_inf = np.var(inf_func, ddof=1)
         se = np.sqrt(var_inf / n)
-- 
2.43.0


From f38a2a954fba14fcc74e0931f8d44e3cc434893c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:20 +0000
Subject: [PATCH 32/36] fix: TripleDifference doubly robust estimate averages
 each model over the treated-eligible of its own period

---
 diff_diff/triple_diff.py | 119 +++++++++++++--------------------------
 1 file changed, 40 insertions(+), 79 deletions(-)

diff --git a/diff_diff/triple_diff.py b/diff_diff/triple_diff.py
index 4746703..7ca2962 100644
--- a/diff_diff/triple_diff.py
+++ b/diff_diff/triple_diff.py
@@ -948,6 +948,9 @@ class TripleDifference:
         if X is not None and X.shape[1] > 0:
             # Fit outcome models for each cell
             mu_fitted = np.zeros(n)
+            # Each model's predictions for the treated-eligible of its period
+            mu_ref = {}
+            X_with_intercept = np.column_stack([np.ones(n), X])
 
             for cell_mask, cell_name in [
                 (cell_1, "cell_1"), (cell_2, "cell_2"),
@@ -955,14 +958,20 @@ class TripleDifference:
             ]:
                 for t_val in [0, 1]:
                     mask = cell_mask & (T == t_val)
+                    ref = cell_1 & (T == t_val)
+                    mu_ref[cell_name, t_val] = np.full(np.sum(ref), np.mean(y[mask]))
                     if np.sum(mask) > 1:
                         # T is constant within the mask: the intercept covers it
                         try:
-                            _, fitted, _ = _linear_regression(
+                            beta, fitted, _ = _linear_regression(
                                 X[mask], y[mask],
                                 rank_deficient_action=self.rank_deficient_action,
                             )
                             mu_fitted[mask] = fitted
+                            # Coefficients of dropped columns are NaN
+                            mu_ref[cell_name, t_val] = (
+                                X_with_intercept[ref] @ np.nan_to_num(beta)
+                            )
                         except Exception:
                             if self.rank_deficient_action == "error":
                                 raise
@@ -998,11 +1007,16 @@ class TripleDifference:
         else:
             # No covariates: use cell means as predictions
             mu_fitted = np.zeros(n)
-            for cell_mask in [cell_1, cell_2, cell_3, cell_4]:
+            mu_ref = {}
+            for cell_mask, cell_name in [
+                (cell_1, "cell_1"), (cell_2, "cell_2"),
+                (cell_3, "cell_3"), (cell_4, "cell_4")
+            ]:
                 for t_val in [0, 1]:
                     mask = cell_mask & (T == t_val)
-                    if np.sum(mask) > 0:
-                        mu_fitted[mask] = np.mean(y[mask])
+                    ref = cell_1 & (T == t_val)
+                    mu_fitted[mask] = np.mean(y[mask])
+                    mu_ref[cell_name, t_val] = np.full(np.sum(ref), np.mean(y[mask]))
 
             # Unconditional probabilities
             p_cell_1 = np.full(n, np.mean(cell_1))
@@ -1018,83 +1032,30 @@ class TripleDifference:
         p_cell_4 = np.clip(p_cell_4, self.pscore_trim, 1 - self.pscore_trim)
 
         # Step 2: Doubly robust estimator
-        # For each cell, compute the augmented IPW term:
-        # (Y - mu(X)) * weight + mu(X)
-
-        pre_mask = T == 0
-        post_mask = T == 1
-
-        # Influence function components for each observation
-        n_1 = np.sum(cell_1)
-        p_ref = n_1 / n
-
-        # Cell 1 (G=1, P=1) - effectively treated
-        inf_11 = np.zeros(n)
-        inf_11[cell_1] = (y[cell_1] - mu_fitted[cell_1]) / p_ref
-        # Add outcome model contribution
-        inf_11 += mu_fitted * cell_1.astype(float) / p_ref
-
-        # Cell 2 (G=1, P=0)
-        w_10 = cell_2.astype(float) * (p_cell_1 / p_cell_2)
-        inf_10 = w_10 * (y - mu_fitted) / p_ref
-        # Add outcome model contribution for cell 2 (vectorized)
-        inf_10[cell_2] += mu_fitted[cell_2] * (p_cell_1[cell_2] / p_cell_2[cell_2]) / p_ref
-
-        # Cell 3 (G=0, P=1)
-        w_01 = cell_3.astype(float) * (p_cell_1 / p_cell_3)
-        inf_01 = w_01 * (y - mu_fitted) / p_ref
-        # Add outcome model contribution for cell 3 (vectorized)
-        inf_01[cell_3] += mu_fitted[cell_3] * (p_cell_1[cell_3] / p_cell_3[cell_3]) / p_ref
-
-        # Cell 4 (G=0, P=0)
-        w_00 = cell_4.astype(float) * (p_cell_1 / p_cell_4)
-        inf_00 = w_00 * (y - mu_fitted) / p_ref
-        # Add outcome model contribution for cell 4 (vectorized)
-        inf_00[cell_4] += mu_fitted[cell_4] * (p_cell_1[cell_4] / p_cell_4[cell_4]) / p_ref
-
-        # Compute cell-time means using DR formula
-        def dr_mean(inf_vals, t_mask):
-            return np.mean(inf_vals[t_mask])
-
-        y_11_pre = dr_mean(inf_11, pre_mask)
-        y_11_post = dr_mean(inf_11, post_mask)
-        y_10_pre = dr_mean(inf_10, pre_mask)
-        y_10_post = dr_mean(inf_10, post_mask)
-        y_01_pre = dr_mean(inf_01, pre_mask)
-        y_01_post = dr_mean(inf_01, post_mask)
-        y_00_pre = dr_mean(inf_00, pre_mask)
-        y_00_post = dr_mean(inf_00, post_mask)
+        # Mean outcome each cell predicts for the treated-eligible of a period:
+        # mean of mu(X) over them + weighted mean of the cell's own Y - mu(X)
+        att = 0.0
+        inf_func = np.zeros(n)
+        for cell_mask, cell_name, weights, cell_sign in [
+            (cell_1, "cell_1", np.ones(n), 1.0),
+            (cell_2, "cell_2", p_cell_1 / p_cell_2, -1.0),
+            (cell_3, "cell_3", p_cell_1 / p_cell_3, -1.0),
+            (cell_4, "cell_4", p_cell_1 / p_cell_4, 1.0),
+        ]:
+            for t_val, t_sign in [(0, -1.0), (1, 1.0)]:
+                mask = cell_mask & (T == t_val)
+                ref = cell_1 & (T == t_val)
+                mu = mu_ref[cell_name, t_val]
+                w = weights[mask] / np.sum(weights[mask])
+                residual = y[mask] - mu_fitted[mask]
+                sign = cell_sign * t_sign
 
-        # DDD estimate
-        att = (
-            (y_11_post - y_11_pre)
-            - (y_10_post - y_10_pre)
-            - (y_01_post - y_01_pre)
-            + (y_00_post - y_00_pre)
-        )
+                att += sign * (np.mean(mu) + np.sum(w * residual))
+                inf_func[ref] += sign * n * (mu - np.mean(mu)) / np.sum(ref)
+                inf_func[mask] += sign * n * w * (residual - np.sum(w * residual))
 
-        # Standard error computation
-        # Use the simpler variance formula for the DDD estimator
-        # Var(DDD) ≈ sum of variances of cell means / cell_sizes
-
-        # Compute variances within each cell-time combination
-        def cell_var(cell_mask, t_mask, y_vals):
-            mask = cell_mask & t_mask
-            if np.sum(mask) > 1:
-                return np.var(y_vals[mask], ddof=1), np.sum(mask)
-            return 0.0, max(1, np.sum(mask))
-
-        # Variance components for each of the 8 cells
-        var_components = []
-        for cell_mask in [cell_1, cell_2, cell_3, cell_4]:
-            for t_mask in [pre_mask, post_mask]:
-                v, n_cell = cell_var(cell_mask, t_mask, y)
-                if n_cell > 0:
-                    var_components.append(v / n_cell)
-
-        # Total variance is sum of components (assuming independence)
-        total_var = sum(var_components)
-        se = np.sqrt(total_var)
+        # Standard error from the influence function
+        se = np.sqrt(np.var(inf_func, ddof=1) / n)
 
         # R-squared from outcome regression
         if X is not None:
-- 
2.43.0


From 9723ccd0648be5d587c39e67284a6b28572dde39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:20 +0000
Subject: [PATCH 33/36] fix: CallawaySantAnna IPW standard errors are those of
 the weighted comparison

---
 diff_diff/staggered.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/diff_diff/staggered.py b/diff_diff/staggered.py
index ec822bd..9d83472 100644
--- a/diff_diff/staggered.py
+++ b/diff_diff/staggered.py
@@ -922,7 +922,6 @@ class CallawaySantAnna(
         """
         n_t = len(treated_change)
         n_c = len(control_change)
-        n_total = n_treated + n_control
 
         if X_treated is not None and X_control is not None and X_treated.shape[1] > 0:
             # Covariate-adjusted IPW estimation
@@ -964,7 +963,7 @@ class CallawaySantAnna(
             var_t = np.var(treated_change, ddof=1) if n_t > 1 else 0.0
 
             # Variance of weighted control mean
-            weighted_var_c = np.sum(weights_control * (control_change - np.sum(weights_control * control_change)) ** 2)
+            weighted_var_c = np.sum(weights_control ** 2 * (control_change - np.sum(weights_control * control_change)) ** 2)
 
             se = np.sqrt(var_t / n_t + weighted_var_c) if (n_t > 0 and n_c > 0) else 0.0
 
@@ -974,15 +973,14 @@ class CallawaySantAnna(
             inf_func = np.concatenate([inf_treated, inf_control])
         else:
             # Unconditional IPW (reduces to difference in means)
-            p_treat = n_treated / n_total  # unconditional propensity score
-
             att = np.mean(treated_change) - np.mean(control_change)
 
             var_t = np.var(treated_change, ddof=1) if n_t > 1 else 0.0
             var_c = np.var(control_change, ddof=1) if n_c > 1 else 0.0
 
-            # Adjusted variance for IPW
-            se = np.sqrt(var_t / n_t + var_c * (1 - p_treat) / (n_c * p_treat)) if (n_t > 0 and n_c > 0 and p_treat > 0) else 0.0
+            # The odds weights are equal across controls, so this is the variance
+            # of a difference in means
+            se = np.sqrt(var_t / n_t + var_c / n_c) if (n_t > 0 and n_c > 0) else 0.0
 
             # Influence function (for aggregation)
             inf_treated = (treated_change - np.mean(treated_change)) / n_t
-- 
2.43.0


From b14455eff88c9061b3e6fa54d0cf7d133869fa3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:52 +0000
Subject: [PATCH 34/36] fix: CallawaySantAnna predictions ignore dropped
 collinear covariates instead of becoming NaN

---
 diff_diff/staggered.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/diff_diff/staggered.py b/diff_diff/staggered.py
index 9d83472..720544c 100644
--- a/diff_diff/staggered.py
+++ b/diff_diff/staggered.py
@@ -863,8 +863,9 @@ class CallawaySantAnna(
             )
 
             # Predict counterfactual for treated units
+            # (coefficients of dropped columns are NaN and contribute nothing)
             X_treated_with_intercept = np.column_stack([np.ones(n_t), X_treated])
-            predicted_control = X_treated_with_intercept @ beta
+            predicted_control = X_treated_with_intercept @ np.nan_to_num(beta)
 
             # ATT = mean(observed treated change - predicted counterfactual)
             att = np.mean(treated_change - predicted_control)
@@ -1026,6 +1027,8 @@ class CallawaySantAnna(
             # Predict counterfactual for both treated and control
             X_treated_with_intercept = np.column_stack([np.ones(n_t), X_treated])
             X_control_with_intercept = np.column_stack([np.ones(n_c), X_control])
+            # (coefficients of dropped columns are NaN and contribute nothing)
+            beta = np.nan_to_num(beta)
             m_treated = X_treated_with_intercept @ beta
             m_control = X_control_with_intercept @ beta
 
-- 
2.43.0


From a0307185b5c31e3db7d47458038709ef281c24ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:10 +0000
Subject: [PATCH 35/36] fix: fake-group placebo test compares never-treated
 units only

run_placebo_test(test_type="fake_group", treatment=...) kept the truly
treated units in the comparison group, so the placebo estimate was
contaminated by the real effect the test is meant to be free of.
---
 diff_diff/diagnostics.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/diff_diff/diagnostics.py b/diff_diff/diagnostics.py
index 6f69817..c06d221 100644
--- a/diff_diff/diagnostics.py
+++ b/diff_diff/diagnostics.py
@@ -317,6 +317,7 @@ def run_placebo_test(
             fake_treated_units=fake_treatment_group,
             post_periods=post_periods,
             alpha=alpha,
+            treatment=treatment,
             **estimator_kwargs
         )
 
@@ -459,6 +460,7 @@ def placebo_group_test(
     fake_treated_units: List[Any],
     post_periods: Optional[List[Any]] = None,
     alpha: float = 0.05,
+    treatment: Optional[str] = None,
     **estimator_kwargs
 ) -> PlaceboTestResults:
     """
@@ -484,6 +486,9 @@ def placebo_group_test(
         List of post-treatment period values.
     alpha : float, default=0.05
         Significance level.
+    treatment : str, optional
+        Treatment indicator column. If given, units that are ever treated are
+        excluded. If None, the data must contain never-treated units only.
     **estimator_kwargs
         Arguments passed to DifferenceInDifferences.
 
@@ -502,6 +507,11 @@ def placebo_group_test(
         mid = len(all_periods) // 2
         post_periods = all_periods[mid:]
 
+    # Compare never-treated units only
+    if treatment is not None:
+        ever_treated = data.loc[data[treatment] == 1, unit].unique()
+        data = data[~data[unit].isin(ever_treated)]
+
     # Create fake treatment indicator
     fake_data = data.copy()
     fake_data["_fake_treated"] = fake_data[unit].isin(fake_treated_units).astype(int)
-- 
2.43.0


From 64f2476f4a0cdadef24219ef3e3a09c0d66b1e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:55 +0000
Subject: [PATCH 36/36] fix: TROP bootstrap replicates use weights of their own
 panel

Replicates (Python path) took unit distances from the structures stored
for the original panel, by position, so a resampled panel was weighted
with other units' distances. The stored structures are now used only for
the panel they describe.
---
 diff_diff/trop.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/diff_diff/trop.py b/diff_diff/trop.py
index 5cca585..798f314 100644
--- a/diff_diff/trop.py
+++ b/diff_diff/trop.py
@@ -2289,8 +2289,11 @@ class TROP:
         np.ndarray
             Weight matrix (n_periods x n_units) for observation (i, t).
         """
-        # Use pre-computed structures when available
-        if self._precomputed is not None:
+        # Use pre-computed structures when available. They describe the panel
+        # passed to fit(): a resampled panel needs weights of its own.
+        if (self._precomputed is not None
+                and Y is self._precomputed["Y"]
+                and D is self._precomputed["D"]):
             # Time weights from pre-computed time distance matrix
             # time_dist_matrix[t, s] = |t - s|
             time_weights = np.exp(-lambda_time * self._precomputed["time_dist_matrix"][t, :])
-- 
2.43.0

