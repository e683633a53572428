From b8ace22f7863483b72ddad5beaa2c1729ac33373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:49 +0000
Subject: [PATCH 1/3] fix: heat uptake of the impulse response model for
 parameters in non-default units

The magnitudes of lambda0 and of the efficacy term were used in whatever
units the input parameters implied, so the reported heat uptake was wrong
(or an AssertionError was raised if efficacy != 1) unless the units happened
to come out as W/m^2.
---
 src/openscm_twolayermodel/impulse_response_model.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/openscm_twolayermodel/impulse_response_model.py b/src/openscm_twolayermodel/impulse_response_model.py
index dc1d3f8..d9bc278 100644
--- a/src/openscm_twolayermodel/impulse_response_model.py
+++ b/src/openscm_twolayermodel/impulse_response_model.py
@@ -236,10 +236,10 @@ class ImpulseResponseModel(
                 * ((1 - gh["phi1"]) * t1_h + (1 - gh["phi2"]) * t2_h)
             )
 
-            if str(efficacy_term.units) != "watt / meter ** 2":
-                raise AssertionError("units should have come out as W/m^2")
+        lambda0_mag = (lambda0 * ur(self._temp1_unit)).to(self._rndt_unit).magnitude
+        efficacy_term_mag = efficacy_term.to(self._rndt_unit).magnitude
 
-        out = erf - lambda0.magnitude * (t1 + t2) - efficacy_term.magnitude
+        out = erf - lambda0_mag * (t1 + t2) - efficacy_term_mag
 
         return out
 
-- 
2.43.0


From 8b90a341b53d946abf227a53191836e3d9040dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:04 +0000
Subject: [PATCH 2/3] fix: use a monthly timestep for two monthly points either
 side of a year boundary

Time points 28 to 31 days apart were taken as a yearly timestep if there were
only two of them, in December and January.
---
 src/openscm_twolayermodel/base.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/openscm_twolayermodel/base.py b/src/openscm_twolayermodel/base.py
index ea817ed..de6659c 100644
--- a/src/openscm_twolayermodel/base.py
+++ b/src/openscm_twolayermodel/base.py
@@ -152,13 +152,8 @@ class TwoLayerVariant(Model):
 
     @staticmethod
     def _select_timestep(driver):
-        year_diff = driver["year"].diff().dropna()
-        if (year_diff == 1).all():
-            # assume yearly timesteps
-            return 1 * ur("yr")
-
         time_diff = driver["time"].diff().dropna()
-        if all(
+        if not time_diff.empty and all(
             np.logical_and(
                 time_diff <= np.timedelta64(31, "D"),
                 time_diff >= np.timedelta64(28, "D"),
@@ -168,6 +163,11 @@ class TwoLayerVariant(Model):
             # while we have constant internal timesteps it's the best we can do.
             return 1 * ur("month")
 
+        year_diff = driver["year"].diff().dropna()
+        if (year_diff == 1).all():
+            # assume yearly timesteps
+            return 1 * ur("yr")
+
         raise NotImplementedError(
             "Could not decide on timestep for time axis: {}".format(driver["time"])
         )
-- 
2.43.0


From a95bf71ef1e7caa2bbc7ea17e656280e3c00b6e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:00 +0000
Subject: [PATCH 3/3] fix: do not re-index the caller's data frame in
 run_scenarios

ScmRun(df) resets the index of the data frame it is given in place, so
run_scenarios changed data frames passed as scenarios.
---
 src/openscm_twolayermodel/base.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/openscm_twolayermodel/base.py b/src/openscm_twolayermodel/base.py
index de6659c..e029f2d 100644
--- a/src/openscm_twolayermodel/base.py
+++ b/src/openscm_twolayermodel/base.py
@@ -134,7 +134,10 @@ class TwoLayerVariant(Model):
 
     @staticmethod
     def _ensure_scenarios_are_scmrun(scenarios):
-        if not isinstance(scenarios, ScmRun):
+        if isinstance(scenarios, pd.DataFrame):
+            # ScmRun re-indexes the data frames it is given in place
+            driver = ScmRun(scenarios.copy())
+        elif not isinstance(scenarios, ScmRun):
             driver = ScmRun(scenarios)
         else:
             driver = scenarios.copy()
-- 
2.43.0

