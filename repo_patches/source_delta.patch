From d6d25c5b2eadc274155febf4164fe3ce854e9367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:42 +0000
Subject: [PATCH 01/20] fix: raise an error instead of waiting forever when a
 worker process dies

---
 src/pymars/sampling.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/pymars/sampling.py b/src/pymars/sampling.py
index 2b22cf8..c6a168a 100644
--- a/src/pymars/sampling.py
+++ b/src/pymars/sampling.py
@@ -3,6 +3,7 @@
 import os
 import multiprocessing
 import logging
+from concurrent.futures import ProcessPoolExecutor
 from typing import NamedTuple, Dict
 
 import numpy as np
@@ -228,10 +229,10 @@ def _run_workers(simulations, worker, num_threads):
     if num_threads == 1:
         results = [worker(job) for job in jobs]
     else:
-        pool = multiprocessing.Pool(processes=num_threads)
-        results = pool.map(worker, jobs)
-        pool.close()
-        pool.join()
+        # unlike multiprocessing.Pool, the executor raises an error (rather than
+        # waiting forever) if a worker process dies
+        with ProcessPoolExecutor(max_workers=num_threads) as executor:
+            results = list(executor.map(worker, jobs))
     return {key: val for k in results for key, val in k.items()}
 
 
-- 
2.43.0


From e2fd8393d558fd9edbf55b5121a7b49f063a633b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:42 +0000
Subject: [PATCH 02/20] fix: evaluate the starting model instead of reusing
 zeros when no metrics are saved

---
 src/pymars/sampling.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/pymars/sampling.py b/src/pymars/sampling.py
index c6a168a..8e43d64 100644
--- a/src/pymars/sampling.py
+++ b/src/pymars/sampling.py
@@ -415,7 +415,11 @@ def sample_metrics(
                 np.genfromtxt(data_files["output_ignition"], delimiter=",")
             )
 
-        if reuse_saved and len(ignition_delays) == len(ignition_conditions):
+        if (
+            reuse_saved
+            and exists_output
+            and len(ignition_delays) == len(ignition_conditions)
+        ):
             logging.info(
                 "Reusing existing autoignition samples for the starting model."
             )
@@ -448,7 +452,7 @@ def sample_metrics(
                 np.genfromtxt(data_files["output_psr"], delimiter=",")
             )
 
-        if reuse_saved and len(psr_metrics) == n_psr_metrics:
+        if reuse_saved and exists_output and len(psr_metrics) == n_psr_metrics:
             logging.info("Reusing existing PSR samples for the starting model.")
         else:
             simulations = []
@@ -474,7 +478,11 @@ def sample_metrics(
                 np.genfromtxt(data_files["output_flame"], delimiter=",")
             )
 
-        if reuse_saved and len(flame_speeds) == len(flame_conditions):
+        if (
+            reuse_saved
+            and exists_output
+            and len(flame_speeds) == len(flame_conditions)
+        ):
             logging.info(
                 "Reusing existing laminar flame samples for the starting model."
             )
-- 
2.43.0


From 5d1440f4054bbd334719262f67d0628f67207542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:38 +0000
Subject: [PATCH 03/20] fix: stop sensitivity analysis when the starting model
 cannot be evaluated

---
 src/pymars/sensitivity_analysis.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/pymars/sensitivity_analysis.py b/src/pymars/sensitivity_analysis.py
index 3eb2bf9..adc21ab 100644
--- a/src/pymars/sensitivity_analysis.py
+++ b/src/pymars/sensitivity_analysis.py
@@ -174,6 +174,13 @@ def run_sa(
         num_threads=num_threads,
         path=path,
     )
+    # a zero metric means that a case could not be simulated; without a valid metric
+    # for every case of the starting model there is nothing to measure errors against
+    if np.any(initial_metrics == 0.0):
+        raise RuntimeError(
+            "Starting model could not be evaluated for all conditions; "
+            "cannot run sensitivity analysis."
+        )
 
     if not species_limbo:
         species_limbo = [
-- 
2.43.0


From 3df1f5476d45c319a4d07b7f48a2277f374c11a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:59 +0000
Subject: [PATCH 04/20] fix: treat a PSR candidate without reactions as having
 no extinction curve

---
 src/pymars/psr_solver.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pymars/psr_solver.py b/src/pymars/psr_solver.py
index 49f2bf8..3801756 100644
--- a/src/pymars/psr_solver.py
+++ b/src/pymars/psr_solver.py
@@ -190,6 +190,9 @@ def trace_extinction_curve(
         the extinction turning point.
 
     """
+    if gas.n_reactions == 0:
+        raise RuntimeError("PSR: model has no reactions, so no burning branch")
+
     pressure = gas.P
     Y_in = gas.Y.copy()
     h_in = gas.enthalpy_mass
-- 
2.43.0


From 83d61b25237c82b9001be0ea8d706fd0bb577670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:42 +0000
Subject: [PATCH 05/20] fix: end the ignition evaluation of non-reacting
 candidates

---
 src/pymars/simulation.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/pymars/simulation.py b/src/pymars/simulation.py
index 2ec2451..f027e49 100644
--- a/src/pymars/simulation.py
+++ b/src/pymars/simulation.py
@@ -183,6 +183,10 @@ class IgnitionSimulation(BaseSimulation):
 
     """
 
+    #: Simulated time, in seconds, after which a case cannot ignite any more (far beyond any
+    #: physical time, but before the integrator overflows).
+    max_time = 1e100
+
     def setup_case(self):
         """Initialize simulation case."""
         self._setup_gas()
@@ -403,6 +407,13 @@ class IgnitionSimulation(BaseSimulation):
                     if self.reac.T >= self.properties.temperature + 400.0:
                         self.ignition_delay = self.sim.time
                         break
+                    # with a non-reacting state the time step grows without bound, and
+                    # the integrator never returns once the time overflows
+                    if self.sim.time > self.max_time:
+                        logging.warning(
+                            f"No ignition detected for ignition case {self.idx}"
+                        )
+                        break
                 if step == self.max_steps - 1:
                     logging.warning(
                         "Maximum number of steps reached before "
-- 
2.43.0


From 76c6bbeedae7e21b64f1e8c0542a166b61ed629b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:03 +0000
Subject: [PATCH 06/20] fix: never remove DRGEP target species, however high
 the threshold

---
 src/pymars/drgep.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pymars/drgep.py b/src/pymars/drgep.py
index 6fe0849..2191031 100644
--- a/src/pymars/drgep.py
+++ b/src/pymars/drgep.py
@@ -449,6 +449,9 @@ def run_drgep(
         solution.species_names, species_targets, matrices
     )
 
+    # targets have an importance of one, which the threshold may come to exceed
+    species_safe = list(species_targets) + list(species_safe)
+
     # begin reduction iterations
     logging.info("Beginning DRGEP reduction loop")
     logging.info(45 * "-")
-- 
2.43.0


From d261d456262173a924f4c600711a50d9caf380b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:43 +0000
Subject: [PATCH 07/20] fix: end the threshold search when no species are left
 to remove

---
 src/pymars/drg.py   | 11 +++++++++--
 src/pymars/drgep.py | 11 +++++++++--
 src/pymars/pfa.py   | 11 +++++++++--
 3 files changed, 27 insertions(+), 6 deletions(-)

diff --git a/src/pymars/drg.py b/src/pymars/drg.py
index e40cf5d..1d8b7ea 100644
--- a/src/pymars/drg.py
+++ b/src/pymars/drg.py
@@ -371,6 +371,10 @@ def run_drg(
             limbo_species=reduced_model.limbo_species,
         )
 
+        # stop once nothing is left to remove; no higher threshold can change the model
+        if set(reduced_model.model.species_names) <= {*species_targets, *species_safe}:
+            break
+
     if error_current > error_limit:
         threshold -= 2 * threshold_increment
         reduced_model = reduce_drg(
@@ -390,9 +394,12 @@ def run_drg(
             path=path,
         )
     else:
-        soln2yaml.write(
-            reduced_model, f"reduced_{reduced_model.model.n_species}.yaml", path=path
+        filename = soln2yaml.write(
+            reduced_model.model,
+            f"reduced_{reduced_model.model.n_species}.yaml",
+            path=path,
         )
+        reduced_model = reduced_model._replace(filename=filename)
 
     logging.info(45 * "-")
     logging.info("DRG reduction complete.")
diff --git a/src/pymars/drgep.py b/src/pymars/drgep.py
index 2191031..7a44833 100644
--- a/src/pymars/drgep.py
+++ b/src/pymars/drgep.py
@@ -511,6 +511,10 @@ def run_drgep(
             limbo_species=reduced_model.limbo_species,
         )
 
+        # stop once nothing is left to remove; no higher threshold can change the model
+        if set(reduced_model.model.species_names) <= set(species_safe):
+            break
+
     if reduced_model.error > error_limit:
         threshold -= 2 * threshold_increment
         reduced_model = reduce_drgep(
@@ -528,9 +532,12 @@ def run_drgep(
             path=path,
         )
     else:
-        soln2yaml.write(
-            reduced_model, f"reduced_{reduced_model.model.n_species}.yaml", path=path
+        filename = soln2yaml.write(
+            reduced_model.model,
+            f"reduced_{reduced_model.model.n_species}.yaml",
+            path=path,
         )
+        reduced_model = reduced_model._replace(filename=filename)
 
     if threshold_upper:
         for sp in reduced_model.model.species_names:
diff --git a/src/pymars/pfa.py b/src/pymars/pfa.py
index b1862ce..64e36d2 100644
--- a/src/pymars/pfa.py
+++ b/src/pymars/pfa.py
@@ -397,6 +397,10 @@ def run_pfa(
             limbo_species=reduced_model.limbo_species,
         )
 
+        # stop once nothing is left to remove; no higher threshold can change the model
+        if set(reduced_model.model.species_names) <= {*species_targets, *species_safe}:
+            break
+
     if reduced_model.error > error_limit:
         threshold -= 2 * threshold_increment
         reduced_model = reduce_pfa(
@@ -416,9 +420,12 @@ def run_pfa(
             path=path,
         )
     else:
-        soln2yaml.write(
-            reduced_model, f"reduced_{reduced_model.model.n_species}.yaml", path=path
+        filename = soln2yaml.write(
+            reduced_model.model,
+            f"reduced_{reduced_model.model.n_species}.yaml",
+            path=path,
         )
+        reduced_model = reduced_model._replace(filename=filename)
 
     logging.info(45 * "-")
     logging.info("PFA reduction complete.")
-- 
2.43.0


From 47cbb1a586d3a14fa84e1a1016d42573f7ea8c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:15 +0000
Subject: [PATCH 08/20] fix: finish greedy sensitivity analysis when every
 candidate has been removed

---
 src/pymars/sensitivity_analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymars/sensitivity_analysis.py b/src/pymars/sensitivity_analysis.py
index adc21ab..4c70ba9 100644
--- a/src/pymars/sensitivity_analysis.py
+++ b/src/pymars/sensitivity_analysis.py
@@ -262,7 +262,7 @@ def run_sa(
                     phase_name=phase_name,
                     num_threads=num_threads,
                 )
-                if min(species_errors) > error_limit:
+                if species_limbo and min(species_errors) > error_limit:
                     break
 
     # Final model; may need to rewrite
-- 
2.43.0


From f778617cdfc1c1c899d250e588742d462132ce7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:15 +0000
Subject: [PATCH 09/20] fix: keep limbo species of DRGEP runs apart from the
 shared default list

---
 src/pymars/drgep.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/pymars/drgep.py b/src/pymars/drgep.py
index 7a44833..d96931c 100644
--- a/src/pymars/drgep.py
+++ b/src/pymars/drgep.py
@@ -540,9 +540,14 @@ def run_drgep(
         reduced_model = reduced_model._replace(filename=filename)
 
     if threshold_upper:
-        for sp in reduced_model.model.species_names:
-            if importance_coeffs[sp] < threshold_upper and (sp not in species_safe):
-                reduced_model.limbo_species.append(sp)
+        # a new list, as the default one is shared by all ReducedModel objects
+        reduced_model = reduced_model._replace(
+            limbo_species=[
+                sp
+                for sp in reduced_model.model.species_names
+                if importance_coeffs[sp] < threshold_upper and (sp not in species_safe)
+            ]
+        )
 
     logging.info(45 * "-")
     logging.info("DRGEP reduction complete.")
-- 
2.43.0


From ca3093ede636d6ffa1cabede2fa8ab8861090d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:49 +0000
Subject: [PATCH 10/20] fix: never remove targets or retained species in
 sensitivity analysis

---
 src/pymars/sensitivity_analysis.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/pymars/sensitivity_analysis.py b/src/pymars/sensitivity_analysis.py
index 4c70ba9..eb34f22 100644
--- a/src/pymars/sensitivity_analysis.py
+++ b/src/pymars/sensitivity_analysis.py
@@ -182,10 +182,13 @@ def run_sa(
             "cannot run sensitivity analysis."
         )
 
-    if not species_limbo:
-        species_limbo = [
-            sp for sp in current_model.model.species_names if sp not in species_safe
-        ]
+    # never consider species that need to be retained; this also makes a copy, so
+    # that removing species from the list does not affect the caller's
+    species_limbo = [
+        sp
+        for sp in (species_limbo or current_model.model.species_names)
+        if sp not in species_safe
+    ]
 
     logging.info(53 * "-")
     logging.info("Number of species |  Species removed  | Max error (%)")
-- 
2.43.0


From 7e4703b76977327f04e552571b607857007f88c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:49 +0000
Subject: [PATCH 11/20] fix: list DRG limbo species in model order, independent
 of the hash seed

---
 src/pymars/drg.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pymars/drg.py b/src/pymars/drg.py
index 1d8b7ea..5e792ad 100644
--- a/src/pymars/drg.py
+++ b/src/pymars/drg.py
@@ -228,7 +228,8 @@ def reduce_drg(
             species_retained += trim_drg(
                 matrix, solution.species_names, species_targets, threshold_upper
             )
-        limbo_species = list(set(species_retained))
+        # in model order, since the order of a set differs from run to run
+        limbo_species = [sp for sp in solution.species_names if sp in species_retained]
 
     return ReducedModel(
         model=reduced_model,
-- 
2.43.0


From 0f5bc2f4600cf2b29769b61fed86e6edda106c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:49 +0000
Subject: [PATCH 12/20] fix: report the full name of the model file written by
 sensitivity analysis

---
 src/pymars/sensitivity_analysis.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/pymars/sensitivity_analysis.py b/src/pymars/sensitivity_analysis.py
index eb34f22..b8a8857 100644
--- a/src/pymars/sensitivity_analysis.py
+++ b/src/pymars/sensitivity_analysis.py
@@ -269,12 +269,14 @@ def run_sa(
                     break
 
     # Final model; may need to rewrite
+    filename = soln2yaml.write(
+        current_model.model,
+        f"reduced_{current_model.model.n_species}.yaml",
+        path=path,
+    )
     reduced_model = ReducedModel(
-        model=current_model.model,
-        filename=f"reduced_{current_model.model.n_species}.yaml",
-        error=current_model.error,
+        model=current_model.model, filename=filename, error=current_model.error
     )
-    soln2yaml.write(reduced_model.model, reduced_model.filename, path=path)
 
     logging.info(53 * "-")
     logging.info("Sensitivity analysis stage complete.")
-- 
2.43.0


From 38d825f4c0f632d44c2aa968bb47cd7607f8077b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:44 +0000
Subject: [PATCH 13/20] fix: write model files atomically and report failed
 writes

---
 src/pymars/soln2yaml.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/pymars/soln2yaml.py b/src/pymars/soln2yaml.py
index 926e6f7..f5eccc3 100644
--- a/src/pymars/soln2yaml.py
+++ b/src/pymars/soln2yaml.py
@@ -35,8 +35,16 @@ def write(solution, output_filename="", path=""):
     else:
         output_filename = os.path.join(path, f"{solution.name}.yaml")
 
-    if os.path.isfile(output_filename):
-        os.remove(output_filename)
+    # Write to a temporary file first, so that a failed or interrupted write neither
+    # goes unnoticed nor destroys an existing file.
+    temp_filename = output_filename + ".tmp"
+    try:
+        with open(temp_filename, "w", encoding="utf-8") as the_file:
+            the_file.write(solution.write_yaml())
+        os.replace(temp_filename, output_filename)
+    except BaseException:
+        if os.path.isfile(temp_filename):
+            os.remove(temp_filename)
+        raise
 
-    solution.write_yaml(output_filename)
     return output_filename
-- 
2.43.0


From b8c88669da5b168926f6bdbb4aaeb248472889fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:38 +0000
Subject: [PATCH 14/20] fix: never leave partial or mismatched saved samples
 behind

---
 src/pymars/sampling.py | 56 +++++++++++++++++++++++++++++++++++++-----
 1 file changed, 50 insertions(+), 6 deletions(-)

diff --git a/src/pymars/sampling.py b/src/pymars/sampling.py
index 8e43d64..ecd030e 100644
--- a/src/pymars/sampling.py
+++ b/src/pymars/sampling.py
@@ -282,6 +282,38 @@ def _run_metric_jobs(simulations, worker, num_threads):
     return np.concatenate(metrics) if metrics else np.array([])
 
 
+def _save_samples(data_file, data, output_file, metrics):
+    """Saves sampled data and metrics of the starting model for later reuse.
+
+    The files never hold partial contents, and the metrics are only present together
+    with the data they belong to, even if saving fails or is interrupted.
+
+    Parameters
+    ----------
+    data_file : str
+        Name of file for sampled data
+    data : numpy.ndarray
+        Sampled-state rows
+    output_file : str
+        Name of file for metrics
+    metrics : numpy.ndarray
+        Per-case global metrics
+
+    """
+    if os.path.isfile(output_file):
+        os.remove(output_file)
+
+    for filename, values in ((data_file, data), (output_file, metrics)):
+        temp_file = filename + ".tmp"
+        try:
+            np.savetxt(temp_file, values, delimiter=",")
+            os.replace(temp_file, filename)
+        except BaseException:
+            if os.path.isfile(temp_file):
+                os.remove(temp_file)
+            raise
+
+
 def calculate_error(metrics_original, metrics_test):
     """Calculates error of global metrics between test and original model.
 
@@ -603,8 +635,12 @@ def sample(
                 simulations, ignition_sample_worker, num_threads
             )
 
-            np.savetxt(data_files["data_ignition"], ignition_data, delimiter=",")
-            np.savetxt(data_files["output_ignition"], ignition_delays, delimiter=",")
+            _save_samples(
+                data_files["data_ignition"],
+                ignition_data,
+                data_files["output_ignition"],
+                ignition_delays,
+            )
 
     # PSR cases contribute three metrics each (extinction residence time and the
     # two response temperatures) and ``num_sample_points`` sampled-state rows.
@@ -650,8 +686,12 @@ def sample(
                 simulations, psr_sample_worker, num_threads
             )
 
-            np.savetxt(data_files["data_psr"], psr_data, delimiter=",")
-            np.savetxt(data_files["output_psr"], psr_metrics, delimiter=",")
+            _save_samples(
+                data_files["data_psr"],
+                psr_data,
+                data_files["output_psr"],
+                psr_metrics,
+            )
 
     flame_speeds = np.array([])
     flame_data = []
@@ -705,8 +745,12 @@ def sample(
                 simulations, flame_sample_worker, num_threads
             )
 
-            np.savetxt(data_files["data_flame"], flame_data, delimiter=",")
-            np.savetxt(data_files["output_flame"], flame_speeds, delimiter=",")
+            _save_samples(
+                data_files["data_flame"],
+                flame_data,
+                data_files["output_flame"],
+                flame_speeds,
+            )
 
     # combine metrics and sampled data from all phenomena (ignition, PSR, flame)
     metric_arrays = [
-- 
2.43.0


From 56b779092f2b6ecc4a20aec691e72e16207d319c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:34 +0000
Subject: [PATCH 15/20] fix: sample afresh when saved samples cannot be read

---
 src/pymars/sampling.py | 63 ++++++++++++++++++++++++++----------------
 1 file changed, 39 insertions(+), 24 deletions(-)

diff --git a/src/pymars/sampling.py b/src/pymars/sampling.py
index ecd030e..4e1c9fd 100644
--- a/src/pymars/sampling.py
+++ b/src/pymars/sampling.py
@@ -338,6 +338,27 @@ def calculate_error(metrics_original, metrics_test):
     return error
 
 
+def _read_saved(filename):
+    """Reads a file of saved samples.
+
+    Parameters
+    ----------
+    filename : str
+        Name of file with saved data or metrics
+
+    Returns
+    -------
+    numpy.ndarray
+        Values in the file; empty if they cannot all be read
+
+    """
+    try:
+        values = np.atleast_1d(np.genfromtxt(filename, delimiter=","))
+    except ValueError:
+        return np.array([])
+    return values if np.all(np.isfinite(values)) else np.array([])
+
+
 def read_metrics(ignition_conditions, psr_conditions=[], flame_conditions=[]):
     """Reads in stored already-sampled metrics.
 
@@ -443,9 +464,7 @@ def sample_metrics(
 
         exists_output = os.path.isfile(data_files["output_ignition"])
         if reuse_saved and exists_output:
-            ignition_delays = np.atleast_1d(
-                np.genfromtxt(data_files["output_ignition"], delimiter=",")
-            )
+            ignition_delays = _read_saved(data_files["output_ignition"])
 
         if (
             reuse_saved
@@ -480,9 +499,7 @@ def sample_metrics(
 
         exists_output = os.path.isfile(data_files["output_psr"])
         if reuse_saved and exists_output:
-            psr_metrics = np.atleast_1d(
-                np.genfromtxt(data_files["output_psr"], delimiter=",")
-            )
+            psr_metrics = _read_saved(data_files["output_psr"])
 
         if reuse_saved and exists_output and len(psr_metrics) == n_psr_metrics:
             logging.info("Reusing existing PSR samples for the starting model.")
@@ -506,9 +523,7 @@ def sample_metrics(
 
         exists_output = os.path.isfile(data_files["output_flame"])
         if reuse_saved and exists_output:
-            flame_speeds = np.atleast_1d(
-                np.genfromtxt(data_files["output_flame"], delimiter=",")
-            )
+            flame_speeds = _read_saved(data_files["output_flame"])
 
         if (
             reuse_saved
@@ -600,10 +615,8 @@ def sample(
         exists_data = os.path.isfile(data_files["data_ignition"])
         exists_output = os.path.isfile(data_files["output_ignition"])
         if exists_data and exists_output:
-            ignition_delays = np.genfromtxt(
-                data_files["output_ignition"], delimiter=","
-            )
-            ignition_data = np.genfromtxt(data_files["data_ignition"], delimiter=",")
+            ignition_delays = _read_saved(data_files["output_ignition"])
+            ignition_data = _read_saved(data_files["data_ignition"])
             # need to check that saved data at least matches the number of cases
             matches_number = ignition_delays.size == len(
                 ignition_conditions
@@ -612,7 +625,9 @@ def sample(
             # also check that expected data is right shape (e.g., in case number of species
             # has changed if running a new model)
             gas = ct.Solution(model, phase_name)
-            matches_shape = ignition_data.shape[1] == 2 + gas.n_species
+            matches_shape = (
+                ignition_data.ndim == 2 and ignition_data.shape[1] == 2 + gas.n_species
+            )
 
         if matches_number and matches_shape:
             logging.info(
@@ -656,16 +671,16 @@ def sample(
         exists_data = os.path.isfile(data_files["data_psr"])
         exists_output = os.path.isfile(data_files["output_psr"])
         if exists_data and exists_output:
-            psr_metrics = np.atleast_1d(
-                np.genfromtxt(data_files["output_psr"], delimiter=",")
-            )
-            psr_data = np.genfromtxt(data_files["data_psr"], delimiter=",")
+            psr_metrics = _read_saved(data_files["output_psr"])
+            psr_data = _read_saved(data_files["data_psr"])
             matches_number = psr_metrics.size == n_psr_metrics and psr_data.shape[
                 0
             ] / n_rows == len(psr_conditions)
 
             gas = ct.Solution(model, phase_name)
-            matches_shape = psr_data.shape[1] == 2 + gas.n_species
+            matches_shape = (
+                psr_data.ndim == 2 and psr_data.shape[1] == 2 + gas.n_species
+            )
 
         if matches_number and matches_shape:
             logging.info("Reusing existing PSR samples for the starting model.")
@@ -705,10 +720,8 @@ def sample(
         exists_data = os.path.isfile(data_files["data_flame"])
         exists_output = os.path.isfile(data_files["output_flame"])
         if exists_data and exists_output:
-            flame_speeds = np.atleast_1d(
-                np.genfromtxt(data_files["output_flame"], delimiter=",")
-            )
-            flame_data = np.genfromtxt(data_files["data_flame"], delimiter=",")
+            flame_speeds = _read_saved(data_files["output_flame"])
+            flame_data = _read_saved(data_files["data_flame"])
             # need to check that saved data at least matches the number of cases
             matches_number = flame_speeds.size == len(
                 flame_conditions
@@ -717,7 +730,9 @@ def sample(
             # also check that expected data is right shape (e.g., in case number of species
             # has changed if running a new model)
             gas = ct.Solution(model, phase_name)
-            matches_shape = flame_data.shape[1] == 2 + gas.n_species
+            matches_shape = (
+                flame_data.ndim == 2 and flame_data.shape[1] == 2 + gas.n_species
+            )
 
         if matches_number and matches_shape:
             logging.info(
-- 
2.43.0


From c9703ddd1d1e68333736789dcbf546bc4059a0dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:34 +0000
Subject: [PATCH 16/20] fix: leave the retained-species list of the input
 unchanged

---
 src/pymars/pymars.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pymars/pymars.py b/src/pymars/pymars.py
index 12302a3..6e6a45f 100644
--- a/src/pymars/pymars.py
+++ b/src/pymars/pymars.py
@@ -89,7 +89,8 @@ def parse_inputs(input_dict):
         upper_threshold = 0.1
     sensitivity_type = input_dict.get("sensitivity-type", "initial")
 
-    safe_species = input_dict.get("retained-species", [])
+    # copied, since species may be added below
+    safe_species = list(input_dict.get("retained-species", []))
 
     phase_name = input_dict.get("phase-name", "")
 
-- 
2.43.0


From 42049e9fbdac13959913c740dd705db62099cb90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:26 +0000
Subject: [PATCH 17/20] fix: always sample the end of a profile, despite
 rounding of the temperature rise

---
 src/pymars/simulation.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pymars/simulation.py b/src/pymars/simulation.py
index f027e49..c034f66 100644
--- a/src/pymars/simulation.py
+++ b/src/pymars/simulation.py
@@ -127,9 +127,10 @@ class BaseSimulation(ABC):
         for point in range(len(temperatures)):
             if idx >= len(deltas):
                 break
-            if temperatures[point] >= temperature_initial + (
-                deltas[idx] * temperature_diff
-            ):
+            # rounding must not put the last target above the final temperature, which
+            # would leave a sampled state of only zeros
+            target = temperature_initial + (deltas[idx] * temperature_diff)
+            if temperatures[point] >= min(target, temperatures[-1]):
                 sampled_data[idx, 0:2] = [temperatures[point], pressures[point]]
                 sampled_data[idx, 2:] = mass_fractions[point]
                 idx += 1
-- 
2.43.0


From 562aa0740934388b2bca1e8c1e2919cbd245144d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:46 +0000
Subject: [PATCH 18/20] fix: reject continuation steps whose correction leaves
 the traced branch

---
 src/pymars/psr_solver.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/pymars/psr_solver.py b/src/pymars/psr_solver.py
index 3801756..4faa1dc 100644
--- a/src/pymars/psr_solver.py
+++ b/src/pymars/psr_solver.py
@@ -42,6 +42,10 @@ PENALTY = 1.0e3
 #: applied only after the extinction fold, during a full ``stop_at_extinction=False``
 #: march toward the ignition turning point.
 DS_MAX_MIDDLE = 0.05
+#: Largest distance between predicted and corrected point, relative to the step, of a
+#: step that goes on in the same direction. A solution farther away than this lies on
+#: another part of the curve.
+MAX_CORRECTION = 1.0
 
 
 def _damped_newton(residual, x0, tol=1.0e-9, maxit=50):
@@ -301,7 +305,11 @@ def trace_extinction_curve(
         def augmented_jac(u, _t=tangent):
             return np.vstack([core_jac(u), _t])
 
-        u_new, ok = correct(augmented_res, augmented_jac, u_prev + ds * tangent)
+        u_guess = u_prev + ds * tangent
+        u_new, ok = correct(augmented_res, augmented_jac, u_guess)
+        if ok and np.linalg.norm(u_new - u_guess) > MAX_CORRECTION * ds:
+            # the corrector went astray, unless the step has passed a turning point
+            ok = (u_new[sigma] - u_prev[sigma]) * sigma_sign < 0.0
         if not ok:
             ds *= 0.5
             if ds < ds_min:
-- 
2.43.0


From 96a5aa2cf30eb0eb0071f795e3049b1e28e3fd6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:42 +0000
Subject: [PATCH 19/20] fix: do not start extinction curves on the unstable
 middle branch

---
 src/pymars/psr_solver.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/pymars/psr_solver.py b/src/pymars/psr_solver.py
index 4faa1dc..349a314 100644
--- a/src/pymars/psr_solver.py
+++ b/src/pymars/psr_solver.py
@@ -236,10 +236,15 @@ def trace_extinction_curve(
                 :, : gas.n_species + 1
             ]  # noqa: E731
 
+        def stable(x):
+            # the determinant is negative on the unstable middle branch only
+            return np.linalg.slogdet(jac(x))[0] > 0.0
+
         sol = root(res, guess, jac=jac, method="hybr", tol=1e-10)
-        if sol.success and np.linalg.norm(sol.fun) < 1e-7:
+        if sol.success and np.linalg.norm(sol.fun) < 1e-7 and stable(sol.x):
             return sol.x, True
-        return _damped_newton(res, guess)
+        x, ok = _damped_newton(res, guess)
+        return x, ok and stable(x)
 
     def correct(res, jac, x0):
         sol = root(res, x0, jac=jac, method="hybr", tol=1e-10)
-- 
2.43.0


From b2b818d21186d3eeb4255533043bb0da0f1db7cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:29:36 +0000
Subject: [PATCH 20/20] fix: reuse saved metrics only when the file holds
 exactly one value per metric

A metrics file with the right number of rows but several columns was taken
for saved metrics, and the evaluation ended with a ValueError.
---
 src/pymars/sampling.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pymars/sampling.py b/src/pymars/sampling.py
index 4e1c9fd..b7deaf0 100644
--- a/src/pymars/sampling.py
+++ b/src/pymars/sampling.py
@@ -469,7 +469,7 @@ def sample_metrics(
         if (
             reuse_saved
             and exists_output
-            and len(ignition_delays) == len(ignition_conditions)
+            and ignition_delays.size == len(ignition_conditions)
         ):
             logging.info(
                 "Reusing existing autoignition samples for the starting model."
@@ -501,7 +501,7 @@ def sample_metrics(
         if reuse_saved and exists_output:
             psr_metrics = _read_saved(data_files["output_psr"])
 
-        if reuse_saved and exists_output and len(psr_metrics) == n_psr_metrics:
+        if reuse_saved and exists_output and psr_metrics.size == n_psr_metrics:
             logging.info("Reusing existing PSR samples for the starting model.")
         else:
             simulations = []
@@ -528,7 +528,7 @@ def sample_metrics(
         if (
             reuse_saved
             and exists_output
-            and len(flame_speeds) == len(flame_conditions)
+            and flame_speeds.size == len(flame_conditions)
         ):
             logging.info(
                 "Reusing existing laminar flame samples for the starting model."
-- 
2.43.0

