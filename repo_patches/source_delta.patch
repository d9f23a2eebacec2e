From 019db84d209dcc9612ecb01c8bd2fe54295a7d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:38 +0000
Subject: [PATCH 01/33] fix: simulate when no saved metrics exist instead of
 reusing zeros

sample_metrics(reuse_saved=True) initialised the ignition delays and flame
speeds with zeros of the expected length, so a missing output file counted
as saved results and the baseline of a sensitivity analysis was all zeros.
---
 src/pymars/sampling.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/pymars/sampling.py b/src/pymars/sampling.py
index 2b22cf8..3516263 100644
--- a/src/pymars/sampling.py
+++ b/src/pymars/sampling.py
@@ -406,8 +406,6 @@ def sample_metrics(
 
     ignition_delays = np.array([])
     if ignition_conditions:
-        ignition_delays = np.zeros(len(ignition_conditions))
-
         exists_output = os.path.isfile(data_files["output_ignition"])
         if reuse_saved and exists_output:
             ignition_delays = np.atleast_1d(
@@ -465,8 +463,6 @@ def sample_metrics(
 
     flame_speeds = np.array([])
     if flame_conditions:
-        flame_speeds = np.zeros(len(flame_conditions))
-
         exists_output = os.path.isfile(data_files["output_flame"])
         if reuse_saved and exists_output:
             flame_speeds = np.atleast_1d(
-- 
2.43.0


From a66bd4d45ff19ad4fe573dae79f6219da3d12997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:23 +0000
Subject: [PATCH 02/33] fix: sample every temperature fraction of steep
 profiles

Only one fraction was taken per profile point, so a step that crossed
several fractions recorded later points than the first crossing and could
leave all-zero rows at the end; roundoff in the last target (initial plus
total rise) left the last row zero for about one profile in a hundred.
---
 src/pymars/simulation.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/pymars/simulation.py b/src/pymars/simulation.py
index 2ec2451..d6a1f64 100644
--- a/src/pymars/simulation.py
+++ b/src/pymars/simulation.py
@@ -123,13 +123,15 @@ class BaseSimulation(ABC):
 
         sampled_data = np.zeros((len(deltas), 2 + n_species))
 
+        # roundoff must not push the last target above the final temperature
+        targets = np.minimum(
+            temperature_initial + deltas * temperature_diff, temperatures[-1]
+        )
+
         idx = 0
         for point in range(len(temperatures)):
-            if idx >= len(deltas):
-                break
-            if temperatures[point] >= temperature_initial + (
-                deltas[idx] * temperature_diff
-            ):
+            # one step of a steep profile may cross several fractions
+            while idx < len(deltas) and temperatures[point] >= targets[idx]:
                 sampled_data[idx, 0:2] = [temperatures[point], pressures[point]]
                 sampled_data[idx, 2:] = mass_fractions[point]
                 idx += 1
-- 
2.43.0


From 0b58fc4c51d749f366e31be2b3de12a203c510bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:14 +0000
Subject: [PATCH 03/33] fix: do not share limbo species between DRGEP results

run_drgep appended to the mutable default of ReducedModel, so every result
in the process, past and future, got the limbo species of every run.
---
 src/pymars/drgep.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/pymars/drgep.py b/src/pymars/drgep.py
index 6fe0849..a454a6b 100644
--- a/src/pymars/drgep.py
+++ b/src/pymars/drgep.py
@@ -530,9 +530,15 @@ def run_drgep(
         )
 
     if threshold_upper:
-        for sp in reduced_model.model.species_names:
-            if importance_coeffs[sp] < threshold_upper and (sp not in species_safe):
-                reduced_model.limbo_species.append(sp)
+        reduced_model = reduced_model._replace(
+            limbo_species=[
+                sp
+                for sp in reduced_model.model.species_names
+                if importance_coeffs[sp] < threshold_upper
+                and sp not in species_safe
+                and sp not in species_targets
+            ]
+        )
 
     logging.info(45 * "-")
     logging.info("DRGEP reduction complete.")
-- 
2.43.0


From dd030caca3ab8cd71e06273aaff304cd69fa74f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:14 +0000
Subject: [PATCH 04/33] fix: sensitivity analysis with protected or exhausted
 candidates

Candidates handed over by a graph method may include targets and retained
species, which were then removed; the list of the caller was emptied; the
greedy algorithm failed once the last candidate was removed; and the
returned file name lacked the output directory.
---
 src/pymars/sensitivity_analysis.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/pymars/sensitivity_analysis.py b/src/pymars/sensitivity_analysis.py
index 3eb2bf9..eb9ebc3 100644
--- a/src/pymars/sensitivity_analysis.py
+++ b/src/pymars/sensitivity_analysis.py
@@ -179,6 +179,9 @@ def run_sa(
         species_limbo = [
             sp for sp in current_model.model.species_names if sp not in species_safe
         ]
+    else:
+        # never consider protected species, and leave the list of the caller alone
+        species_limbo = [sp for sp in species_limbo if sp not in species_safe]
 
     logging.info(53 * "-")
     logging.info("Number of species |  Species removed  | Max error (%)")
@@ -255,7 +258,7 @@ def run_sa(
                     phase_name=phase_name,
                     num_threads=num_threads,
                 )
-                if min(species_errors) > error_limit:
+                if species_limbo and min(species_errors) > error_limit:
                     break
 
     # Final model; may need to rewrite
@@ -264,7 +267,8 @@ def run_sa(
         filename=f"reduced_{current_model.model.n_species}.yaml",
         error=current_model.error,
     )
-    soln2yaml.write(reduced_model.model, reduced_model.filename, path=path)
+    filename = soln2yaml.write(reduced_model.model, reduced_model.filename, path=path)
+    reduced_model = reduced_model._replace(filename=filename)
 
     logging.info(53 * "-")
     logging.info("Sensitivity analysis stage complete.")
-- 
2.43.0


From f616bc5754c58d378059e7aece0ba94380e81bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:51 +0000
Subject: [PATCH 05/33] fix: end the threshold search when nothing is left to
 remove

With a limit that no candidate exceeds, the DRG and PFA loops never ended
and the DRGEP loop went on to remove the targets. Stop once a higher
threshold cannot change the model, and create the final model at exactly
the last accepted threshold rather than at one recomputed with roundoff.
---
 src/pymars/drg.py   | 48 ++++++++++++++++++++++++---------------------
 src/pymars/drgep.py | 41 +++++++++++++++++++-------------------
 src/pymars/pfa.py   | 48 ++++++++++++++++++++++++---------------------
 3 files changed, 72 insertions(+), 65 deletions(-)

diff --git a/src/pymars/drg.py b/src/pymars/drg.py
index e40cf5d..88593f5 100644
--- a/src/pymars/drg.py
+++ b/src/pymars/drg.py
@@ -318,10 +318,14 @@ def run_drg(
     # start with detailed (starting) model
     previous_model = ReducedModel(model=solution, filename=model_file, error=0.0)
 
+    # no edges are left for thresholds above the largest coefficient
+    max_coefficient = max(np.max(matrix) for matrix in matrices)
+
     first = True
     error_current = 0.0
     threshold = 0.01
     threshold_increment = 0.01
+    threshold_accepted = None
     while error_current <= error_limit:
         reduced_model = reduce_drg(
             model_file,
@@ -357,6 +361,8 @@ def run_drg(
 
         logging.info(f"{threshold:^9.2e} | {num_species:^17} | {error_current:^.2f}")
 
+        if error_current <= error_limit:
+            threshold_accepted = threshold
         threshold += threshold_increment
         first = False
 
@@ -371,28 +377,26 @@ def run_drg(
             limbo_species=reduced_model.limbo_species,
         )
 
-    if error_current > error_limit:
-        threshold -= 2 * threshold_increment
-        reduced_model = reduce_drg(
-            model_file,
-            species_targets,
-            species_safe,
-            threshold,
-            matrices,
-            ignition_conditions,
-            sampled_metrics,
-            psr_conditions=psr_conditions,
-            flame_conditions=flame_conditions,
-            min_flame_speed=min_flame_speed,
-            phase_name=phase_name,
-            threshold_upper=threshold_upper,
-            num_threads=num_threads,
-            path=path,
-        )
-    else:
-        soln2yaml.write(
-            reduced_model, f"reduced_{reduced_model.model.n_species}.yaml", path=path
-        )
+        if threshold_accepted is not None and threshold_accepted > max_coefficient:
+            break
+
+    # create the final model, at the last threshold within the error limit
+    reduced_model = reduce_drg(
+        model_file,
+        species_targets,
+        species_safe,
+        threshold_accepted,
+        matrices,
+        ignition_conditions,
+        sampled_metrics,
+        psr_conditions=psr_conditions,
+        flame_conditions=flame_conditions,
+        min_flame_speed=min_flame_speed,
+        phase_name=phase_name,
+        threshold_upper=threshold_upper,
+        num_threads=num_threads,
+        path=path,
+    )
 
     logging.info(45 * "-")
     logging.info("DRG reduction complete.")
diff --git a/src/pymars/drgep.py b/src/pymars/drgep.py
index a454a6b..e069743 100644
--- a/src/pymars/drgep.py
+++ b/src/pymars/drgep.py
@@ -461,7 +461,9 @@ def run_drgep(
     error_current = 0.0
     threshold = 0.01
     threshold_increment = 0.01
-    while error_current <= error_limit:
+    threshold_accepted = None
+    # importance coefficients do not exceed that of the targets, which is one
+    while error_current <= error_limit and threshold <= 1.0:
         reduced_model = reduce_drgep(
             model_file,
             species_safe,
@@ -494,6 +496,8 @@ def run_drgep(
 
         logging.info(f"{threshold:^9.2e} | {num_species:^17} | {error_current:^.2f}")
 
+        if error_current <= error_limit:
+            threshold_accepted = threshold
         threshold += threshold_increment
         first = False
 
@@ -508,26 +512,21 @@ def run_drgep(
             limbo_species=reduced_model.limbo_species,
         )
 
-    if reduced_model.error > error_limit:
-        threshold -= 2 * threshold_increment
-        reduced_model = reduce_drgep(
-            model_file,
-            species_safe,
-            threshold,
-            importance_coeffs,
-            ignition_conditions,
-            sampled_metrics,
-            psr_conditions=psr_conditions,
-            flame_conditions=flame_conditions,
-            min_flame_speed=min_flame_speed,
-            phase_name=phase_name,
-            num_threads=num_threads,
-            path=path,
-        )
-    else:
-        soln2yaml.write(
-            reduced_model, f"reduced_{reduced_model.model.n_species}.yaml", path=path
-        )
+    # create the final model, at the last threshold within the error limit
+    reduced_model = reduce_drgep(
+        model_file,
+        species_safe,
+        threshold_accepted,
+        importance_coeffs,
+        ignition_conditions,
+        sampled_metrics,
+        psr_conditions=psr_conditions,
+        flame_conditions=flame_conditions,
+        min_flame_speed=min_flame_speed,
+        phase_name=phase_name,
+        num_threads=num_threads,
+        path=path,
+    )
 
     if threshold_upper:
         reduced_model = reduced_model._replace(
diff --git a/src/pymars/pfa.py b/src/pymars/pfa.py
index b1862ce..5dc42d3 100644
--- a/src/pymars/pfa.py
+++ b/src/pymars/pfa.py
@@ -344,10 +344,14 @@ def run_pfa(
     # start with detailed (starting) model
     previous_model = ReducedModel(model=solution, filename=model_file, error=0.0)
 
+    # no edges are left for thresholds above the largest coefficient
+    max_coefficient = max(np.max(matrix) for matrix in matrices)
+
     first = True
     error_current = 0.0
     threshold = 0.01
     threshold_increment = 0.01
+    threshold_accepted = None
     while error_current <= error_limit:
         reduced_model = reduce_pfa(
             model_file,
@@ -383,6 +387,8 @@ def run_pfa(
 
         logging.info(f"{threshold:^9.2e} | {num_species:^17} | {error_current:^.2f}")
 
+        if error_current <= error_limit:
+            threshold_accepted = threshold
         threshold += threshold_increment
         first = False
 
@@ -397,28 +403,26 @@ def run_pfa(
             limbo_species=reduced_model.limbo_species,
         )
 
-    if reduced_model.error > error_limit:
-        threshold -= 2 * threshold_increment
-        reduced_model = reduce_pfa(
-            model_file,
-            species_targets,
-            species_safe,
-            threshold,
-            matrices,
-            ignition_conditions,
-            sampled_metrics,
-            psr_conditions=psr_conditions,
-            flame_conditions=flame_conditions,
-            min_flame_speed=min_flame_speed,
-            phase_name=phase_name,
-            threshold_upper=threshold_upper,
-            num_threads=num_threads,
-            path=path,
-        )
-    else:
-        soln2yaml.write(
-            reduced_model, f"reduced_{reduced_model.model.n_species}.yaml", path=path
-        )
+        if threshold_accepted is not None and threshold_accepted > max_coefficient:
+            break
+
+    # create the final model, at the last threshold within the error limit
+    reduced_model = reduce_pfa(
+        model_file,
+        species_targets,
+        species_safe,
+        threshold_accepted,
+        matrices,
+        ignition_conditions,
+        sampled_metrics,
+        psr_conditions=psr_conditions,
+        flame_conditions=flame_conditions,
+        min_flame_speed=min_flame_speed,
+        phase_name=phase_name,
+        threshold_upper=threshold_upper,
+        num_threads=num_threads,
+        path=path,
+    )
 
     logging.info(45 * "-")
     logging.info("PFA reduction complete.")
-- 
2.43.0


From bdd441199d8ef76c977af7e23784f77e61b7c492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:51 +0000
Subject: [PATCH 06/33] fix: remove the files of all rejected and superseded
 candidates

Candidates rejected while looking for a first threshold, and candidates
evaluated again with the same number of species, were left behind as
reduced_N.yaml next to the final model.
---
 src/pymars/drg.py   | 5 ++++-
 src/pymars/drgep.py | 5 ++++-
 src/pymars/pfa.py   | 5 ++++-
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/pymars/drg.py b/src/pymars/drg.py
index 88593f5..4b920ca 100644
--- a/src/pymars/drg.py
+++ b/src/pymars/drg.py
@@ -350,6 +350,7 @@ def run_drg(
         # reduce threshold if past error limit on first iteration
         if first and error_current > error_limit:
             error_current = 0.0
+            os.remove(reduced_model.filename)
             threshold /= 10
             threshold_increment /= 10
             if threshold <= 1e-5:
@@ -367,7 +368,9 @@ def run_drg(
         first = False
 
         # cleanup files
-        if previous_model.model.n_species != reduced_model.model.n_species:
+        if reduced_model.filename != model_file and os.path.isfile(
+            reduced_model.filename
+        ):
             os.remove(reduced_model.filename)
 
         previous_model = ReducedModel(
diff --git a/src/pymars/drgep.py b/src/pymars/drgep.py
index e069743..ee48e74 100644
--- a/src/pymars/drgep.py
+++ b/src/pymars/drgep.py
@@ -485,6 +485,7 @@ def run_drgep(
         # reduce threshold if past error limit on first iteration
         if first and error_current > error_limit:
             error_current = 0.0
+            os.remove(reduced_model.filename)
             threshold /= 10
             threshold_increment /= 10
             if threshold <= 1e-6:
@@ -502,7 +503,9 @@ def run_drgep(
         first = False
 
         # cleanup files
-        if previous_model.model.n_species != reduced_model.model.n_species:
+        if reduced_model.filename != model_file and os.path.isfile(
+            reduced_model.filename
+        ):
             os.remove(reduced_model.filename)
 
         previous_model = ReducedModel(
diff --git a/src/pymars/pfa.py b/src/pymars/pfa.py
index 5dc42d3..47eb3e2 100644
--- a/src/pymars/pfa.py
+++ b/src/pymars/pfa.py
@@ -376,6 +376,7 @@ def run_pfa(
         # reduce threshold if past error limit on first iteration
         if first and error_current > error_limit:
             error_current = 0.0
+            os.remove(reduced_model.filename)
             threshold /= 10
             threshold_increment /= 10
             if threshold <= 1e-5:
@@ -393,7 +394,9 @@ def run_pfa(
         first = False
 
         # cleanup files
-        if previous_model.model.n_species != reduced_model.model.n_species:
+        if reduced_model.filename != model_file and os.path.isfile(
+            reduced_model.filename
+        ):
             os.remove(reduced_model.filename)
 
         previous_model = ReducedModel(
-- 
2.43.0


From c63858d0a84172609982257c8ac25b1f40e56f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:51 +0000
Subject: [PATCH 07/33] fix: report the limbo species of DRG, not the important
 ones

run_drg returned the species that survive the upper threshold, targets
included, as candidates for sensitivity analysis, instead of those that
would be removed by it.
---
 src/pymars/drg.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/pymars/drg.py b/src/pymars/drg.py
index 4b920ca..5f66795 100644
--- a/src/pymars/drg.py
+++ b/src/pymars/drg.py
@@ -401,6 +401,17 @@ def run_drg(
         path=path,
     )
 
+    # reduce_drg gives the species needed at the upper threshold; those in limbo are
+    # the other remaining ones
+    if threshold_upper:
+        reduced_model = reduced_model._replace(
+            limbo_species=[
+                sp
+                for sp in reduced_model.model.species_names
+                if sp not in reduced_model.limbo_species and sp not in species_safe
+            ]
+        )
+
     logging.info(45 * "-")
     logging.info("DRG reduction complete.")
     logging.info(
-- 
2.43.0


From 7c3f8db185f0b4ac55835a907c916c253f4ea797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:57 +0000
Subject: [PATCH 08/33] fix: remove reactions whose orders or colliders name
 removed species

Removing a species that only appears in the reaction orders, or all of
several explicit third bodies, of a reaction made the removal fail.
---
 src/pymars/reduce_model.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/pymars/reduce_model.py b/src/pymars/reduce_model.py
index 9cd93ba..4607bb9 100644
--- a/src/pymars/reduce_model.py
+++ b/src/pymars/reduce_model.py
@@ -45,16 +45,15 @@ def trim(initial_model_file, exclusion_list, new_model_file, phase_name=""):
     final_reactions = []
     for reaction in solution.reactions():
         tb = reaction.third_body
-        # remove reactions with an explicit third body that has been removed
+        # remove reactions whose explicit third bodies have all been removed
         if tb is not None and not tb.default_efficiency:
-            if (
-                len(tb.efficiencies) == 1
-                and list(tb.efficiencies.keys())[0] in exclusion_list
-            ):
+            if all([sp in exclusion_list for sp in tb.efficiencies]):
                 continue
 
-        reaction_species = list(reaction.products.keys()) + list(
-            reaction.reactants.keys()
+        reaction_species = (
+            list(reaction.products.keys())
+            + list(reaction.reactants.keys())
+            + list(reaction.orders.keys())
         )
         if all([sp in final_species_names for sp in reaction_species]):
             # remove any eliminated species from third-body efficiencies
-- 
2.43.0


From c08916f097eda74fce64ff6b078c4e7b072d88e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:18 +0000
Subject: [PATCH 09/33] fix: reject a negative error limit and copy the
 retained species

A negative error limit passed the checks and failed after all simulations;
parsing added species to the list of retained species of the caller.
---
 src/pymars/pymars.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pymars/pymars.py b/src/pymars/pymars.py
index 12302a3..7c2421a 100644
--- a/src/pymars/pymars.py
+++ b/src/pymars/pymars.py
@@ -64,7 +64,7 @@ def parse_inputs(input_dict):
     assert model, 'Input file requires specifying "model".'
 
     error = input_dict.get("error", 0.0)
-    assert error, 'Input file requires an error limit specified by "error".'
+    assert error > 0, 'Input file requires an error limit specified by "error".'
 
     method = input_dict.get("method", "")
     sensitivity_analysis = input_dict.get("sensitivity-analysis", False)
@@ -89,7 +89,8 @@ def parse_inputs(input_dict):
         upper_threshold = 0.1
     sensitivity_type = input_dict.get("sensitivity-type", "initial")
 
-    safe_species = input_dict.get("retained-species", [])
+    # copy, since species of the initial conditions will be added
+    safe_species = list(input_dict.get("retained-species", []))
 
     phase_name = input_dict.get("phase-name", "")
 
-- 
2.43.0


From 06044d8c4e39fde8b7a7927ee170f6cd0b36da71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:18 +0000
Subject: [PATCH 10/33] fix: reject unknown types of sensitivity analysis

A misspelt sensitivity-type silently ran the initial algorithm.
---
 src/pymars/pymars.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pymars/pymars.py b/src/pymars/pymars.py
index 7c2421a..701e3ff 100644
--- a/src/pymars/pymars.py
+++ b/src/pymars/pymars.py
@@ -88,6 +88,10 @@ def parse_inputs(input_dict):
         logging.info("Warning: using default upper threshold value (0.1)")
         upper_threshold = 0.1
     sensitivity_type = input_dict.get("sensitivity-type", "initial")
+    assert not sensitivity_type or sensitivity_type in [
+        "initial",
+        "greedy",
+    ], 'Sensitivity type must be "initial" or "greedy".'
 
     # copy, since species of the initial conditions will be added
     safe_species = list(input_dict.get("retained-species", []))
-- 
2.43.0


From 219da278543d4f39ba344678bb6b10f0b58e7709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:18 +0000
Subject: [PATCH 11/33] fix: reduce Chemkin models and honour the given
 arguments

The input was parsed, loading the model as a Cantera file, before the
Chemkin model was converted, and the converted name was assigned to an
immutable field. Arguments passed to the entry points were ignored.
---
 src/pymars/__main__.py |  2 +-
 src/pymars/pymars.py   | 13 ++++++++-----
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/pymars/__main__.py b/src/pymars/__main__.py
index 6de4472..c518a12 100644
--- a/src/pymars/__main__.py
+++ b/src/pymars/__main__.py
@@ -8,7 +8,7 @@ from .pymars import pymars
 def main(args=None):
     if args is None:
         args = sys.argv[1:]
-        pymars(args)
+    pymars(args)
 
 
 if __name__ == "__main__":
diff --git a/src/pymars/pymars.py b/src/pymars/pymars.py
index 701e3ff..4d8c89f 100644
--- a/src/pymars/pymars.py
+++ b/src/pymars/pymars.py
@@ -355,7 +355,7 @@ def pymars(argv):
         parser.print_help()
         sys.exit(1)
 
-    args = parser.parse_args()
+    args = parser.parse_args(argv)
 
     if args.version:
         from ._version import __version__
@@ -384,12 +384,15 @@ def pymars(argv):
         with open(args.input, "r") as the_file:
             input_dict = yaml.safe_load(the_file)
 
-        inputs = parse_inputs(input_dict)
-
         # Check for Chemkin format and convert if needed
-        if os.path.splitext(inputs.model)[1] not in (".yaml", ".yml"):
+        model = input_dict.get("model", "")
+        if model and os.path.splitext(model)[1] not in (".yaml", ".yml"):
             logging.info("Chemkin file detected; converting before reduction.")
-            inputs.model = convert(inputs.model, args.thermo, args.transport, args.path)
+            input_dict["model"] = convert(
+                model, args.thermo, args.transport, args.path
+            )
+
+        inputs = parse_inputs(input_dict)
 
         main(
             inputs.model,
-- 
2.43.0


From b85a5f5f8bfec054b91fede7aa778b781f82434e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:45 +0000
Subject: [PATCH 12/33] fix: an interrupted run leaves no partial or mismatched
 samples

---
 src/pymars/sampling.py | 35 +++++++++++++++++++++++++++++------
 1 file changed, 29 insertions(+), 6 deletions(-)

diff --git a/src/pymars/sampling.py b/src/pymars/sampling.py
index 3516263..39920b4 100644
--- a/src/pymars/sampling.py
+++ b/src/pymars/sampling.py
@@ -281,6 +281,32 @@ def _run_metric_jobs(simulations, worker, num_threads):
     return np.concatenate(metrics) if metrics else np.array([])
 
 
+def _save_samples(kind, metrics, data):
+    """Saves sampled metrics and data so that an interrupted run leaves no partial files.
+
+    The old metrics are removed first and the new ones appear last, so metrics are
+    only ever found next to the data of the same simulations.
+
+    Parameters
+    ----------
+    kind : {'ignition', 'psr', 'flame'}
+        Phenomenon, used to select the files in ``data_files``
+    metrics : numpy.ndarray
+        Global metrics of all cases
+    data : numpy.ndarray
+        Sampled thermochemical states of all cases
+
+    """
+    data_file = data_files[f"data_{kind}"]
+    output_file = data_files[f"output_{kind}"]
+
+    if os.path.isfile(output_file):
+        os.remove(output_file)
+    for filename, values in ((data_file, data), (output_file, metrics)):
+        np.savetxt(filename + ".tmp", values, delimiter=",")
+        os.replace(filename + ".tmp", filename)
+
+
 def calculate_error(metrics_original, metrics_test):
     """Calculates error of global metrics between test and original model.
 
@@ -590,8 +616,7 @@ def sample(
                 simulations, ignition_sample_worker, num_threads
             )
 
-            np.savetxt(data_files["data_ignition"], ignition_data, delimiter=",")
-            np.savetxt(data_files["output_ignition"], ignition_delays, delimiter=",")
+            _save_samples("ignition", ignition_delays, ignition_data)
 
     # PSR cases contribute three metrics each (extinction residence time and the
     # two response temperatures) and ``num_sample_points`` sampled-state rows.
@@ -637,8 +662,7 @@ def sample(
                 simulations, psr_sample_worker, num_threads
             )
 
-            np.savetxt(data_files["data_psr"], psr_data, delimiter=",")
-            np.savetxt(data_files["output_psr"], psr_metrics, delimiter=",")
+            _save_samples("psr", psr_metrics, psr_data)
 
     flame_speeds = np.array([])
     flame_data = []
@@ -692,8 +716,7 @@ def sample(
                 simulations, flame_sample_worker, num_threads
             )
 
-            np.savetxt(data_files["data_flame"], flame_data, delimiter=",")
-            np.savetxt(data_files["output_flame"], flame_speeds, delimiter=",")
+            _save_samples("flame", flame_speeds, flame_data)
 
     # combine metrics and sampled data from all phenomena (ignition, PSR, flame)
     metric_arrays = [
-- 
2.43.0


From aac90e5a18289f61c302bf355822b95e8c3408c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:08 +0000
Subject: [PATCH 13/33] fix: write falloff functions with optional parameters
 to Chemkin

---
 src/pymars/soln2ck.py | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/src/pymars/soln2ck.py b/src/pymars/soln2ck.py
index a40128d..5fc08c5 100644
--- a/src/pymars/soln2ck.py
+++ b/src/pymars/soln2ck.py
@@ -127,17 +127,12 @@ def build_falloff(parameters, falloff_function):
         String of falloff parameters
 
     """
+    # the last parameters are optional for both functions
+    values = "  ".join(f"{parameter}" for parameter in parameters)
     if falloff_function == "Troe":
-        falloff_string = (
-            "TROE / " + f"{parameters[0]}  {parameters[1]}  "
-            f"{parameters[2]}  {parameters[3]} /\n"
-        )
+        falloff_string = f"TROE / {values} /\n"
     elif falloff_function == "SRI":
-        falloff_string = (
-            "SRI / "
-            + f"{parameters[0]}  {parameters[1]}  "
-            + f"{parameters[2]}  {parameters[3]}  {parameters[4]} /\n"
-        )
+        falloff_string = f"SRI / {values} /\n"
     else:
         raise NotImplementedError(f"Falloff function not supported: {falloff_function}")
 
-- 
2.43.0


From bebf06739192810dbf85d4b4b0fb824d26fe250f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:08 +0000
Subject: [PATCH 14/33] fix: convert units of Chebyshev rates written to
 Chemkin

---
 src/pymars/soln2ck.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pymars/soln2ck.py b/src/pymars/soln2ck.py
index 5fc08c5..098acf2 100644
--- a/src/pymars/soln2ck.py
+++ b/src/pymars/soln2ck.py
@@ -394,7 +394,10 @@ def write(
                     f"{cheb.pressure_range[1] / ct.one_atm} /\n"
                     + f"CHEB / {cheb.n_temperature}  {cheb.n_pressure} /\n"
                 )
-                for coeffs in cheb.data:
+                # the constant term carries the units of the rate coefficient
+                data = cheb.data.copy()
+                data[0, 0] += 3.0 * (sum(reaction.reactants.values()) - 1)
+                for coeffs in data:
                     coeffs_row = " ".join([f"{c:.6e}" for c in coeffs])
                     reaction_string += f"CHEB / {coeffs_row} /\n"
 
-- 
2.43.0


From 9d52a3134639fb12931569fda0b5ee43899e8727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:08 +0000
Subject: [PATCH 15/33] fix: keep long equations and activation energies intact
 in Chemkin

---
 src/pymars/soln2ck.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymars/soln2ck.py b/src/pymars/soln2ck.py
index 098acf2..3b27133 100644
--- a/src/pymars/soln2ck.py
+++ b/src/pymars/soln2ck.py
@@ -106,7 +106,7 @@ def build_falloff_arrhenius(rate, reaction_order, reaction_type, pressure_limit)
     arrhenius = [
         f"{pre_exponential_factor:.4e}",
         f"{rate.temperature_exponent:.3f}",
-        f"{(rate.activation_energy / CALORIES_CONSTANT):.3e}",
+        f"{(rate.activation_energy / CALORIES_CONSTANT):.2f}",
     ]
     return "  ".join(arrhenius)
 
@@ -290,7 +290,7 @@ def write(
         for reaction in solution.reactions():
 
             rxn_type = reaction.reaction_type
-            reaction_string = f"{reaction.equation:<51}"
+            reaction_string = f"{reaction.equation:<50} "
 
             # The Arrhenius parameters that follow the equation string on the main line
             # depend on the type of reaction.
-- 
2.43.0


From 6a05f622346fda2c2b337669d5485148314e5039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:08 +0000
Subject: [PATCH 16/33] fix: write default collision efficiencies to Chemkin

---
 src/pymars/soln2ck.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pymars/soln2ck.py b/src/pymars/soln2ck.py
index 3b27133..afcf5ed 100644
--- a/src/pymars/soln2ck.py
+++ b/src/pymars/soln2ck.py
@@ -339,6 +339,12 @@ def write(
                     for s, v in tb.efficiencies.items()
                     if s in solution.species_names
                 }
+                # species not listed have an efficiency of one in Chemkin
+                if tb.name == "M" and tb.default_efficiency != 1.0:
+                    reduced_efficiencies = {
+                        s: reduced_efficiencies.get(s, tb.default_efficiency)
+                        for s in solution.species_names
+                    }
                 efficiencies_str = "  ".join(
                     [f"{s}/{v}/" for s, v in reduced_efficiencies.items()]
                 )
-- 
2.43.0


From b47b7143ba7b9bd59d83148037ecda72146d97dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:22 +0000
Subject: [PATCH 17/33] fix: refuse thermodynamic data that Chemkin format
 cannot hold

---
 src/pymars/soln2ck.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/pymars/soln2ck.py b/src/pymars/soln2ck.py
index afcf5ed..40c5070 100644
--- a/src/pymars/soln2ck.py
+++ b/src/pymars/soln2ck.py
@@ -157,13 +157,24 @@ def write_thermo_data(species_list, filename="generated_thermo.dat"):
         # write data for each species in the Solution object
         for species in species_list:
 
+            # refuse what does not fit the fixed columns of the format
+            if not isinstance(species.thermo, ct.NasaPoly2):
+                raise NotImplementedError(
+                    f"Unsupported thermodynamic data: {species.name}"
+                )
+            if len(species.name) > 23:
+                raise NotImplementedError(f"Species name too long: {species.name}")
+            if len(species.composition) > 4 or any(
+                v != int(v) for v in species.composition.values()
+            ):
+                raise NotImplementedError(f"Unsupported composition: {species.name}")
+
             composition_string = "".join(
                 [f"{s:2}{int(v):>3}" for s, v in species.composition.items()]
             )
 
             species_string = (
-                f"{species.name:<18}"
-                + 6 * " "
+                f"{species.name:<24}"
                 + f"{composition_string:<20}"
                 + "G"
                 + f"{species.thermo.min_temp:10.3f}"
-- 
2.43.0


From 9faebd4634822602fd196b4b4ece6db4b884bdf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:22 +0000
Subject: [PATCH 18/33] fix: write explicit reaction orders to Chemkin

---
 src/pymars/soln2ck.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/pymars/soln2ck.py b/src/pymars/soln2ck.py
index 40c5070..1b1b6f3 100644
--- a/src/pymars/soln2ck.py
+++ b/src/pymars/soln2ck.py
@@ -303,18 +303,21 @@ def write(
             rxn_type = reaction.reaction_type
             reaction_string = f"{reaction.equation:<50} "
 
+            # explicit orders replace the stoichiometric ones
+            reaction_order = sum({**reaction.reactants, **reaction.orders}.values())
+
             # The Arrhenius parameters that follow the equation string on the main line
             # depend on the type of reaction.
             if rxn_type in ("Arrhenius", "three-body-Arrhenius"):
                 arrhenius = build_arrhenius(
-                    reaction.rate, sum(reaction.reactants.values()), rxn_type
+                    reaction.rate, reaction_order, rxn_type
                 )
 
             elif rxn_type.startswith("falloff-"):
                 # high-pressure limit is on the main reaction line
                 arrhenius = build_falloff_arrhenius(
                     reaction.rate.high_rate,
-                    sum(reaction.reactants.values()),
+                    reaction_order,
                     rxn_type,
                     "high",
                 )
@@ -323,7 +326,7 @@ def write(
                 # low-pressure limit is on the main reaction line
                 arrhenius = build_falloff_arrhenius(
                     reaction.rate.low_rate,
-                    sum(reaction.reactants.values()),
+                    reaction_order,
                     rxn_type,
                     "low",
                 )
@@ -334,7 +337,7 @@ def write(
             elif rxn_type == "pressure-dependent-Arrhenius":
                 arrhenius = build_arrhenius(
                     reaction.rate.rates[0][1],
-                    sum(reaction.reactants.values()),
+                    reaction_order,
                     "pressure-dependent-Arrhenius",
                 )
             else:
@@ -366,7 +369,7 @@ def write(
             if rxn_type.startswith("falloff-"):
                 arrhenius = build_falloff_arrhenius(
                     reaction.rate.low_rate,
-                    sum(reaction.reactants.values()),
+                    reaction_order,
                     rxn_type,
                     "low",
                 )
@@ -381,7 +384,7 @@ def write(
             elif rxn_type.startswith("chemically-activated"):
                 arrhenius = build_falloff_arrhenius(
                     reaction.rate.high_rate,
-                    sum(reaction.reactants.values()),
+                    reaction_order,
                     rxn_type,
                     "high",
                 )
@@ -398,7 +401,7 @@ def write(
                     pressure_str = f"{pressure / ct.one_atm}"
                     arrhenius = build_arrhenius(
                         rate,
-                        sum(reaction.reactants.values()),
+                        reaction_order,
                         "pressure-dependent-Arrhenius",
                     )
                     reaction_string += f"PLOG / {pressure_str} {arrhenius} /\n"
@@ -413,11 +416,14 @@ def write(
                 )
                 # the constant term carries the units of the rate coefficient
                 data = cheb.data.copy()
-                data[0, 0] += 3.0 * (sum(reaction.reactants.values()) - 1)
+                data[0, 0] += 3.0 * (reaction_order - 1)
                 for coeffs in data:
                     coeffs_row = " ".join([f"{c:.6e}" for c in coeffs])
                     reaction_string += f"CHEB / {coeffs_row} /\n"
 
+            for sp, order in reaction.orders.items():
+                reaction_string += f"FORD / {sp} {order} /\n"
+
             if reaction.duplicate:
                 reaction_string += "DUPLICATE\n"
 
-- 
2.43.0


From 8001a25cb7cd2e24fc319f07775ded3992071e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:30 +0000
Subject: [PATCH 19/33] fix: compare models by all their data, in any order of
 reactions

---
 src/pymars/tools.py | 109 +++++++++++++++++++++++++++++++++++---------
 1 file changed, 87 insertions(+), 22 deletions(-)

diff --git a/src/pymars/tools.py b/src/pymars/tools.py
index 7f244da..c247946 100644
--- a/src/pymars/tools.py
+++ b/src/pymars/tools.py
@@ -11,6 +11,43 @@ from cantera import ck2yaml
 from . import soln2ck
 
 
+def _reaction_key(reaction):
+    """Key to sort reactions by, independent of their order in the model.
+
+    Reactions with the same equation (i.e., duplicates) are sorted by the values of their
+    rate parameters, with few enough digits to ignore roundoff.
+    """
+    values = []
+    rate = reaction.rate
+    if hasattr(rate, "low_rate"):
+        rates = [rate.low_rate, rate.high_rate]
+        values += list(rate.falloff_coeffs)
+    elif hasattr(rate, "rates"):
+        rates = [r for _, r in rate.rates]
+        values += [p for p, _ in rate.rates]
+    elif hasattr(rate, "data"):
+        rates = []
+        values += list(rate.data.flat)
+    else:
+        rates = [rate]
+    for r in rates:
+        values += [
+            getattr(r, "pre_exponential_factor", 0.0),
+            getattr(r, "temperature_exponent", 0.0),
+            getattr(r, "activation_energy", 0.0),
+        ]
+    third_body = getattr(reaction, "third_body", None)
+    if third_body is not None:
+        values += [v for _, v in sorted(third_body.efficiencies.items())]
+
+    return (
+        reaction.equation,
+        reaction.reaction_type,
+        reaction.duplicate,
+        [float(f"{v:.6e}") for v in values],
+    )
+
+
 def compare_models(model1, model2):
     """Checks whether two Cantera models are equivalent.
 
@@ -43,6 +80,12 @@ def compare_models(model1, model2):
         if sp1.composition != sp2.composition:
             return False
 
+        for attr in ("min_temp", "max_temp", "reference_pressure"):
+            if not np.isclose(
+                getattr(sp1.thermo, attr), getattr(sp2.thermo, attr), rtol=1e-5
+            ):
+                return False
+
         for T_ref in (500.0, 1000.0, 2000.0):
             if not np.isclose(sp1.thermo.cp(T_ref), sp2.thermo.cp(T_ref), rtol=1e-5):
                 return False
@@ -51,26 +94,32 @@ def compare_models(model1, model2):
             if not np.isclose(sp1.thermo.s(T_ref), sp2.thermo.s(T_ref), rtol=1e-5):
                 return False
 
-        if hasattr(sp1, "transport") or hasattr(sp2, "transport"):
-            if hasattr(sp1, "transport") and hasattr(sp2, "transport"):
-                # iterate over transport parameters
-                params = [
-                    a
-                    for a in dir(sp1.transport)
-                    if not a.startswith("__")
-                    and not callable(getattr(sp1.transport, a))
-                ]
-                for attr in params:
-                    if getattr(sp1.transport, attr) != getattr(
-                        sp2.transport, attr, 0.0
-                    ):
-                        return False
-            else:
+        # transport data are optional: only compare those that both models have
+        if sp1.transport is not None and sp2.transport is not None:
+            if sp1.transport.geometry != sp2.transport.geometry:
                 return False
 
+            for attr in (
+                "diameter",
+                "well_depth",
+                "dipole",
+                "polarizability",
+                "rotational_relaxation",
+                "acentric_factor",
+                "dispersion_coefficient",
+                "quadrupole_polarizability",
+            ):
+                if not np.isclose(
+                    getattr(sp1.transport, attr),
+                    getattr(sp2.transport, attr),
+                    rtol=1e-5,
+                    atol=0.0,
+                ):
+                    return False
+
     for rxn1, rxn2 in zip(
-        sorted(model1.reactions(), key=attrgetter("equation")),
-        sorted(model2.reactions(), key=attrgetter("equation")),
+        sorted(model1.reactions(), key=_reaction_key),
+        sorted(model2.reactions(), key=_reaction_key),
     ):
         if rxn1.reaction_type != rxn2.reaction_type:
             return False
@@ -80,6 +129,11 @@ def compare_models(model1, model2):
         if rxn1.products != rxn2.products:
             return False
 
+        if rxn1.reversible != rxn2.reversible:
+            return False
+        if rxn1.orders != rxn2.orders:
+            return False
+
         if rxn1.duplicate != rxn2.duplicate:
             return False
 
@@ -98,15 +152,23 @@ def compare_models(model1, model2):
                     "temperature_exponent",
                     "activation_energy",
                 ):
-                    if not np.isclose(getattr(lo1, attr, 0.0), getattr(lo2, attr, 0.0)):
+                    if not np.isclose(
+                        getattr(lo1, attr, 0.0), getattr(lo2, attr, 0.0), atol=0.0
+                    ):
                         return False
-                    if not np.isclose(getattr(hi1, attr, 0.0), getattr(hi2, attr, 0.0)):
+                    if not np.isclose(
+                        getattr(hi1, attr, 0.0), getattr(hi2, attr, 0.0), atol=0.0
+                    ):
                         return False
                 # falloff parameters (Troe, SRI, …)
                 if hasattr(rate1, "falloff_coeffs") and hasattr(
                     rate2, "falloff_coeffs"
                 ):
-                    if not np.allclose(rate1.falloff_coeffs, rate2.falloff_coeffs):
+                    if len(rate1.falloff_coeffs) != len(rate2.falloff_coeffs):
+                        return False
+                    if not np.allclose(
+                        rate1.falloff_coeffs, rate2.falloff_coeffs, atol=0.0
+                    ):
                         return False
 
             # Plog: compare pressure-dependent rate table
@@ -127,7 +189,7 @@ def compare_models(model1, model2):
                         "activation_energy",
                     ):
                         if not np.isclose(
-                            getattr(r1, attr, 0.0), getattr(r2, attr, 0.0)
+                            getattr(r1, attr, 0.0), getattr(r2, attr, 0.0), atol=0.0
                         ):
                             return False
 
@@ -137,6 +199,8 @@ def compare_models(model1, model2):
                     return False
                 if not np.allclose(rate1.temperature_range, rate2.temperature_range):
                     return False
+                if rate1.data.shape != rate2.data.shape:
+                    return False
                 if not np.allclose(rate1.data, rate2.data):
                     return False
 
@@ -146,9 +210,10 @@ def compare_models(model1, model2):
                     "pre_exponential_factor",
                     "temperature_exponent",
                     "activation_energy",
+                    "bond_energy",
                 ):
                     if not np.isclose(
-                        getattr(rate1, attr, 0.0), getattr(rate2, attr, 0.0)
+                        getattr(rate1, attr, 0.0), getattr(rate2, attr, 0.0), atol=0.0
                     ):
                         return False
 
-- 
2.43.0


From e368037fbc2ea188c1d4257c0f6f5bef67180762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:53 +0000
Subject: [PATCH 20/33] fix: write no removed collision partners when none is
 left

---
 src/pymars/reduce_model.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pymars/reduce_model.py b/src/pymars/reduce_model.py
index 4607bb9..799c881 100644
--- a/src/pymars/reduce_model.py
+++ b/src/pymars/reduce_model.py
@@ -63,6 +63,9 @@ def trim(initial_model_file, exclusion_list, new_model_file, phase_name=""):
                     for sp, val in tb.efficiencies.items()
                     if sp in final_species_names
                 }
+                # otherwise, the input efficiencies would be written for the model
+                if not tb.efficiencies:
+                    reaction.clear_user_data()
             final_reactions.append(reaction)
 
     # Create new solution based on remaining species and reactions. Preserve the
-- 
2.43.0


From c7b6e7ff406a77b12d8955d36d878f9fe91f8fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:34 +0000
Subject: [PATCH 21/33] fix: keep the PSR continuation on the burning branch

Near the turning point the corrector could converge to a point of the
extinguished branch, far from the predicted one, and the curve went on
from there; reject such points and shorten the step.
---
 src/pymars/psr_solver.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pymars/psr_solver.py b/src/pymars/psr_solver.py
index 49f2bf8..b721a56 100644
--- a/src/pymars/psr_solver.py
+++ b/src/pymars/psr_solver.py
@@ -299,7 +299,10 @@ def trace_extinction_curve(
             return np.vstack([core_jac(u), _t])
 
         u_new, ok = correct(augmented_res, augmented_jac, u_prev + ds * tangent)
-        if not ok:
+        # a solution far from the predicted one lies on another branch
+        if not ok or np.linalg.norm(u_new - u_prev - ds * tangent) > np.linalg.norm(
+            u_prev - u_pp
+        ):
             ds *= 0.5
             if ds < ds_min:
                 break
-- 
2.43.0


From 0a029481f083e7947207aaa257aace2b85b5cb75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:35 +0000
Subject: [PATCH 22/33] fix: end ignition simulations before the time overflows

A candidate model in which nothing reacts lets the time steps grow until
the time overflows, and the integrator then never returned; this now
counts as a failed integration.
---
 src/pymars/simulation.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/pymars/simulation.py b/src/pymars/simulation.py
index d6a1f64..eb18541 100644
--- a/src/pymars/simulation.py
+++ b/src/pymars/simulation.py
@@ -185,6 +185,11 @@ class IgnitionSimulation(BaseSimulation):
 
     """
 
+    #: Simulated time (s) beyond which integration fails. When nothing reacts anymore
+    #: the time steps grow without bound, and the integrator never returns once the
+    #: time overflows.
+    max_time = 1.0e100
+
     def setup_case(self):
         """Initialize simulation case."""
         self._setup_gas()
@@ -237,6 +242,8 @@ class IgnitionSimulation(BaseSimulation):
             derivatives, as can happen for a degenerate reduced model).
 
         """
+        if self.sim.time > self.max_time:
+            raise ct.CanteraError(f"No steady state found after {self.sim.time:.3g} s")
         return self.sim.step()
 
     def run_case(self, stop_at_ignition=False, restart=False):
-- 
2.43.0


From abb1009bdd520559a2e8b42d364ddbea85a58b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:53 +0000
Subject: [PATCH 23/33] fix: stop the sensitivity analysis when the starting
 model fails

Without a graph method before it, the metrics of a failing case are zero;
the analysis went on and returned a model that was never measured.
---
 src/pymars/sensitivity_analysis.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pymars/sensitivity_analysis.py b/src/pymars/sensitivity_analysis.py
index eb9ebc3..21b6e5c 100644
--- a/src/pymars/sensitivity_analysis.py
+++ b/src/pymars/sensitivity_analysis.py
@@ -174,6 +174,11 @@ def run_sa(
         num_threads=num_threads,
         path=path,
     )
+    # no error can be measured against a starting model that fails
+    if not np.all(initial_metrics):
+        raise RuntimeError(
+            "No ignition, extinction curve, or flame detected for the starting model"
+        )
 
     if not species_limbo:
         species_limbo = [
-- 
2.43.0


From ebbadcfc4aa429545cde343b00f77cc35e3e9fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:18 +0000
Subject: [PATCH 24/33] fix: reject models whose flames release no heat

---
 src/pymars/simulation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pymars/simulation.py b/src/pymars/simulation.py
index eb18541..5c21de5 100644
--- a/src/pymars/simulation.py
+++ b/src/pymars/simulation.py
@@ -547,7 +547,9 @@ class FlameSimulation(BaseSimulation):
         """
         try:
             speed = self._solve_flame()
-        except ct.CanteraError:
+        except (ct.CanteraError, IndexError):
+            # without heat release, Cantera finds no fixed-temperature point in its
+            # initial guess, which is an IndexError
             return None
         if speed <= self.min_flame_speed:
             return None
-- 
2.43.0


From c4c797edb6821539d618ba3bd93745d542acfaf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:46 +0000
Subject: [PATCH 25/33] fix: reject models without reactions in PSR cases

---
 src/pymars/psr_solver.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pymars/psr_solver.py b/src/pymars/psr_solver.py
index b721a56..2f218e9 100644
--- a/src/pymars/psr_solver.py
+++ b/src/pymars/psr_solver.py
@@ -190,6 +190,9 @@ def trace_extinction_curve(
         the extinction turning point.
 
     """
+    if not gas.n_reactions:
+        raise RuntimeError("PSR: there is no burning branch without reactions")
+
     pressure = gas.P
     Y_in = gas.Y.copy()
     h_in = gas.enthalpy_mass
-- 
2.43.0


From 188c87d0aec4b954a4c4188c052bd1f65e753774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:56 +0000
Subject: [PATCH 26/33] fix: PFA ignored the upper threshold and never reported
 limbo species

---
 src/pymars/pfa.py    | 10 ++++++----
 src/pymars/pymars.py |  1 +
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/pymars/pfa.py b/src/pymars/pfa.py
index 47eb3e2..9063e01 100644
--- a/src/pymars/pfa.py
+++ b/src/pymars/pfa.py
@@ -247,13 +247,15 @@ def reduce_pfa(
     # If desired, now identify limbo species for future sensitivity analysis
     limbo_species = []
     if threshold_upper:
-        species_retained += trim_pfa(
-            matrix, solution.species_names, species_targets, threshold_upper
-        )
+        species_important = []
+        for matrix in matrices:
+            species_important += trim_pfa(
+                matrix, solution.species_names, species_targets, threshold_upper
+            )
         limbo_species = [
             sp
             for sp in solution.species_names
-            if sp not in (species_retained + species_safe + species_removed)
+            if sp not in (species_important + species_safe + species_removed)
         ]
 
     return ReducedModel(
diff --git a/src/pymars/pymars.py b/src/pymars/pymars.py
index 4d8c89f..6fac6ca 100644
--- a/src/pymars/pymars.py
+++ b/src/pymars/pymars.py
@@ -260,6 +260,7 @@ def main(
             target_species,
             safe_species,
             phase_name=phase_name,
+            threshold_upper=upper_threshold,
             num_threads=num_threads,
             path=path,
             min_flame_speed=min_flame_speed,
-- 
2.43.0


From 7bfcc81ba401b7068c9868aa564857ecc99df97f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:59 +0000
Subject: [PATCH 27/33] fix: sensitivity analysis failed for species with a
 slash in their name

---
 src/pymars/sensitivity_analysis.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/pymars/sensitivity_analysis.py b/src/pymars/sensitivity_analysis.py
index 21b6e5c..69f085f 100644
--- a/src/pymars/sensitivity_analysis.py
+++ b/src/pymars/sensitivity_analysis.py
@@ -78,11 +78,11 @@ def evaluate_species_errors(
             test_model = trim(
                 starting_model.filename,
                 [species],
-                f"reduced_model_{species}.yaml",
+                f"reduced_model_{idx}.yaml",
                 phase_name=phase_name,
             )
             test_model_file = soln2yaml.write(
-                test_model, f"reduced_model_{species}.yaml", path=temp_dir
+                test_model, f"reduced_model_{idx}.yaml", path=temp_dir
             )
             reduced_model_metrics = sample_metrics(
                 test_model_file,
@@ -214,15 +214,17 @@ def run_sa(
             species_errors = np.delete(species_errors, idx)
             species_remove = species_limbo.pop(idx)
 
+            # not named after the species, whose name may contain a slash
+            test_model_name = f"reduced_model_{current_model.model.n_species - 1}.yaml"
             test_model = trim(
                 current_model.filename,
                 [species_remove],
-                f"reduced_model_{species_remove}.yaml",
+                test_model_name,
                 phase_name=phase_name,
             )
             test_model_file = soln2yaml.write(
                 test_model,
-                output_filename=f"reduced_model_{species_remove}.yaml",
+                output_filename=test_model_name,
                 path=temp_dir,
             )
 
-- 
2.43.0


From c26c7ba0d87b14a6f1753a8c53a2c4606e76c187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:11:19 +0000
Subject: [PATCH 28/33] fix: compare_models overlooked thermodynamic
 differences between three temperatures

---
 src/pymars/tools.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/pymars/tools.py b/src/pymars/tools.py
index c247946..ee75954 100644
--- a/src/pymars/tools.py
+++ b/src/pymars/tools.py
@@ -94,6 +94,20 @@ def compare_models(model1, model2):
             if not np.isclose(sp1.thermo.s(T_ref), sp2.thermo.s(T_ref), rtol=1e-5):
                 return False
 
+        # these few temperatures do not show differences elsewhere
+        for T in np.linspace(sp1.thermo.min_temp, sp1.thermo.max_temp, 50):
+            scale = 1e-5 * ct.gas_constant
+            if not np.isclose(
+                sp1.thermo.cp(T), sp2.thermo.cp(T), rtol=1e-5, atol=scale
+            ):
+                return False
+            if not np.isclose(
+                sp1.thermo.h(T), sp2.thermo.h(T), rtol=1e-5, atol=scale * T
+            ):
+                return False
+            if not np.isclose(sp1.thermo.s(T), sp2.thermo.s(T), rtol=1e-5, atol=scale):
+                return False
+
         # transport data are optional: only compare those that both models have
         if sp1.transport is not None and sp2.transport is not None:
             if sp1.transport.geometry != sp2.transport.geometry:
-- 
2.43.0


From b9e684369579cc55403e31e6bc05087ff1887c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:52 +0000
Subject: [PATCH 29/33] fix: compare_models ignored the parameters of
 linear-Burke rates

---
 src/pymars/tools.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/pymars/tools.py b/src/pymars/tools.py
index ee75954..b708c19 100644
--- a/src/pymars/tools.py
+++ b/src/pymars/tools.py
@@ -48,6 +48,19 @@ def _reaction_key(reaction):
     )
 
 
+def _same_data(data1, data2):
+    """Checks whether nested input data agree, apart from roundoff."""
+    if isinstance(data1, dict) and isinstance(data2, dict):
+        return data1.keys() == data2.keys() and all(
+            _same_data(data1[key], data2[key]) for key in data1
+        )
+    if isinstance(data1, (list, tuple)) and isinstance(data2, (list, tuple)):
+        return len(data1) == len(data2) and all(map(_same_data, data1, data2))
+    if isinstance(data1, (int, float)) and isinstance(data2, (int, float)):
+        return np.isclose(data1, data2, atol=0.0)
+    return data1 == data2
+
+
 def compare_models(model1, model2):
     """Checks whether two Cantera models are equivalent.
 
@@ -218,6 +231,11 @@ def compare_models(model1, model2):
                 if not np.allclose(rate1.data, rate2.data):
                     return False
 
+            # Rates that only show their parameters as input data (linear-Burke)
+            elif not hasattr(rate1, "pre_exponential_factor"):
+                if not _same_data(rate1.input_data, rate2.input_data):
+                    return False
+
             # Simple Arrhenius (Arrhenius / three-body-Arrhenius)
             else:
                 for attr in (
-- 
2.43.0


From 855995b7ef3526390922f20c17790ddd09a8fc5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:50:08 +0000
Subject: [PATCH 30/33] fix: trim dropped reactions and efficiencies that spell
 species in another case

---
 src/pymars/reduce_model.py | 40 +++++++++++++++++++++++++++++++++++---
 1 file changed, 37 insertions(+), 3 deletions(-)

diff --git a/src/pymars/reduce_model.py b/src/pymars/reduce_model.py
index 799c881..1af3951 100644
--- a/src/pymars/reduce_model.py
+++ b/src/pymars/reduce_model.py
@@ -15,6 +15,30 @@ class ReducedModel(NamedTuple):
     limbo_species: list = []
 
 
+def canonical_name(solution, species):
+    """Return the name under which the model lists a species of a reaction
+
+    Cantera accepts other capitalizations of a species name in reactions.
+
+    Parameters
+    ----------
+    solution : ct.Solution
+        Model that includes the reaction
+    species : str
+        Name of species as given in the reaction
+
+    Returns
+    -------
+    str
+        Name of species in the model, or ``species`` if not part of the model
+
+    """
+    try:
+        return solution.species_name(solution.species_index(species))
+    except ct.CanteraError:
+        return species
+
+
 def trim(initial_model_file, exclusion_list, new_model_file, phase_name=""):
     """Function to eliminate species and corresponding reactions from model
 
@@ -47,7 +71,12 @@ def trim(initial_model_file, exclusion_list, new_model_file, phase_name=""):
         tb = reaction.third_body
         # remove reactions whose explicit third bodies have all been removed
         if tb is not None and not tb.default_efficiency:
-            if all([sp in exclusion_list for sp in tb.efficiencies]):
+            if all(
+                [
+                    canonical_name(solution, sp) in exclusion_list
+                    for sp in tb.efficiencies
+                ]
+            ):
                 continue
 
         reaction_species = (
@@ -55,13 +84,18 @@ def trim(initial_model_file, exclusion_list, new_model_file, phase_name=""):
             + list(reaction.reactants.keys())
             + list(reaction.orders.keys())
         )
-        if all([sp in final_species_names for sp in reaction_species]):
+        if all(
+            [
+                canonical_name(solution, sp) in final_species_names
+                for sp in reaction_species
+            ]
+        ):
             # remove any eliminated species from third-body efficiencies
             if tb is not None:
                 tb.efficiencies = {
                     sp: val
                     for sp, val in tb.efficiencies.items()
-                    if sp in final_species_names
+                    if canonical_name(solution, sp) in final_species_names
                 }
                 # otherwise, the input efficiencies would be written for the model
                 if not tb.efficiencies:
-- 
2.43.0


From 18e988277691ccadd6d569d7df0f36746d81ed3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:53:26 +0000
Subject: [PATCH 31/33] fix: Chemkin files lost efficiencies and species
 spelled in another case

---
 src/pymars/soln2ck.py | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/pymars/soln2ck.py b/src/pymars/soln2ck.py
index 1b1b6f3..0f9d311 100644
--- a/src/pymars/soln2ck.py
+++ b/src/pymars/soln2ck.py
@@ -8,6 +8,9 @@ from textwrap import fill
 
 import cantera as ct
 
+# local imports
+from .reduce_model import canonical_name
+
 # number of calories in 1000 Joules
 CALORIES_CONSTANT = 4184.0
 
@@ -301,7 +304,19 @@ def write(
         for reaction in solution.reactions():
 
             rxn_type = reaction.reaction_type
-            reaction_string = f"{reaction.equation:<50} "
+
+            # spell species in the equation as in the list of species
+            names = {**reaction.reactants, **reaction.products}
+            if reaction.third_body is not None and reaction.third_body.name != "M":
+                names[reaction.third_body.name] = 1.0
+            spelling = {}
+            for sp in names:
+                spelling[sp] = canonical_name(solution, sp)
+                spelling[f"(+{sp})"] = f"(+{spelling[sp]})"
+            equation = " ".join(
+                [spelling.get(token, token) for token in reaction.equation.split(" ")]
+            )
+            reaction_string = f"{equation:<50} "
 
             # explicit orders replace the stoichiometric ones
             reaction_order = sum({**reaction.reactants, **reaction.orders}.values())
@@ -348,9 +363,12 @@ def write(
             # print third-body efficiencies when a third body is present
             if reaction.third_body is not None:
                 tb = reaction.third_body
+                efficiencies = {
+                    canonical_name(solution, s): v for s, v in tb.efficiencies.items()
+                }
                 reduced_efficiencies = {
                     s: v
-                    for s, v in tb.efficiencies.items()
+                    for s, v in efficiencies.items()
                     if s in solution.species_names
                 }
                 # species not listed have an efficiency of one in Chemkin
@@ -422,7 +440,7 @@ def write(
                     reaction_string += f"CHEB / {coeffs_row} /\n"
 
             for sp, order in reaction.orders.items():
-                reaction_string += f"FORD / {sp} {order} /\n"
+                reaction_string += f"FORD / {canonical_name(solution, sp)} {order} /\n"
 
             if reaction.duplicate:
                 reaction_string += "DUPLICATE\n"
-- 
2.43.0


From cae887c6d22fbc440317d8e6b39d1f5ec4eee9f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:29:07 +0000
Subject: [PATCH 32/33] fix: Chemkin files lost the reference pressure of
 entropies

---
 src/pymars/soln2ck.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/pymars/soln2ck.py b/src/pymars/soln2ck.py
index 0f9d311..3f4033a 100644
--- a/src/pymars/soln2ck.py
+++ b/src/pymars/soln2ck.py
@@ -6,6 +6,7 @@ currently only works for Elementary, Falloff and ThreeBody Reactions
 import os
 from textwrap import fill
 
+import numpy as np
 import cantera as ct
 
 # local imports
@@ -172,6 +173,10 @@ def write_thermo_data(species_list, filename="generated_thermo.dat"):
             ):
                 raise NotImplementedError(f"Unsupported composition: {species.name}")
 
+            # Chemkin data refer to one atmosphere, which shifts the entropies
+            coeffs = species.thermo.coeffs.copy()
+            coeffs[[7, 14]] -= np.log(ct.one_atm / species.thermo.reference_pressure)
+
             composition_string = "".join(
                 [f"{s:2}{int(v):>3}" for s, v in species.composition.items()]
             )
@@ -194,14 +199,14 @@ def write_thermo_data(species_list, filename="generated_thermo.dat"):
             )
 
             species_string += (
-                "".join([f"{c:15.8e}" for c in species.thermo.coeffs[6:8]])
+                "".join([f"{c:15.8e}" for c in coeffs[6:8]])
                 + "".join([f"{c:15.8e}" for c in species.thermo.coeffs[8:11]])
                 + "    "
                 + "3\n"
             )
 
             species_string += (
-                "".join([f"{c:15.8e}" for c in species.thermo.coeffs[11:15]])
+                "".join([f"{c:15.8e}" for c in coeffs[11:15]])
                 + 19 * " "
                 + "4\n"
             )
-- 
2.43.0


From f357846accf8bb59f89360bbce457bf1d7a82126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:32:36 +0000
Subject: [PATCH 33/33] fix: Chemkin files lost atomic weights set by the model

---
 src/pymars/soln2ck.py | 32 +++++++++++++++++++++++++++++++-
 1 file changed, 31 insertions(+), 1 deletion(-)

diff --git a/src/pymars/soln2ck.py b/src/pymars/soln2ck.py
index 3f4033a..cd1c04e 100644
--- a/src/pymars/soln2ck.py
+++ b/src/pymars/soln2ck.py
@@ -143,6 +143,34 @@ def build_falloff(parameters, falloff_function):
     return falloff_string
 
 
+def build_element(name, solution):
+    """Builds the declaration of an element, with its weight if it is not the standard one.
+
+    Parameters
+    ----------
+    name : str
+        Symbol of the element
+    solution : cantera.Solution
+        Model that contains the element
+
+    Returns
+    -------
+    str
+        Declaration of the element
+
+    """
+    # refuse what does not fit the fixed columns of the format
+    if len(name) > 2 or name != name.capitalize():
+        raise NotImplementedError(f"Unsupported element: {name}")
+
+    weight = solution.atomic_weight(name)
+    try:
+        standard_weight = ct.Element(name).weight
+    except ct.CanteraError:
+        standard_weight = None
+    return name if weight == standard_weight else f"{name}/{weight!r}/"
+
+
 def write_thermo_data(species_list, filename="generated_thermo.dat"):
     """Writes thermodynamic data to Chemkin-format file.
 
@@ -293,7 +321,9 @@ def write(
         )
 
         # write species and element lists to file
-        element_names = "  ".join(solution.element_names)
+        element_names = "  ".join(
+            [build_element(name, solution) for name in solution.element_names]
+        )
         the_file.write("ELEMENTS\n" + f"{element_names}\n" + "END\n\n")
         species_names = fill(
             "  ".join(solution.species_names),
-- 
2.43.0

