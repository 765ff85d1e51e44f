From 065722bd66d53fb1896106428b7946998f749cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:55 +0000
Subject: [PATCH 01/28] fix: do not reuse placeholder zero metrics when no
 saved output exists

sample_metrics(reuse_saved=True) took the zero-initialised arrays for saved
results when no output file was present, so a sensitivity analysis run on its
own was based on metrics of zero.
---
 src/pymars/sampling.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/pymars/sampling.py b/src/pymars/sampling.py
index 2b22cf8..7185e17 100644
--- a/src/pymars/sampling.py
+++ b/src/pymars/sampling.py
@@ -414,7 +414,11 @@ def sample_metrics(
                 np.genfromtxt(data_files["output_ignition"], delimiter=",")
             )
 
-        if reuse_saved and len(ignition_delays) == len(ignition_conditions):
+        if (
+            reuse_saved
+            and exists_output
+            and len(ignition_delays) == len(ignition_conditions)
+        ):
             logging.info(
                 "Reusing existing autoignition samples for the starting model."
             )
@@ -473,7 +477,11 @@ def sample_metrics(
                 np.genfromtxt(data_files["output_flame"], delimiter=",")
             )
 
-        if reuse_saved and len(flame_speeds) == len(flame_conditions):
+        if (
+            reuse_saved
+            and exists_output
+            and len(flame_speeds) == len(flame_conditions)
+        ):
             logging.info(
                 "Reusing existing laminar flame samples for the starting model."
             )
-- 
2.43.0


From c485e6f049fd6fc3d598fb37c23329c631bc90f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:55 +0000
Subject: [PATCH 02/28] fix: greedy sensitivity analysis no longer fails after
 its last candidate

When the last limbo species was removed successfully, min() was called on an
empty array of errors and the run aborted with ValueError.
---
 src/pymars/sensitivity_analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymars/sensitivity_analysis.py b/src/pymars/sensitivity_analysis.py
index 3eb2bf9..e94d847 100644
--- a/src/pymars/sensitivity_analysis.py
+++ b/src/pymars/sensitivity_analysis.py
@@ -255,7 +255,7 @@ def run_sa(
                     phase_name=phase_name,
                     num_threads=num_threads,
                 )
-                if min(species_errors) > error_limit:
+                if species_limbo and min(species_errors) > error_limit:
                     break
 
     # Final model; may need to rewrite
-- 
2.43.0


From c154a20a4799e9b18f1227c8dc7e21a6984cbf57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:55 +0000
Subject: [PATCH 03/28] fix: sensitivity analysis never removes target or
 retained species

run_sa only honoured species_safe when it built the list of candidates itself.
The limbo species reported by DRG include the targets, so DRG followed by
sensitivity analysis could remove a target species.
---
 src/pymars/sensitivity_analysis.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pymars/sensitivity_analysis.py b/src/pymars/sensitivity_analysis.py
index e94d847..2193675 100644
--- a/src/pymars/sensitivity_analysis.py
+++ b/src/pymars/sensitivity_analysis.py
@@ -179,6 +179,10 @@ def run_sa(
         species_limbo = [
             sp for sp in current_model.model.species_names if sp not in species_safe
         ]
+    else:
+        # never consider protected species (e.g., DRG reports its targets as limbo
+        # species); also leaves the list of the caller untouched
+        species_limbo = [sp for sp in species_limbo if sp not in species_safe]
 
     logging.info(53 * "-")
     logging.info("Number of species |  Species removed  | Max error (%)")
-- 
2.43.0


From 0c2cf37150ba4a4e72ba83c468e5a15fc3915538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:55 +0000
Subject: [PATCH 04/28] fix: keep the limbo species of separate DRGEP runs
 apart

run_drgep appended to the default list shared by every ReducedModel, so a
second reduction in the same process inherited the limbo species of the first.
---
 src/pymars/drgep.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pymars/drgep.py b/src/pymars/drgep.py
index 6fe0849..80cecc6 100644
--- a/src/pymars/drgep.py
+++ b/src/pymars/drgep.py
@@ -530,9 +530,11 @@ def run_drgep(
         )
 
     if threshold_upper:
+        limbo_species = []
         for sp in reduced_model.model.species_names:
             if importance_coeffs[sp] < threshold_upper and (sp not in species_safe):
-                reduced_model.limbo_species.append(sp)
+                limbo_species.append(sp)
+        reduced_model = reduced_model._replace(limbo_species=limbo_species)
 
     logging.info(45 * "-")
     logging.info("DRGEP reduction complete.")
-- 
2.43.0


From 75d0ed5145a44890d0bdc5e4f0ec777ee1b9d18f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:08 +0000
Subject: [PATCH 05/28] fix: graph-based reduction loops end once no species
 can be removed

The loop never ended when even the smallest possible model stays within the
error limit, and the branch meant for that case passed the ReducedModel
container instead of its Cantera solution to the YAML writer.
---
 src/pymars/drg.py   | 9 +++++++--
 src/pymars/drgep.py | 9 +++++++--
 src/pymars/pfa.py   | 9 +++++++--
 3 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/pymars/drg.py b/src/pymars/drg.py
index e40cf5d..dfb0f6d 100644
--- a/src/pymars/drg.py
+++ b/src/pymars/drg.py
@@ -371,6 +371,10 @@ def run_drg(
             limbo_species=reduced_model.limbo_species,
         )
 
+        # stop once only protected species are left, since nothing more can be removed
+        if num_species <= len(set(species_targets) | set(species_safe)):
+            break
+
     if error_current > error_limit:
         threshold -= 2 * threshold_increment
         reduced_model = reduce_drg(
@@ -390,9 +394,10 @@ def run_drg(
             path=path,
         )
     else:
-        soln2yaml.write(
-            reduced_model, f"reduced_{reduced_model.model.n_species}.yaml", path=path
+        filename = soln2yaml.write(
+            reduced_model.model, f"reduced_{num_species}.yaml", path=path
         )
+        reduced_model = reduced_model._replace(filename=filename)
 
     logging.info(45 * "-")
     logging.info("DRG reduction complete.")
diff --git a/src/pymars/drgep.py b/src/pymars/drgep.py
index 80cecc6..933f06d 100644
--- a/src/pymars/drgep.py
+++ b/src/pymars/drgep.py
@@ -508,6 +508,10 @@ def run_drgep(
             limbo_species=reduced_model.limbo_species,
         )
 
+        # stop once only protected species are left, since nothing more can be removed
+        if num_species <= len(set(species_targets) | set(species_safe)):
+            break
+
     if reduced_model.error > error_limit:
         threshold -= 2 * threshold_increment
         reduced_model = reduce_drgep(
@@ -525,9 +529,10 @@ def run_drgep(
             path=path,
         )
     else:
-        soln2yaml.write(
-            reduced_model, f"reduced_{reduced_model.model.n_species}.yaml", path=path
+        filename = soln2yaml.write(
+            reduced_model.model, f"reduced_{num_species}.yaml", path=path
         )
+        reduced_model = reduced_model._replace(filename=filename)
 
     if threshold_upper:
         limbo_species = []
diff --git a/src/pymars/pfa.py b/src/pymars/pfa.py
index b1862ce..905861d 100644
--- a/src/pymars/pfa.py
+++ b/src/pymars/pfa.py
@@ -397,6 +397,10 @@ def run_pfa(
             limbo_species=reduced_model.limbo_species,
         )
 
+        # stop once only protected species are left, since nothing more can be removed
+        if num_species <= len(set(species_targets) | set(species_safe)):
+            break
+
     if reduced_model.error > error_limit:
         threshold -= 2 * threshold_increment
         reduced_model = reduce_pfa(
@@ -416,9 +420,10 @@ def run_pfa(
             path=path,
         )
     else:
-        soln2yaml.write(
-            reduced_model, f"reduced_{reduced_model.model.n_species}.yaml", path=path
+        filename = soln2yaml.write(
+            reduced_model.model, f"reduced_{num_species}.yaml", path=path
         )
+        reduced_model = reduced_model._replace(filename=filename)
 
     logging.info(45 * "-")
     logging.info("PFA reduction complete.")
-- 
2.43.0


From df567c0f18560e6e17e3997d9fc70e6a25e59f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:08 +0000
Subject: [PATCH 06/28] fix: remove the files of candidates rejected before the
 first accepted one

A candidate rejected in the first iteration left its reduced_N.yaml behind,
as did the last one before giving up.
---
 src/pymars/drg.py   | 8 ++++----
 src/pymars/drgep.py | 8 ++++----
 src/pymars/pfa.py   | 8 ++++----
 3 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/pymars/drg.py b/src/pymars/drg.py
index dfb0f6d..99d3df1 100644
--- a/src/pymars/drg.py
+++ b/src/pymars/drg.py
@@ -343,6 +343,10 @@ def run_drg(
         error_current = reduced_model.error
         num_species = reduced_model.model.n_species
 
+        # cleanup files
+        if previous_model.model.n_species != reduced_model.model.n_species:
+            os.remove(reduced_model.filename)
+
         # reduce threshold if past error limit on first iteration
         if first and error_current > error_limit:
             error_current = 0.0
@@ -360,10 +364,6 @@ def run_drg(
         threshold += threshold_increment
         first = False
 
-        # cleanup files
-        if previous_model.model.n_species != reduced_model.model.n_species:
-            os.remove(reduced_model.filename)
-
         previous_model = ReducedModel(
             model=reduced_model.model,
             filename=reduced_model.filename,
diff --git a/src/pymars/drgep.py b/src/pymars/drgep.py
index 933f06d..bec5e80 100644
--- a/src/pymars/drgep.py
+++ b/src/pymars/drgep.py
@@ -480,6 +480,10 @@ def run_drgep(
         error_current = reduced_model.error
         num_species = reduced_model.model.n_species
 
+        # cleanup files
+        if previous_model.model.n_species != reduced_model.model.n_species:
+            os.remove(reduced_model.filename)
+
         # reduce threshold if past error limit on first iteration
         if first and error_current > error_limit:
             error_current = 0.0
@@ -497,10 +501,6 @@ def run_drgep(
         threshold += threshold_increment
         first = False
 
-        # cleanup files
-        if previous_model.model.n_species != reduced_model.model.n_species:
-            os.remove(reduced_model.filename)
-
         previous_model = ReducedModel(
             model=reduced_model.model,
             filename=reduced_model.filename,
diff --git a/src/pymars/pfa.py b/src/pymars/pfa.py
index 905861d..167b4e7 100644
--- a/src/pymars/pfa.py
+++ b/src/pymars/pfa.py
@@ -369,6 +369,10 @@ def run_pfa(
         error_current = reduced_model.error
         num_species = reduced_model.model.n_species
 
+        # cleanup files
+        if previous_model.model.n_species != reduced_model.model.n_species:
+            os.remove(reduced_model.filename)
+
         # reduce threshold if past error limit on first iteration
         if first and error_current > error_limit:
             error_current = 0.0
@@ -386,10 +390,6 @@ def run_pfa(
         threshold += threshold_increment
         first = False
 
-        # cleanup files
-        if previous_model.model.n_species != reduced_model.model.n_species:
-            os.remove(reduced_model.filename)
-
         previous_model = ReducedModel(
             model=reduced_model.model,
             filename=reduced_model.filename,
-- 
2.43.0


From c180fd9868f9ef0a738f6416ec773b6170b4d2c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:08 +0000
Subject: [PATCH 07/28] fix: DRGEP never removes target species

Targets have an importance of 1.0, so a threshold above 1 removed them; they
were also reported as limbo species for upper thresholds above 1.
---
 src/pymars/drgep.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pymars/drgep.py b/src/pymars/drgep.py
index bec5e80..98883c8 100644
--- a/src/pymars/drgep.py
+++ b/src/pymars/drgep.py
@@ -425,6 +425,9 @@ def run_drgep(
     solution = ct.Solution(model_file, phase_name)
     assert species_targets, "Need to specify at least one target species."
 
+    # targets are always kept, even when the threshold grows past their coefficient of 1
+    species_safe = list(species_targets) + list(species_safe)
+
     # first, sample thermochemical data and generate metrics for measuring error
     # (e.g, ignition delays). Also produce adjacency matrices for graphs, which
     # will be used to produce graphs for any threshold value.
@@ -509,7 +512,7 @@ def run_drgep(
         )
 
         # stop once only protected species are left, since nothing more can be removed
-        if num_species <= len(set(species_targets) | set(species_safe)):
+        if num_species <= len(set(species_safe)):
             break
 
     if reduced_model.error > error_limit:
-- 
2.43.0


From 651fa71a09f88a837e2ea469ec21216d2d6d9363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:31 +0000
Subject: [PATCH 08/28] fix: sensitivity analysis reports where it saved the
 final model

The reported filename left out the output path.
---
 src/pymars/sensitivity_analysis.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pymars/sensitivity_analysis.py b/src/pymars/sensitivity_analysis.py
index 2193675..f4d1031 100644
--- a/src/pymars/sensitivity_analysis.py
+++ b/src/pymars/sensitivity_analysis.py
@@ -263,12 +263,14 @@ def run_sa(
                     break
 
     # Final model; may need to rewrite
+    filename = soln2yaml.write(
+        current_model.model, f"reduced_{current_model.model.n_species}.yaml", path=path
+    )
     reduced_model = ReducedModel(
         model=current_model.model,
-        filename=f"reduced_{current_model.model.n_species}.yaml",
+        filename=filename,
         error=current_model.error,
     )
-    soln2yaml.write(reduced_model.model, reduced_model.filename, path=path)
 
     logging.info(53 * "-")
     logging.info("Sensitivity analysis stage complete.")
-- 
2.43.0


From a3853b435a5dc59ca53c8cc652045efca5d117b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:31 +0000
Subject: [PATCH 09/28] fix: honour command-line arguments passed explicitly

---
 src/pymars/__main__.py | 2 +-
 src/pymars/pymars.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymars/__main__.py b/src/pymars/__main__.py
index 6de4472..c518a12 100644
--- a/src/pymars/__main__.py
+++ b/src/pymars/__main__.py
@@ -8,7 +8,7 @@ from .pymars import pymars
 def main(args=None):
     if args is None:
         args = sys.argv[1:]
-        pymars(args)
+    pymars(args)
 
 
 if __name__ == "__main__":
diff --git a/src/pymars/pymars.py b/src/pymars/pymars.py
index 12302a3..aa9e109 100644
--- a/src/pymars/pymars.py
+++ b/src/pymars/pymars.py
@@ -350,7 +350,7 @@ def pymars(argv):
         parser.print_help()
         sys.exit(1)
 
-    args = parser.parse_args()
+    args = parser.parse_args(argv)
 
     if args.version:
         from ._version import __version__
-- 
2.43.0


From a92756ed4acddcffb03edb47fbb5aabb1d6af373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:31 +0000
Subject: [PATCH 10/28] fix: reduce models given in Chemkin format

The input was parsed, which loads the model with Cantera, before converting the
Chemkin file, and the converted name was assigned to a read-only field.
---
 src/pymars/pymars.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/pymars/pymars.py b/src/pymars/pymars.py
index aa9e109..4e1c155 100644
--- a/src/pymars/pymars.py
+++ b/src/pymars/pymars.py
@@ -379,12 +379,15 @@ def pymars(argv):
         with open(args.input, "r") as the_file:
             input_dict = yaml.safe_load(the_file)
 
-        inputs = parse_inputs(input_dict)
-
         # Check for Chemkin format and convert if needed
-        if os.path.splitext(inputs.model)[1] not in (".yaml", ".yml"):
+        model = input_dict.get("model", "")
+        if model and os.path.splitext(model)[1] not in (".yaml", ".yml"):
             logging.info("Chemkin file detected; converting before reduction.")
-            inputs.model = convert(inputs.model, args.thermo, args.transport, args.path)
+            input_dict["model"] = convert(
+                model, args.thermo, args.transport, args.path
+            )
+
+        inputs = parse_inputs(input_dict)
 
         main(
             inputs.model,
-- 
2.43.0


From 91da39411e1519c4002ec51d7a924f2055dc5647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:12 +0000
Subject: [PATCH 11/28] fix: export Troe falloff reactions with three
 parameters

---
 src/pymars/soln2ck.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/pymars/soln2ck.py b/src/pymars/soln2ck.py
index a40128d..81e93fa 100644
--- a/src/pymars/soln2ck.py
+++ b/src/pymars/soln2ck.py
@@ -128,10 +128,8 @@ def build_falloff(parameters, falloff_function):
 
     """
     if falloff_function == "Troe":
-        falloff_string = (
-            "TROE / " + f"{parameters[0]}  {parameters[1]}  "
-            f"{parameters[2]}  {parameters[3]} /\n"
-        )
+        # the fourth parameter (T2) is optional
+        falloff_string = "TROE / " + "  ".join([f"{p}" for p in parameters]) + " /\n"
     elif falloff_function == "SRI":
         falloff_string = (
             "SRI / "
-- 
2.43.0


From fff15e34841b6f9e311a2307f51ec1dd0329c6e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:12 +0000
Subject: [PATCH 12/28] fix: convert units of Chebyshev rates exported to
 Chemkin

Rates of reactions that are not unimolecular were off by powers of 1000.
---
 src/pymars/soln2ck.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pymars/soln2ck.py b/src/pymars/soln2ck.py
index 81e93fa..e90092b 100644
--- a/src/pymars/soln2ck.py
+++ b/src/pymars/soln2ck.py
@@ -397,7 +397,11 @@ def write(
                     f"{cheb.pressure_range[1] / ct.one_atm} /\n"
                     + f"CHEB / {cheb.n_temperature}  {cheb.n_pressure} /\n"
                 )
-                for coeffs in cheb.data:
+                # the leading coefficient is log10 of the rate constant, so it carries
+                # the conversion of units from kmol/m^3 to mol/cm^3
+                cheb_data = cheb.data.copy()
+                cheb_data[0, 0] += 3.0 * (sum(reaction.reactants.values()) - 1.0)
+                for coeffs in cheb_data:
                     coeffs_row = " ".join([f"{c:.6e}" for c in coeffs])
                     reaction_string += f"CHEB / {coeffs_row} /\n"
 
-- 
2.43.0


From 65d4c6fa2424742d069c972b47fad2269e58ffc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:17 +0000
Subject: [PATCH 13/28] fix: sample every fraction of a steep temperature rise

Only one fraction was sampled per profile point, so a rise within few points left
rows of zeros (no valid state) at the end of the sampled data.
---
 src/pymars/simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymars/simulation.py b/src/pymars/simulation.py
index 2ec2451..46e9e42 100644
--- a/src/pymars/simulation.py
+++ b/src/pymars/simulation.py
@@ -127,7 +127,7 @@ class BaseSimulation(ABC):
         for point in range(len(temperatures)):
             if idx >= len(deltas):
                 break
-            if temperatures[point] >= temperature_initial + (
+            while idx < len(deltas) and temperatures[point] >= temperature_initial + (
                 deltas[idx] * temperature_diff
             ):
                 sampled_data[idx, 0:2] = [temperatures[point], pressures[point]]
-- 
2.43.0


From 2b9879ce77b73192bb2c045f1481d07210db33e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:17 +0000
Subject: [PATCH 14/28] fix: leave the retained species of the given inputs
 unchanged

Species of the initial conditions were appended to the list of the caller, which
may be the list of targets as well.
---
 src/pymars/pymars.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymars/pymars.py b/src/pymars/pymars.py
index 4e1c155..92afd01 100644
--- a/src/pymars/pymars.py
+++ b/src/pymars/pymars.py
@@ -89,7 +89,7 @@ def parse_inputs(input_dict):
         upper_threshold = 0.1
     sensitivity_type = input_dict.get("sensitivity-type", "initial")
 
-    safe_species = input_dict.get("retained-species", [])
+    safe_species = list(input_dict.get("retained-species", []))
 
     phase_name = input_dict.get("phase-name", "")
 
-- 
2.43.0


From 9d6fe3786bd16c03cbdbeb69b40c138693d4f400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:57 +0000
Subject: [PATCH 15/28] fix: identify the limbo species of PFA

Everything retained at the lower threshold was excluded, so no species was left,
and only the last sampled state was considered.
---
 src/pymars/pfa.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/pymars/pfa.py b/src/pymars/pfa.py
index 167b4e7..f26de86 100644
--- a/src/pymars/pfa.py
+++ b/src/pymars/pfa.py
@@ -247,13 +247,15 @@ def reduce_pfa(
     # If desired, now identify limbo species for future sensitivity analysis
     limbo_species = []
     if threshold_upper:
-        species_retained += trim_pfa(
-            matrix, solution.species_names, species_targets, threshold_upper
-        )
+        species_important = []
+        for matrix in matrices:
+            species_important += trim_pfa(
+                matrix, solution.species_names, species_targets, threshold_upper
+            )
         limbo_species = [
             sp
             for sp in solution.species_names
-            if sp not in (species_retained + species_safe + species_removed)
+            if sp not in (species_important + species_safe + species_removed)
         ]
 
     return ReducedModel(
-- 
2.43.0


From b19b80eb6a89e915344c22dd4c4302ba9a4f57f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:36 +0000
Subject: [PATCH 16/28] fix: accept ignition cases that converge in their last
 allowed step

---
 src/pymars/simulation.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/pymars/simulation.py b/src/pymars/simulation.py
index 46e9e42..c5682cd 100644
--- a/src/pymars/simulation.py
+++ b/src/pymars/simulation.py
@@ -335,8 +335,7 @@ class IgnitionSimulation(BaseSimulation):
 
                     if residual < residual_threshold:
                         break
-
-                if step == self.max_steps - 1:
+                else:
                     logging.error(
                         "Maximum number of steps reached before "
                         f"convergence for ignition case {self.idx}"
-- 
2.43.0


From 248ab47fab22a5569295caf0bb7e612846157ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:53 +0000
Subject: [PATCH 17/28] fix: drop the efficiencies of eliminated species from
 written models

When no efficiency remained, Cantera wrote the original ones again, and the
reduced model could not be read.
---
 src/pymars/reduce_model.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pymars/reduce_model.py b/src/pymars/reduce_model.py
index 9cd93ba..0a50437 100644
--- a/src/pymars/reduce_model.py
+++ b/src/pymars/reduce_model.py
@@ -64,6 +64,9 @@ def trim(initial_model_file, exclusion_list, new_model_file, phase_name=""):
                     for sp, val in tb.efficiencies.items()
                     if sp in final_species_names
                 }
+                if not tb.efficiencies:
+                    # otherwise the original efficiencies would be written to file
+                    reaction.clear_user_data()
             final_reactions.append(reaction)
 
     # Create new solution based on remaining species and reactions. Preserve the
-- 
2.43.0


From 06a7296e897253231cd8dd6b694dfc3c941546c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:32 +0000
Subject: [PATCH 18/28] fix: recognise an unchanged DRG or PFA candidate that
 keeps unreached safe species

Such a candidate was evaluated and written again at every threshold, and its
file stayed behind after the reduction.
---
 src/pymars/drg.py | 9 ++++++---
 src/pymars/pfa.py | 9 ++++++---
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/pymars/drg.py b/src/pymars/drg.py
index 99d3df1..30b8d14 100644
--- a/src/pymars/drg.py
+++ b/src/pymars/drg.py
@@ -191,15 +191,18 @@ def reduce_drg(
     # want to ensure retained species are the set of those reachable for each state
     species_retained = list(set(species_retained))
 
-    if previous_model and len(species_retained) == previous_model.model.n_species:
-        return previous_model
-
     species_removed = [
         sp
         for sp in solution.species_names
         if sp not in (species_retained + species_safe)
     ]
 
+    if (
+        previous_model
+        and len(species_removed) == solution.n_species - previous_model.model.n_species
+    ):
+        return previous_model
+
     # Cut the exclusion list from the model.
     reduced_model = trim(
         model_file, species_removed, f"reduced_{model_file}", phase_name=phase_name
diff --git a/src/pymars/pfa.py b/src/pymars/pfa.py
index f26de86..e4ddab6 100644
--- a/src/pymars/pfa.py
+++ b/src/pymars/pfa.py
@@ -215,15 +215,18 @@ def reduce_pfa(
     # want to ensure retained species are the set of those reachable for each state
     species_retained = list(set(species_retained))
 
-    if previous_model and len(species_retained) == previous_model.model.n_species:
-        return previous_model
-
     species_removed = [
         sp
         for sp in solution.species_names
         if sp not in (species_retained + species_safe)
     ]
 
+    if (
+        previous_model
+        and len(species_removed) == solution.n_species - previous_model.model.n_species
+    ):
+        return previous_model
+
     # Cut the exclusion list from the model.
     reduced_model = trim(
         model_file, species_removed, f"reduced_{model_file}", phase_name=phase_name
-- 
2.43.0


From e91f30445a5250e4654d7fd6ac04fdc1f89f20a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:32 +0000
Subject: [PATCH 19/28] fix: run the simulations anew when the saved samples
 are incomplete

Sampled data with a single row, an empty file or a truncated table ended in an
error instead of being recognised as not fitting.
---
 src/pymars/sampling.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/pymars/sampling.py b/src/pymars/sampling.py
index 7185e17..6114a11 100644
--- a/src/pymars/sampling.py
+++ b/src/pymars/sampling.py
@@ -305,6 +305,18 @@ def calculate_error(metrics_original, metrics_test):
     return error
 
 
+def _read_saved_data(filename):
+    """Reads saved sampled data, always as a two-dimensional array.
+
+    Data that are not a complete table (e.g., from an interrupted run) are returned
+    as an array that fits no number of cases.
+    """
+    try:
+        return np.atleast_2d(np.genfromtxt(filename, delimiter=","))
+    except ValueError:
+        return np.zeros((0, 0))
+
+
 def read_metrics(ignition_conditions, psr_conditions=[], flame_conditions=[]):
     """Reads in stored already-sampled metrics.
 
@@ -570,7 +582,7 @@ def sample(
             ignition_delays = np.genfromtxt(
                 data_files["output_ignition"], delimiter=","
             )
-            ignition_data = np.genfromtxt(data_files["data_ignition"], delimiter=",")
+            ignition_data = _read_saved_data(data_files["data_ignition"])
             # need to check that saved data at least matches the number of cases
             matches_number = ignition_delays.size == len(
                 ignition_conditions
@@ -622,7 +634,7 @@ def sample(
             psr_metrics = np.atleast_1d(
                 np.genfromtxt(data_files["output_psr"], delimiter=",")
             )
-            psr_data = np.genfromtxt(data_files["data_psr"], delimiter=",")
+            psr_data = _read_saved_data(data_files["data_psr"])
             matches_number = psr_metrics.size == n_psr_metrics and psr_data.shape[
                 0
             ] / n_rows == len(psr_conditions)
@@ -667,7 +679,7 @@ def sample(
             flame_speeds = np.atleast_1d(
                 np.genfromtxt(data_files["output_flame"], delimiter=",")
             )
-            flame_data = np.genfromtxt(data_files["data_flame"], delimiter=",")
+            flame_data = _read_saved_data(data_files["data_flame"])
             # need to check that saved data at least matches the number of cases
             matches_number = flame_speeds.size == len(
                 flame_conditions
-- 
2.43.0


From fe82dd7accfc1d995772b2f6c30b757de6c66ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:30 +0000
Subject: [PATCH 20/28] fix: pass the upper threshold to PFA

The documentation offers it for every graph-based method, but sensitivity
analysis after PFA considered all species instead.
---
 src/pymars/pymars.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pymars/pymars.py b/src/pymars/pymars.py
index 92afd01..9434a34 100644
--- a/src/pymars/pymars.py
+++ b/src/pymars/pymars.py
@@ -192,7 +192,7 @@ def main(
         Flag to run sensitivity analysis after completing another method.
     upper_threshold : float, optional
         Upper threshold (epsilon^*) used to determine species for sensitivity analysis
-        in combination with DRG or DRGEP method
+        in combination with a graph-based method
     sensitivity_type : {'initial', 'greedy'}, optional
         Type of sensitivity analysis
     path : str
@@ -255,6 +255,7 @@ def main(
             target_species,
             safe_species,
             phase_name=phase_name,
+            threshold_upper=upper_threshold,
             num_threads=num_threads,
             path=path,
             min_flame_speed=min_flame_speed,
-- 
2.43.0


From d2263bffc91b4f89c11e4bf7acd84d0b0e1e779d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:03 +0000
Subject: [PATCH 21/28] fix: compare falloff and Chebyshev data of different
 size without an exception

---
 src/pymars/tools.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pymars/tools.py b/src/pymars/tools.py
index 7f244da..6d6aa87 100644
--- a/src/pymars/tools.py
+++ b/src/pymars/tools.py
@@ -106,6 +106,8 @@ def compare_models(model1, model2):
                 if hasattr(rate1, "falloff_coeffs") and hasattr(
                     rate2, "falloff_coeffs"
                 ):
+                    if np.shape(rate1.falloff_coeffs) != np.shape(rate2.falloff_coeffs):
+                        return False
                     if not np.allclose(rate1.falloff_coeffs, rate2.falloff_coeffs):
                         return False
 
@@ -137,6 +139,8 @@ def compare_models(model1, model2):
                     return False
                 if not np.allclose(rate1.temperature_range, rate2.temperature_range):
                     return False
+                if np.shape(rate1.data) != np.shape(rate2.data):
+                    return False
                 if not np.allclose(rate1.data, rate2.data):
                     return False
 
-- 
2.43.0


From 5d66438fdf06a0a367e03d1c71e37320f1277ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:03 +0000
Subject: [PATCH 22/28] fix: compare reversibility and reaction orders of
 reactions

---
 src/pymars/tools.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pymars/tools.py b/src/pymars/tools.py
index 6d6aa87..d29947b 100644
--- a/src/pymars/tools.py
+++ b/src/pymars/tools.py
@@ -80,6 +80,11 @@ def compare_models(model1, model2):
         if rxn1.products != rxn2.products:
             return False
 
+        if rxn1.reversible != rxn2.reversible:
+            return False
+        if rxn1.orders != rxn2.orders:
+            return False
+
         if rxn1.duplicate != rxn2.duplicate:
             return False
 
-- 
2.43.0


From 243ca3fb56fcce27351c43b4ee67346eb9c7ae08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:22 +0000
Subject: [PATCH 23/28] fix: compare rate parameters without an absolute
 tolerance

---
 src/pymars/tools.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/pymars/tools.py b/src/pymars/tools.py
index d29947b..00c73d3 100644
--- a/src/pymars/tools.py
+++ b/src/pymars/tools.py
@@ -103,9 +103,14 @@ def compare_models(model1, model2):
                     "temperature_exponent",
                     "activation_energy",
                 ):
-                    if not np.isclose(getattr(lo1, attr, 0.0), getattr(lo2, attr, 0.0)):
+                    # no absolute tolerance: pre-exponential factors can be tiny
+                    if not np.isclose(
+                        getattr(lo1, attr, 0.0), getattr(lo2, attr, 0.0), atol=0.0
+                    ):
                         return False
-                    if not np.isclose(getattr(hi1, attr, 0.0), getattr(hi2, attr, 0.0)):
+                    if not np.isclose(
+                        getattr(hi1, attr, 0.0), getattr(hi2, attr, 0.0), atol=0.0
+                    ):
                         return False
                 # falloff parameters (Troe, SRI, …)
                 if hasattr(rate1, "falloff_coeffs") and hasattr(
@@ -134,7 +139,7 @@ def compare_models(model1, model2):
                         "activation_energy",
                     ):
                         if not np.isclose(
-                            getattr(r1, attr, 0.0), getattr(r2, attr, 0.0)
+                            getattr(r1, attr, 0.0), getattr(r2, attr, 0.0), atol=0.0
                         ):
                             return False
 
@@ -157,7 +162,7 @@ def compare_models(model1, model2):
                     "activation_energy",
                 ):
                     if not np.isclose(
-                        getattr(rate1, attr, 0.0), getattr(rate2, attr, 0.0)
+                        getattr(rate1, attr, 0.0), getattr(rate2, attr, 0.0), atol=0.0
                     ):
                         return False
 
-- 
2.43.0


From 7ccc09a324c266458fb38e36bd9b5428877c14ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:22 +0000
Subject: [PATCH 24/28] fix: compare bond energies of Blowers-Masel rates

---
 src/pymars/tools.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pymars/tools.py b/src/pymars/tools.py
index 00c73d3..7ecf315 100644
--- a/src/pymars/tools.py
+++ b/src/pymars/tools.py
@@ -160,6 +160,7 @@ def compare_models(model1, model2):
                     "pre_exponential_factor",
                     "temperature_exponent",
                     "activation_energy",
+                    "bond_energy",  # Blowers-Masel
                 ):
                     if not np.isclose(
                         getattr(rate1, attr, 0.0), getattr(rate2, attr, 0.0), atol=0.0
-- 
2.43.0


From 4ce8b170347bb2297650c4a266864be0eb91acd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:42 +0000
Subject: [PATCH 25/28] fix: compare thermodynamic data over the whole
 temperature range

---
 src/pymars/tools.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/pymars/tools.py b/src/pymars/tools.py
index 7ecf315..748fa8b 100644
--- a/src/pymars/tools.py
+++ b/src/pymars/tools.py
@@ -43,7 +43,16 @@ def compare_models(model1, model2):
         if sp1.composition != sp2.composition:
             return False
 
-        for T_ref in (500.0, 1000.0, 2000.0):
+        thermo1, thermo2 = sp1.thermo, sp2.thermo
+        if not np.allclose(
+            (thermo1.min_temp, thermo1.max_temp),
+            (thermo2.min_temp, thermo2.max_temp),
+        ):
+            return False
+
+        # enough points to tell different polynomials apart in each temperature range
+        T_refs = np.linspace(thermo1.min_temp, thermo1.max_temp, 25)
+        for T_ref in np.append((500.0, 1000.0, 2000.0), T_refs):
             if not np.isclose(sp1.thermo.cp(T_ref), sp2.thermo.cp(T_ref), rtol=1e-5):
                 return False
             if not np.isclose(sp1.thermo.h(T_ref), sp2.thermo.h(T_ref), rtol=1e-5):
-- 
2.43.0


From 960bb394ca515ef7e28a3194452583dd73f4708b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:34 +0000
Subject: [PATCH 26/28] fix: separate long reaction equations from the rate in
 Chemkin files

---
 src/pymars/soln2ck.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymars/soln2ck.py b/src/pymars/soln2ck.py
index e90092b..3d0a6a1 100644
--- a/src/pymars/soln2ck.py
+++ b/src/pymars/soln2ck.py
@@ -293,7 +293,7 @@ def write(
         for reaction in solution.reactions():
 
             rxn_type = reaction.reaction_type
-            reaction_string = f"{reaction.equation:<51}"
+            reaction_string = f"{reaction.equation:<50} "
 
             # The Arrhenius parameters that follow the equation string on the main line
             # depend on the type of reaction.
-- 
2.43.0


From 4c2e6590d12beec37242263e57a46b178f52e6a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:47 +0000
Subject: [PATCH 27/28] fix: export third-body efficiencies of unlisted species
 when they are not one

---
 src/pymars/soln2ck.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pymars/soln2ck.py b/src/pymars/soln2ck.py
index 3d0a6a1..5ceda28 100644
--- a/src/pymars/soln2ck.py
+++ b/src/pymars/soln2ck.py
@@ -342,6 +342,11 @@ def write(
                     for s, v in tb.efficiencies.items()
                     if s in solution.species_names
                 }
+                if tb.name == "M" and tb.default_efficiency != 1.0:
+                    # unlisted species have an efficiency of one in Chemkin
+                    reduced_efficiencies = {
+                        s: tb.efficiency(s) for s in solution.species_names
+                    }
                 efficiencies_str = "  ".join(
                     [f"{s}/{v}/" for s, v in reduced_efficiencies.items()]
                 )
-- 
2.43.0


From 7cced2a009f57f8b0bcb2beb19ed7cf8b1ae5783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:49 +0000
Subject: [PATCH 28/28] fix: keep the default efficiency in files when all
 listed collision partners are removed

---
 src/pymars/reduce_model.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pymars/reduce_model.py b/src/pymars/reduce_model.py
index 0a50437..9077ac3 100644
--- a/src/pymars/reduce_model.py
+++ b/src/pymars/reduce_model.py
@@ -67,6 +67,10 @@ def trim(initial_model_file, exclusion_list, new_model_file, phase_name=""):
                 if not tb.efficiencies:
                     # otherwise the original efficiencies would be written to file
                     reaction.clear_user_data()
+                    if tb.default_efficiency != 1.0:
+                        reaction.update_user_data(
+                            {"default-efficiency": tb.default_efficiency}
+                        )
             final_reactions.append(reaction)
 
     # Create new solution based on remaining species and reactions. Preserve the
-- 
2.43.0

