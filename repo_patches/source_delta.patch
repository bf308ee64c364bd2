From 8fa8413ff55471dd61b59f9f265bc105327c13cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:09:23 +0000
Subject: [PATCH 01/17] fix: measure the requested number of devices of a
 circuit parameter on every lot and chip

---
 gerabaldi/models/devices.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gerabaldi/models/devices.py b/gerabaldi/models/devices.py
index 8c09506..4bfc1a5 100644
--- a/gerabaldi/models/devices.py
+++ b/gerabaldi/models/devices.py
@@ -1180,8 +1180,11 @@ class CircPrmMdl(LatentMdl):
                 arg_vals[arg] = strs_conds[arg]
             elif arg in degraded_prm_vals:
                 arg_vals[arg] = degraded_prm_vals[arg]
+            # Only the first num_samples devices of each chip are measured, indexing style is lot->chp->dev
+            if arg in arg_vals and type(arg_vals[arg]) is np.ndarray:
+                arg_vals[arg] = arg_vals[arg][:, :, :num_samples]
 
-        return self.compute(**arg_vals)[:][:][:num_samples]
+        return self.compute(**arg_vals)
 
     def get_required_prms(self, mdl_prm_list):
         """
-- 
2.43.0


From 7bca1d1c565ca7e1df09a2a9e4d4b3f4a1293b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:09:23 +0000
Subject: [PATCH 02/17] fix: initialize device parameters that the test does
 not measure instead of raising KeyError

---
 gerabaldi/models/devices.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gerabaldi/models/devices.py b/gerabaldi/models/devices.py
index 4bfc1a5..c4436f4 100644
--- a/gerabaldi/models/devices.py
+++ b/gerabaldi/models/devices.py
@@ -1308,16 +1308,16 @@ class DeviceMdl:
         """
         latents, init_mech_vals, init_prm_vals = {}, {}, {}
         for prm in self.prm_mdl_list:
+            # In case the parameter is not directly measured and instead used in calculating other parameters,
+            # ensure that any other parameter will have enough samples for now. Make more efficient in the future.
+            if prm not in sample_counts:
+                sample_counts[prm] = max(sample_counts.values(), default=1)
             # First generate the latent variable values for each model
             latents[prm] = self.prm_mdl(prm).gen_latent_vals(sample_counts[prm], num_chps, num_lots)
             # Now initialize the degradation mechanism progression
             if type(self.prm_mdl(prm)) is DegPrmMdl:
                 init_mech_vals[prm] = self.prm_mdl(prm).gen_init_mech_vals(sample_counts[prm], num_chps, num_lots)
             # Then initialize the un-aged values for the device parameters
-            # In case the parameter is not directly measured and instead used in calculating other parameters,
-            # ensure that any other parameter will have enough samples for now. Make more efficient in the future.
-            if prm not in sample_counts:
-                sample_counts[prm] = max(sample_counts.values())
             if type(self.prm_mdl(prm)) is DegPrmMdl:
                 init_prm_vals[prm] = self.prm_mdl(prm).init_mdl.gen_init_vals(sample_counts[prm], num_chps, num_lots)
         # Return a simulation state containing all the generated initial information about the devices to be tested
-- 
2.43.0


From 6a0aa56c048ec68e1bad9409ca87137ed363b0aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:09:23 +0000
Subject: [PATCH 03/17] fix: restore a distribution centre of zero after
 exporting a latent variable

---
 gerabaldi/models/devices.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerabaldi/models/devices.py b/gerabaldi/models/devices.py
index c4436f4..2a32e2d 100644
--- a/gerabaldi/models/devices.py
+++ b/gerabaldi/models/devices.py
@@ -246,7 +246,7 @@ class LatentVar:
             else:
                 cbi_dist = self.dev_vrtn_mdl.get_cbi_form(target_framework=target_framework)
             # Return the dev_vrtn_mdl centre value to previous if it was changed to avoid any method side effects
-            if old_centre:
+            if old_centre is not None:
                 self.dev_vrtn_mdl.set_centre(old_centre)
             return cbi_dist
         else:
-- 
2.43.0


From 408e63d6fe0d13f56221a9585e81bac76b23bef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:09:23 +0000
Subject: [PATCH 04/17] fix: let the default non-degrading mechanism be
 stressed

---
 gerabaldi/models/devices.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerabaldi/models/devices.py b/gerabaldi/models/devices.py
index 2a32e2d..daa4a3d 100644
--- a/gerabaldi/models/devices.py
+++ b/gerabaldi/models/devices.py
@@ -373,7 +373,7 @@ class MechMdl(LatentMdl):
     ):
         if not mech_eqn:
             # Default is a non-degrading model, parameter stays the same (i.e. 'fresh') regardless of stress and time
-            def no_wear_out():
+            def no_wear_out(time):
                 return unitary_val
 
             mech_eqn = no_wear_out
-- 
2.43.0


From 1f18b7da0328a36526fc65be0ae9d31a3105e96c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:09:23 +0000
Subject: [PATCH 05/17] fix: honour a test seed of zero

---
 gerabaldi/models/random_vars.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerabaldi/models/random_vars.py b/gerabaldi/models/random_vars.py
index 3944970..a809aec 100644
--- a/gerabaldi/models/random_vars.py
+++ b/gerabaldi/models/random_vars.py
@@ -30,7 +30,7 @@ class RandomVar:
         if dist_type:
             self._dist_type = dist_type
         # Test seed is used to make the random variable sampling reproducible for testing purposes only
-        if test_seed:
+        if test_seed is not None:
             self._generator = getattr(np.random.default_rng(seed=test_seed), self._dist_type)
         else:
             self._generator = getattr(np.random.default_rng(), self._dist_type)
-- 
2.43.0


From 1b73f9eea6a177cb89a1eb27d0264efa41314baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:09:23 +0000
Subject: [PATCH 06/17] fix: let finite precision instruments measure NaN
 values instead of raising ValueError

---
 gerabaldi/models/phys_envs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerabaldi/models/phys_envs.py b/gerabaldi/models/phys_envs.py
index 58b006d..4f8bca3 100644
--- a/gerabaldi/models/phys_envs.py
+++ b/gerabaldi/models/phys_envs.py
@@ -84,7 +84,7 @@ class MeasInstrument:
             # The calculation for determining the sig figs -> decimal places is pretty standard and widely explained
             # Ternary operator is used to handle special cases that cause the rounding to fail otherwise
             meas_vals = meas_vals.apply(
-                lambda x: x if x == 0 or np.isinf(x) else np.round(x, self._precision - int(floor(log10(abs(x)))) - 1)
+                lambda x: x if x == 0 or not np.isfinite(x) else np.round(x, self._precision - int(floor(log10(abs(x)))) - 1)
             )
         if self._range:
             # If the measured value exceeds the measurement range then force it to the limit
-- 
2.43.0


From 033714f9f4ad95ffefbb186e3f283403c0a3475b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:09:23 +0000
Subject: [PATCH 07/17] fix: replace the default stream handler when a custom
 one is configured

---
 gerabaldi/helpers.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/gerabaldi/helpers.py b/gerabaldi/helpers.py
index 09af102..5fb6d94 100644
--- a/gerabaldi/helpers.py
+++ b/gerabaldi/helpers.py
@@ -77,10 +77,11 @@ def configure_logger(
     existing_stream_handler = None
     existing_file_handler = None
     for handler in logger.handlers:
-        if type(handler) is logging.StreamHandler and type(handler) is not logging.FileHandler:
-            existing_stream_handler = handler
-        elif type(handler) is logging.FileHandler:
+        # File handlers are also stream handlers, and the default stream handler is a subclass of logging.StreamHandler
+        if isinstance(handler, logging.FileHandler):
             existing_file_handler = handler
+        elif isinstance(handler, logging.StreamHandler):
+            existing_stream_handler = handler
 
     # If the user provided a custom stream handler, remove the default one, add the custom one
     if stream_handler:
-- 
2.43.0


From ed77013b1b77b354807c60c4df0cf4e57eb6cbd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:09:23 +0000
Subject: [PATCH 08/17] fix: leave the device counts passed to gen_init_state
 untouched

---
 gerabaldi/sim.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gerabaldi/sim.py b/gerabaldi/sim.py
index d35eb2b..10e0361 100644
--- a/gerabaldi/sim.py
+++ b/gerabaldi/sim.py
@@ -53,7 +53,8 @@ def gen_init_state(
     if quantity_info and not dev_counts:
         devs, chps, lots = quantity_info.dev_counts, quantity_info.num_chps, quantity_info.num_lots
     elif dev_counts:
-        devs, chps, lots = dev_counts, num_chps, num_lots
+        # Copy as the counts may be extended below, the caller's mapping must be left untouched
+        devs, chps, lots = dev_counts.copy(), num_chps, num_lots
     else:
         raise UserConfigError(
             'The number of devices for each parameter must be specified either manually or by report.'
-- 
2.43.0


From ca3dac1cfca882fa05f36cdd39aab028b162c12a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:09:23 +0000
Subject: [PATCH 09/17] fix: keep exported report values exact and create
 missing parent folders

---
 gerabaldi/models/reports.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/gerabaldi/models/reports.py b/gerabaldi/models/reports.py
index 1aab807..a1901c5 100644
--- a/gerabaldi/models/reports.py
+++ b/gerabaldi/models/reports.py
@@ -9,6 +9,7 @@ import json
 import pandas as pd
 import numpy as np
 from datetime import timedelta
+from io import StringIO
 from pathlib import Path
 
 from gerabaldi.models.test_specs import TestSpec
@@ -73,8 +74,8 @@ class SimReport:
                     raise FileNotFoundError(msg) from e
             self.test_name = report_json['Test Name']
             self.test_description = report_json['Description']
-            self.measurements = pd.read_json(report_json['Measurements'])
-            self.test_summary = pd.read_json(report_json['Test Summary'])
+            self.measurements = self._frame_from_json(report_json['Measurements'])
+            self.test_summary = self._frame_from_json(report_json['Test Summary'])
             # Convert the times back to time deltas
             units = report_json['Time Units'].lower()
             self.time_unit = units
@@ -167,6 +168,16 @@ class SimReport:
         """
         self.test_summary = pd.concat([self.test_summary, summary_info], ignore_index=True)
 
+    @staticmethod
+    def _frame_to_json(frame: pd.DataFrame) -> str:
+        # The pandas JSON writer keeps a fixed number of decimal places, which would lose small measured values
+        return json.dumps(frame.astype(object).where(frame.notna(), None).to_dict())
+
+    @staticmethod
+    def _frame_from_json(frame_json: str) -> pd.DataFrame:
+        # Read the values back exactly as they were written, without inferring dates or types from them
+        return pd.read_json(StringIO(frame_json), dtype=False, convert_dates=False, precise_float=True)
+
     def export_to_json(self, file: str = None, time_unit: str = None) -> None | dict:
         """
         Formats a test report as a json string so that it can be saved as a file for storage or sharing
@@ -202,17 +213,17 @@ class SimReport:
 
         meas_cpy = self.measurements.copy()
         meas_cpy['time'] = meas_cpy['time'].apply(_convert_time, units=units, axis=1)
-        report_json['Measurements'] = meas_cpy.to_json()
+        report_json['Measurements'] = self._frame_to_json(meas_cpy)
         strs_cpy = self.test_summary.copy()
         strs_cpy['duration'] = strs_cpy['duration'].apply(_convert_time, units=units, axis=1)
         strs_cpy['start time'] = strs_cpy['start time'].apply(_convert_time, units=units, axis=1)
         strs_cpy['end time'] = strs_cpy['end time'].apply(_convert_time, units=units, axis=1)
-        report_json['Test Summary'] = strs_cpy.to_json()
+        report_json['Test Summary'] = self._frame_to_json(strs_cpy)
 
         if file:
             # Make the directory if it doesn't yet exist, otherwise the file open will fail
             data_dir = file.rpartition('/')[0]
-            Path(data_dir).mkdir(exist_ok=True)
+            Path(data_dir).mkdir(parents=True, exist_ok=True)
             with open(file, 'w') as f:
                 json.dump(report_json, f)
             logger.info(f'Successfully exported test report {self.test_name} to file.')
-- 
2.43.0


From 5b46dcabca5d4cde86a08636e62194964979e0b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:09:53 +0000
Subject: [PATCH 10/17] fix: do not mistake long stress phases for
 non-degrading ones when a mechanism uses fine time units

---
 gerabaldi/models/devices.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/gerabaldi/models/devices.py b/gerabaldi/models/devices.py
index daa4a3d..6d3ff7e 100644
--- a/gerabaldi/models/devices.py
+++ b/gerabaldi/models/devices.py
@@ -13,7 +13,7 @@ from gerabaldi.math import minimize
 from gerabaldi.models.random_vars import RandomVar, Deterministic
 from gerabaldi.models.states import SimState
 from gerabaldi.exceptions import InvalidTypeError, UserConfigError
-from gerabaldi.helpers import logger, _on_demand_import, _loop_compute
+from gerabaldi.helpers import logger, _on_demand_import, _loop_compute, TIME_UNIT_MAP, TIME_SECOND_FACTORS
 
 # Optional imports are loaded using a helper function that suppresses import errors until attempted use
 pymc = _on_demand_import('pymc')
@@ -403,6 +403,10 @@ class MechMdl(LatentMdl):
         """
         return np.full((num_lots, num_chps, num_devs), self.unitary)
 
+    def _max_equiv_time(self) -> float:
+        # The longest equivalent stress time considered is 1e10 hours, expressed in the mechanism's own (finer) time unit
+        return 1e10 * max(1.0, TIME_SECOND_FACTORS['hours'] / TIME_SECOND_FACTORS[TIME_UNIT_MAP[self.time_unit]])
+
     def calc_equiv_strs_time(self, deg_val, init_val, strs_conds, latents, dims):
         raise NotImplementedError('Mechanism does not define how to compute value changes under time-varying stress')
 
@@ -441,7 +445,7 @@ class MechMdl(LatentMdl):
         """
         # To support degradation mechanisms that exhibit threshold behaviours, we first identify whether some samples
         # won't degrade under the current stress conditions based on the failure to find a valid equivalent stress time
-        no_deg_mask = np.where(times > 9e9, pre_deg_vals, np.inf)
+        no_deg_mask = np.where(times > 0.9 * self._max_equiv_time(), pre_deg_vals, np.inf)
 
         # Add the stress time to the argument dict
         arg_vals = {'time': times}
@@ -549,7 +553,7 @@ class DegMechMdl(MechMdl):
 
         # Find the time/zero point at which the current degradation is achieved under the new stress conditions
         return minimize(residue, extra_args={'curr_deg_val': deg_val, 'conds': strs_conds, 'ltnts': latents},
-                        bounds=(1e-3, 1e10), maxiter=50, log_gold=True)
+                        bounds=(1e-3, self._max_equiv_time()), maxiter=50, log_gold=True)
 
 
 class FailMechMdl(MechMdl):
-- 
2.43.0


From 1d98178b3c2619a96645c569078369dbde715b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:09:53 +0000
Subject: [PATCH 11/17] fix: stress every device of a provided initial state,
 not only those measured

---
 gerabaldi/sim.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gerabaldi/sim.py b/gerabaldi/sim.py
index 10e0361..aadae9b 100644
--- a/gerabaldi/sim.py
+++ b/gerabaldi/sim.py
@@ -224,6 +224,9 @@ def simulate(test_def: TestSpec, dev_mdl: DeviceMdl, test_env: PhysTestEnv, init
 
     # Prepare the simulation data persistence structure
     sim_state = gen_init_state(dev_mdl, quantity_info=test_report) if not init_state else deepcopy(init_state)
+    if init_state:
+        # All devices within a provided state undergo the test, even if only some of them are ever measured
+        test_report.dev_counts.update({prm: vals.shape[2] for prm, vals in sim_state.curr_prm_vals.items()})
 
     # We now execute the test step by step, sequentially performing measurements and stress intervals in order
     # Note that sim_state and test_report are mutated as the test progresses, the other data structures are untouched
-- 
2.43.0


From cd3d0b5f67ec970f6eaf0ee8e0bca8243387f0e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:09:53 +0000
Subject: [PATCH 12/17] fix: raise MissingParamError when an undefined
 parameter is measured

---
 gerabaldi/models/phys_envs.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/gerabaldi/models/phys_envs.py b/gerabaldi/models/phys_envs.py
index 4f8bca3..ea253fe 100644
--- a/gerabaldi/models/phys_envs.py
+++ b/gerabaldi/models/phys_envs.py
@@ -15,7 +15,7 @@ from pandas import Series
 from gerabaldi.models.devices import DeviceMdl
 from gerabaldi.models.reports import SimReport
 from gerabaldi.models.random_vars import Deterministic, RandomVar
-from gerabaldi.exceptions import InvalidTypeError, UserConfigError
+from gerabaldi.exceptions import InvalidTypeError, MissingParamError, UserConfigError
 from gerabaldi.helpers import _on_demand_import
 
 # Optional imports are loaded using a helper function that suppresses import errors until attempted use
@@ -451,6 +451,11 @@ class PhysTestEnv:
                 # in terms of stochastic variations, but shares the same test batch variation.
                 # This assignment is left for readability purposes to make the following line less confusing
                 cond = prm
+                if cond not in batch:
+                    raise MissingParamError(
+                        f"Requested values for param '{prm}' cannot be generated, param is not defined within the "
+                        'simulated test.'
+                    )
                 sensor_vals = self.vrtn_mdl(cond).gen_chp_vrtns(batch[cond], dev_counts[prm])
                 # We treat each sensor as a separate chip with only 1 device for measurement each
                 cond_vals[prm] = {cond: self.vrtn_mdl(cond).gen_dev_vrtns(sensor_vals, 1)}
-- 
2.43.0


From f5f7c5508d56f30f36c9a03d1df720b0c05ad358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:31:38 +0000
Subject: [PATCH 13/17] fix: keep single sample parameters arrays when their
 equation only accepts single values

---
 gerabaldi/models/devices.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/gerabaldi/models/devices.py b/gerabaldi/models/devices.py
index 6d3ff7e..984347d 100644
--- a/gerabaldi/models/devices.py
+++ b/gerabaldi/models/devices.py
@@ -1045,6 +1045,9 @@ class DegPrmMdl(LatentMdl):
             prm_vals = self.compute(**arg_vals)
         except ValueError:
             prm_vals = _loop_compute(self.compute, arg_vals, strs_dims)
+        # Equations that are not array-aware return a single value if there is only one sample
+        if np.ndim(prm_vals) == 0:
+            prm_vals = np.full(strs_dims, prm_vals)
         return prm_vals, mech_vals
 
     def calc_cond_shifted_vals(
@@ -1091,9 +1094,13 @@ class DegPrmMdl(LatentMdl):
 
         # Now compute the parameter values
         try:
-            return self.compute(**arg_vals)
+            prm_vals = self.compute(**arg_vals)
         except ValueError:
-            return _loop_compute(self.compute, arg_vals, meas_dims)
+            prm_vals = _loop_compute(self.compute, arg_vals, meas_dims)
+        # Equations that are not array-aware return a single value if there is only one sample
+        if np.ndim(prm_vals) == 0:
+            prm_vals = np.full(meas_dims, prm_vals)
+        return prm_vals
 
     def get_dependencies(self, conditions, target):
         """
-- 
2.43.0


From 9cfaa7757d848b501f37a89600529258b030bd36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:02 +0000
Subject: [PATCH 14/17] fix: name distributions that are added to or replaced
 in a named latent variable

---
 gerabaldi/models/devices.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gerabaldi/models/devices.py b/gerabaldi/models/devices.py
index 984347d..59a90df 100644
--- a/gerabaldi/models/devices.py
+++ b/gerabaldi/models/devices.py
@@ -163,6 +163,9 @@ class LatentVar:
             if not self._lot_vrtns:
                 value = Deterministic(self._unitary)
         super().__setattr__(name, value)
+        # Distributions that get added, replaced, or removed after the variable was named change the distribution naming
+        if name in ['dev_vrtn_mdl', 'chp_vrtn_mdl', 'lot_vrtn_mdl'] and getattr(self, 'name', None) is not None:
+            self.name = self.name
 
     def gen_latent_vals(self, num_devs: int = 1, num_chps: int = 1, num_lots: int = 1) -> np.ndarray:
         """
-- 
2.43.0


From 71c3e1c0ae52a4cec694f3e25b064a9ce421aeaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:17 +0000
Subject: [PATCH 15/17] fix: export and load reports without measurements or
 steps

---
 gerabaldi/models/reports.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/gerabaldi/models/reports.py b/gerabaldi/models/reports.py
index a1901c5..726525a 100644
--- a/gerabaldi/models/reports.py
+++ b/gerabaldi/models/reports.py
@@ -79,10 +79,15 @@ class SimReport:
             # Convert the times back to time deltas
             units = report_json['Time Units'].lower()
             self.time_unit = units
-            self.measurements['time'] = self.measurements['time'].apply(_convert_time, units=units, axis=1)
-            self.test_summary['start time'] = self.test_summary['start time'].apply(_convert_time, units=units, axis=1)
-            self.test_summary['end time'] = self.test_summary['end time'].apply(_convert_time, units=units, axis=1)
-            self.test_summary['duration'] = self.test_summary['duration'].apply(_convert_time, units=units, axis=1)
+            # (a report without measurements or without steps has no times to convert)
+            if not self.measurements.empty:
+                self.measurements['time'] = self.measurements['time'].apply(_convert_time, units=units, axis=1)
+            if not self.test_summary.empty:
+                self.test_summary['start time'] = self.test_summary['start time'].apply(
+                    _convert_time, units=units, axis=1
+                )
+                self.test_summary['end time'] = self.test_summary['end time'].apply(_convert_time, units=units, axis=1)
+                self.test_summary['duration'] = self.test_summary['duration'].apply(_convert_time, units=units, axis=1)
         # Allow for empty report initializations, though is not an expected use case
         else:
             self.test_name, self.test_description = name, description
@@ -212,12 +217,14 @@ class SimReport:
         report_json['Time Units'] = units
 
         meas_cpy = self.measurements.copy()
-        meas_cpy['time'] = meas_cpy['time'].apply(_convert_time, units=units, axis=1)
+        if not meas_cpy.empty:
+            meas_cpy['time'] = meas_cpy['time'].apply(_convert_time, units=units, axis=1)
         report_json['Measurements'] = self._frame_to_json(meas_cpy)
         strs_cpy = self.test_summary.copy()
-        strs_cpy['duration'] = strs_cpy['duration'].apply(_convert_time, units=units, axis=1)
-        strs_cpy['start time'] = strs_cpy['start time'].apply(_convert_time, units=units, axis=1)
-        strs_cpy['end time'] = strs_cpy['end time'].apply(_convert_time, units=units, axis=1)
+        if not strs_cpy.empty:
+            strs_cpy['duration'] = strs_cpy['duration'].apply(_convert_time, units=units, axis=1)
+            strs_cpy['start time'] = strs_cpy['start time'].apply(_convert_time, units=units, axis=1)
+            strs_cpy['end time'] = strs_cpy['end time'].apply(_convert_time, units=units, axis=1)
         report_json['Test Summary'] = self._frame_to_json(strs_cpy)
 
         if file:
-- 
2.43.0


From b7dc2a1c6614f8ac41e0046bf4bd142a62d2a7cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:17:49 +0000
Subject: [PATCH 16/17] fix: convert and export report times that were
 converted before

---
 gerabaldi/models/reports.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/gerabaldi/models/reports.py b/gerabaldi/models/reports.py
index 726525a..4b0f8ff 100644
--- a/gerabaldi/models/reports.py
+++ b/gerabaldi/models/reports.py
@@ -183,6 +183,12 @@ class SimReport:
         # Read the values back exactly as they were written, without inferring dates or types from them
         return pd.read_json(StringIO(frame_json), dtype=False, convert_dates=False, precise_float=True)
 
+    def _meas_times(self) -> pd.Series:
+        # Times already converted to raw values are in the time unit of the report, see convert_report_time
+        return self.measurements['time'].apply(
+            lambda time: time if isinstance(time, timedelta) else _convert_time(time, self.time_unit)
+        )
+
     def export_to_json(self, file: str = None, time_unit: str = None) -> None | dict:
         """
         Formats a test report as a json string so that it can be saved as a file for storage or sharing
@@ -218,7 +224,7 @@ class SimReport:
 
         meas_cpy = self.measurements.copy()
         if not meas_cpy.empty:
-            meas_cpy['time'] = meas_cpy['time'].apply(_convert_time, units=units, axis=1)
+            meas_cpy['time'] = self._meas_times().apply(_convert_time, units=units, axis=1)
         report_json['Measurements'] = self._frame_to_json(meas_cpy)
         strs_cpy = self.test_summary.copy()
         if not strs_cpy.empty:
@@ -244,5 +250,6 @@ class SimReport:
         if units is None:
             logger.warn('Converted report time units not explicitly provided, defaulting to hours.')
             units = 'hours'
+        if not self.measurements.empty:
+            self.measurements['time'] = self._meas_times().apply(lambda time: _convert_time(time, units))
         self.time_unit = units
-        self.measurements['time'] = self.measurements['time'].apply(lambda time: _convert_time(time, self.time_unit))
-- 
2.43.0


From 8f0d0933cc8d650680f0868d16909fd2c25302af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:23:01 +0000
Subject: [PATCH 17/17] fix: restore the distribution centre when exporting a
 latent variable fails

---
 gerabaldi/models/devices.py | 48 +++++++++++++++++++++----------------
 1 file changed, 27 insertions(+), 21 deletions(-)

diff --git a/gerabaldi/models/devices.py b/gerabaldi/models/devices.py
index 59a90df..bb37981 100644
--- a/gerabaldi/models/devices.py
+++ b/gerabaldi/models/devices.py
@@ -229,28 +229,34 @@ class LatentVar:
                 old_centre = self.dev_vrtn_mdl.get_centre()
                 self.dev_vrtn_mdl.set_centre(self.deter_val, op)
 
-            # Normal probabilistic model export, only incorporate the stochastic layers if used
-            if self._chp_vrtns and self._lot_vrtns:
-                dev = self.dev_vrtn_mdl.get_cbi_form(target_framework=target_framework)
-                chp = self.chp_vrtn_mdl.get_cbi_form(target_framework=target_framework)
-                lot = self.lot_vrtn_mdl.get_cbi_form(target_framework=target_framework)
-                if target_framework == 'pymc':
-                    cbi_dist = pymc.Deterministic(self.name, op(op(dev, chp), lot))
+            try:
+                # Normal probabilistic model export, only incorporate the stochastic layers if used
+                if self._chp_vrtns and self._lot_vrtns:
+                    dev = self.dev_vrtn_mdl.get_cbi_form(target_framework=target_framework)
+                    chp = self.chp_vrtn_mdl.get_cbi_form(target_framework=target_framework)
+                    lot = self.lot_vrtn_mdl.get_cbi_form(target_framework=target_framework)
+                    if target_framework == 'pymc':
+                        cbi_dist = pymc.Deterministic(self.name, op(op(dev, chp), lot))
+                    else:
+                        cbi_dist = op(op(dev, chp), lot)
+                elif self._chp_vrtns and not self._lot_vrtns:
+                    dev = self.dev_vrtn_mdl.get_cbi_form(target_framework=target_framework)
+                    chp = self.chp_vrtn_mdl.get_cbi_form(target_framework=target_framework)
+                    cbi_dist = (
+                        pymc.Deterministic(self.name, op(dev, chp)) if target_framework == 'pymc' else op(dev, chp)
+                    )
+                elif not self._chp_vrtns and self._lot_vrtns:
+                    dev = self.dev_vrtn_mdl.get_cbi_form(target_framework=target_framework)
+                    lot = self.lot_vrtn_mdl.get_cbi_form(target_framework=target_framework)
+                    cbi_dist = (
+                        pymc.Deterministic(self.name, op(dev, lot)) if target_framework == 'pymc' else op(dev, lot)
+                    )
                 else:
-                    cbi_dist = op(op(dev, chp), lot)
-            elif self._chp_vrtns and not self._lot_vrtns:
-                dev = self.dev_vrtn_mdl.get_cbi_form(target_framework=target_framework)
-                chp = self.chp_vrtn_mdl.get_cbi_form(target_framework=target_framework)
-                cbi_dist = pymc.Deterministic(self.name, op(dev, chp)) if target_framework == 'pymc' else op(dev, chp)
-            elif not self._chp_vrtns and self._lot_vrtns:
-                dev = self.dev_vrtn_mdl.get_cbi_form(target_framework=target_framework)
-                lot = self.lot_vrtn_mdl.get_cbi_form(target_framework=target_framework)
-                cbi_dist = pymc.Deterministic(self.name, op(dev, lot)) if target_framework == 'pymc' else op(dev, lot)
-            else:
-                cbi_dist = self.dev_vrtn_mdl.get_cbi_form(target_framework=target_framework)
-            # Return the dev_vrtn_mdl centre value to previous if it was changed to avoid any method side effects
-            if old_centre is not None:
-                self.dev_vrtn_mdl.set_centre(old_centre)
+                    cbi_dist = self.dev_vrtn_mdl.get_cbi_form(target_framework=target_framework)
+            finally:
+                # Return the dev_vrtn_mdl centre value to previous if it was changed to avoid side effects
+                if old_centre is not None:
+                    self.dev_vrtn_mdl.set_centre(old_centre)
             return cbi_dist
         else:
             raise UserConfigError(f'Cannot export deterministic latent variable {self.name} for CBI use.')
-- 
2.43.0

