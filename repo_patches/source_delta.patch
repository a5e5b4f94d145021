From 09efbde7f5b70fe28d53f1d8034c1b73622243de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:04 +0000
Subject: [PATCH 01/22] fix: validate the load shape of a custom building
 before using it

A custom building (building_type=None) accepted a peak load shape with a
wrong number of hours or with negative hours whenever the shape was
normalised by its sum.
---
 src/ecoengine/objects/building/Building.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ecoengine/objects/building/Building.py b/src/ecoengine/objects/building/Building.py
index 78c0116..22a9b27 100644
--- a/src/ecoengine/objects/building/Building.py
+++ b/src/ecoengine/objects/building/Building.py
@@ -331,12 +331,12 @@ class Building:
                 peak_ls   = np.array([x / raw_sum for x in raw])
             else:
                 daily_gal = float(magnitude)
-                # normalize if unnormalized, otherwise validate
+                # normalize if unnormalized
                 if abs(raw_sum - 1.0) > 1e-3:
                     peak_ls = np.array([x / raw_sum for x in raw])
                 else:
-                    _validate_load_shape(raw, 'custom_peak_load_shape')
                     peak_ls = np.array(raw)
+            _validate_load_shape(list(peak_ls), 'custom_peak_load_shape')
 
             if custom_avg_ls is not None:
                 raw_avg     = list(custom_avg_ls)
-- 
2.43.0


From ae6cb963c41942ff5a5045fb54462359ec2ee657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:16 +0000
Subject: [PATCH 02/22] fix: count temperature maintenance heat in monthly
 energy, monthly cost and peak demand

The annual cost and the annual energy include the temperature maintenance
heater, but the monthly energy, the monthly cost breakdown and the reported
peak demand left it out, so the months did not add up to the year.
---
 src/ecoengine/objects/simulation/SimulationRun.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/ecoengine/objects/simulation/SimulationRun.py b/src/ecoengine/objects/simulation/SimulationRun.py
index 5c68b12..af2dc98 100644
--- a/src/ecoengine/objects/simulation/SimulationRun.py
+++ b/src/ecoengine/objects/simulation/SimulationRun.py
@@ -275,8 +275,10 @@ class SimulationRun:
         -------
         float
         """
-        non_none = [p for p in self.heater_power_in_kw if p is not None]
-        return max(non_none) if non_none else 0.0
+        total_kw = [p or 0.0 for p in self.heater_power_in_kw]
+        for i, tm_kw in enumerate(self.tm_heater_input_kw[:len(total_kw)]):
+            total_kw[i] += tm_kw or 0.0
+        return max(total_kw) if total_kw else 0.0
 
     def get_summary(self) -> dict:
         """
@@ -601,6 +603,8 @@ class SimulationRun:
 
         for i, kw_raw in enumerate(self.heater_power_in_kw):
             kw   = kw_raw or 0.0
+            if self.tm_heater_input_kw and i < len(self.tm_heater_input_kw):
+                kw += self.tm_heater_input_kw[i] or 0.0
             rate = uc.get_energy_charge_at_step(i, self.timestep_min)
             energy_by_month[_step_to_month(i, self.timestep_min)] += (
                 kw * hours_per_step * rate
@@ -696,8 +700,9 @@ class SimulationRun:
         for month_idx, days in enumerate(_DAYS_IN_MONTH):
             n_steps = days * steps_per_day
             monthly[month_idx] = sum(
-                (self.heater_power_in_kw[i] or 0.0) * hours_per_step
-                for i in range(step, min(step + n_steps, len(self.heater_power_in_kw)))
+                (p or 0.0) * hours_per_step
+                for power in (self.heater_power_in_kw, self.tm_heater_input_kw)
+                for p in power[step:step + n_steps]
             )
             step += n_steps
         return monthly
-- 
2.43.0


From bc20dad76ba7a6ae0c76eceecbf4984f004a342f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:28 +0000
Subject: [PATCH 03/22] fix: keep the hourly energy rates when a utility tariff
 is written to a file

to_csv wrote only the first rate of every demand period, so a tariff read
from a file with its own rate for each hour lost those rates when it was
written and read back.
---
 src/ecoengine/objects/building/UtilityCostTracker.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/ecoengine/objects/building/UtilityCostTracker.py b/src/ecoengine/objects/building/UtilityCostTracker.py
index d008c95..4094ec8 100644
--- a/src/ecoengine/objects/building/UtilityCostTracker.py
+++ b/src/ecoengine/objects/building/UtilityCostTracker.py
@@ -640,8 +640,9 @@ class UtilityCostTracker:
 
         Produces 8760 data rows (one per hour of a non-leap year) plus a header.
         Energy and demand rates are written on the *first* occurrence of each
-        demand period; subsequent rows leave those fields blank.  The monthly
-        base charge appears only in the first data row.
+        demand period; subsequent rows leave those fields blank, except for
+        hours whose own energy rate differs from the rate of their period.
+        The monthly base charge appears only in the first data row.
 
         Parameters
         ----------
@@ -654,6 +655,7 @@ class UtilityCostTracker:
             "Monthly Base Charge",
         ]
         seen_periods: set[int] = set()
+        period_rates: dict[int, float] = {}
         month = 0
         day   = 1
 
@@ -680,5 +682,10 @@ class UtilityCostTracker:
                     energy_rate = ""
                     demand_rate = ""
 
+                if len(self.energy_charge_by_hour) == 8760:
+                    hourly_rate = self.energy_charge_by_hour[h]
+                    if hourly_rate != period_rates.setdefault(period, hourly_rate) or energy_rate != "":
+                        energy_rate = hourly_rate
+
                 base_charge = self.monthly_base_charge if h == 0 else ""
                 writer.writerow([date_str, period, energy_rate, demand_rate, base_charge])
-- 
2.43.0


From 7f4429b30486705c68f09d8bc327a79c48f3b36a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:26:26 +0000
Subject: [PATCH 04/22] fix: put the annual load shape back when sizing fails

---
 src/ecoengine/objects/dhwsystems/DHWSystem.py                | 5 ++---
 .../objects/dhwsystems/recirc_systems/SwingSystem.py         | 5 ++---
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/ecoengine/objects/dhwsystems/DHWSystem.py b/src/ecoengine/objects/dhwsystems/DHWSystem.py
index 46e39f9..3736748 100644
--- a/src/ecoengine/objects/dhwsystems/DHWSystem.py
+++ b/src/ecoengine/objects/dhwsystems/DHWSystem.py
@@ -379,9 +379,8 @@ class DHWSystem:
 
         finally:
             self.max_daily_run_hr = original_max_run_hr
-
-        if was_annual:
-            building.set_to_annual_load_shape()
+            if was_annual:
+                building.set_to_annual_load_shape()
 
     def get_minimum_capacity_kbtuh(self) -> float:
         """
diff --git a/src/ecoengine/objects/dhwsystems/recirc_systems/SwingSystem.py b/src/ecoengine/objects/dhwsystems/recirc_systems/SwingSystem.py
index 7b90b9a..4aed5c3 100644
--- a/src/ecoengine/objects/dhwsystems/recirc_systems/SwingSystem.py
+++ b/src/ecoengine/objects/dhwsystems/recirc_systems/SwingSystem.py
@@ -266,9 +266,8 @@ class SwingSystem(RecircSystem):
 
         finally:
             self.max_daily_run_hr = original_max_run_hr
-
-        if was_annual:
-            building.set_to_annual_load_shape()
+            if was_annual:
+                building.set_to_annual_load_shape()
 
     # ------------------------------------------------------------------
     # Sizing curve — override to enforce correct call order
-- 
2.43.0


From 7cf386cec3872e4a0e5f19a221432cb5951d7d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:26:29 +0000
Subject: [PATCH 05/22] fix: give swing sizing curves the mix fraction of their
 own sizing and keep the sized one

---
 src/ecoengine/objects/dhwsystems/DHWSystem.py   |  6 +++++-
 .../dhwsystems/recirc_systems/SwingSystem.py    | 17 +++++++++++++++--
 2 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/ecoengine/objects/dhwsystems/DHWSystem.py b/src/ecoengine/objects/dhwsystems/DHWSystem.py
index 3736748..5ab419d 100644
--- a/src/ecoengine/objects/dhwsystems/DHWSystem.py
+++ b/src/ecoengine/objects/dhwsystems/DHWSystem.py
@@ -595,8 +595,12 @@ class DHWSystem:
             design_inlet = self._require_design_inlet_temp(building)
 
             # Pre-compute quantities that don't vary with fract_total_vol.
+            run_vol_normal = self._calc_running_volume_supplyT_gal(
+                building, self._calc_required_capacity(building)
+            )
+            # After the running volume: SwingSystem takes its capacity from the
+            # mix fraction found there, as size() does.
             cap_normal     = self._calc_required_capacity(building)
-            run_vol_normal = self._calc_running_volume_supplyT_gal(building, cap_normal)
             strat_normal   = self._calc_stratification_factor(
                 control_map, _strat_slope, design_inlet
             )
diff --git a/src/ecoengine/objects/dhwsystems/recirc_systems/SwingSystem.py b/src/ecoengine/objects/dhwsystems/recirc_systems/SwingSystem.py
index 4aed5c3..4aee01f 100644
--- a/src/ecoengine/objects/dhwsystems/recirc_systems/SwingSystem.py
+++ b/src/ecoengine/objects/dhwsystems/recirc_systems/SwingSystem.py
@@ -309,7 +309,8 @@ class SwingSystem(RecircSystem):
             capacity_out:   list[float] = []
             storage_out:    list[float] = []
 
-            original_run_hr = self.max_daily_run_hr
+            original_run_hr  = self.max_daily_run_hr
+            original_eff_mix = self._eff_mix_fraction
             try:
                 for h in heat_hours:
                     self.max_daily_run_hr = float(h)
@@ -328,7 +329,8 @@ class SwingSystem(RecircSystem):
                     capacity_out.append(cap)
                     storage_out.append(storage_vol)
             finally:
-                self.max_daily_run_hr = original_run_hr
+                self.max_daily_run_hr  = original_run_hr
+                self._eff_mix_fraction = original_eff_mix
 
             rec_index = min(rec_index, max(0, len(heat_hours_out) - 1))
 
@@ -342,6 +344,17 @@ class SwingSystem(RecircSystem):
             if was_annual:
                 building.set_to_annual_load_shape()
 
+    def get_ls_sizing_curve(self, *args, **kwargs) -> dict:
+        """
+        Override to keep ``_eff_mix_fraction`` of the sized system, which the
+        sweep overwrites.
+        """
+        original_eff_mix = self._eff_mix_fraction
+        try:
+            return super().get_ls_sizing_curve(*args, **kwargs)
+        finally:
+            self._eff_mix_fraction = original_eff_mix
+
     # ------------------------------------------------------------------
     # TM sizing
     # ------------------------------------------------------------------
-- 
2.43.0


From c718b2fddbdc4850fee67508cb4d4df88fccbe4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:26:58 +0000
Subject: [PATCH 06/22] fix: size swing resistance elements on the daily load
 shape and restore state when a coverage point fails

---
 .../recirc_systems/SwingERTrdOffSystem.py     | 58 ++++++++++---------
 1 file changed, 32 insertions(+), 26 deletions(-)

diff --git a/src/ecoengine/objects/dhwsystems/recirc_systems/SwingERTrdOffSystem.py b/src/ecoengine/objects/dhwsystems/recirc_systems/SwingERTrdOffSystem.py
index 2d21238..e2519fb 100644
--- a/src/ecoengine/objects/dhwsystems/recirc_systems/SwingERTrdOffSystem.py
+++ b/src/ecoengine/objects/dhwsystems/recirc_systems/SwingERTrdOffSystem.py
@@ -351,7 +351,12 @@ class SwingERTrdOffSystem(SwingSystem):
 
         # 2-day minute-resolution demand array starting from the peak demand hour.
         daily_gal  = building.daily_dhw_use_supplyT_gal
+        was_annual = building.is_annual_load_shape()
+        if was_annual:
+            building.set_to_daily_load_shape()
         load_shape = building.peak_load_shape   # 24 normalised fractions
+        if was_annual:
+            building.set_to_annual_load_shape()
         hourly_diff = np.ones(24) / self.max_daily_run_hr - load_shape
         peak_indices = _get_peak_indices(hourly_diff)
         peak_idx = peak_indices[0] if peak_indices else 0
@@ -576,32 +581,33 @@ class SwingERTrdOffSystem(SwingSystem):
         startind = 0
 
         i = 120.0
-        while i > 0:
-            if i == 100.0:
-                startind   = len(fract_covered)
-                total_tm_i = original_total_tm
-                er_needed  = True
-            else:
-                building.daily_dhw_use_supplyT_gal = original_daily_gal * (i / 100.0)
-                self._minimum_tm_capacity_kbtuh    = base_tm_kbtuh
-                self._er_capacity_kbtuh            = None
-                self.er_safety_factor              = additional_er_safety
-                self._size_er_element(building)
-                self.er_safety_factor              = original_er_safety
-                total_tm_i = self._minimum_tm_capacity_kbtuh
-                er_needed  = bool(self._er_capacity_kbtuh and self._er_capacity_kbtuh > 0)
-
-            er_cap_kw.append(round(total_tm_i / _W_TO_KBTUH, 0))
-            fract_covered.append(i)
-            i -= 10.0
-
-            if not er_needed:
-                break  # no ER at this fraction; lower fractions won't need it either
-
-        # Restore mutated state
-        building.daily_dhw_use_supplyT_gal = original_daily_gal
-        self._minimum_tm_capacity_kbtuh    = original_total_tm
-        self._er_capacity_kbtuh            = original_er_kbtuh
+        try:
+            while i > 0:
+                if i == 100.0:
+                    startind   = len(fract_covered)
+                    total_tm_i = original_total_tm
+                    er_needed  = True
+                else:
+                    building.daily_dhw_use_supplyT_gal = original_daily_gal * (i / 100.0)
+                    self._minimum_tm_capacity_kbtuh    = base_tm_kbtuh
+                    self._er_capacity_kbtuh            = None
+                    self.er_safety_factor              = additional_er_safety
+                    self._size_er_element(building)
+                    total_tm_i = self._minimum_tm_capacity_kbtuh
+                    er_needed  = bool(self._er_capacity_kbtuh and self._er_capacity_kbtuh > 0)
+
+                er_cap_kw.append(round(total_tm_i / _W_TO_KBTUH, 0))
+                fract_covered.append(i)
+                i -= 10.0
+
+                if not er_needed:
+                    break  # no ER at this fraction; lower fractions won't need it either
+        finally:
+            # Restore mutated state
+            building.daily_dhw_use_supplyT_gal = original_daily_gal
+            self._minimum_tm_capacity_kbtuh    = original_total_tm
+            self._er_capacity_kbtuh            = original_er_kbtuh
+            self.er_safety_factor              = original_er_safety
 
         # Lists were built high-to-low; reverse so x is ascending
         fract_covered.reverse()
-- 
2.43.0


From 76cb0bef86534bdc127edfadde3441ce61cac38e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:36:29 +0000
Subject: [PATCH 07/22] fix: sweep sizing curves of swing resistance plants
 with the element used for primary sizing

---
 .../recirc_systems/SwingERTrdOffSystem.py       | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/ecoengine/objects/dhwsystems/recirc_systems/SwingERTrdOffSystem.py b/src/ecoengine/objects/dhwsystems/recirc_systems/SwingERTrdOffSystem.py
index e2519fb..7ace234 100644
--- a/src/ecoengine/objects/dhwsystems/recirc_systems/SwingERTrdOffSystem.py
+++ b/src/ecoengine/objects/dhwsystems/recirc_systems/SwingERTrdOffSystem.py
@@ -294,6 +294,23 @@ class SwingERTrdOffSystem(SwingSystem):
         )
         self._size_er_element(building)
 
+    def get_sizing_curve(self, *args, **kwargs) -> dict:
+        """Sweep with the base TM element: size() adds ER capacity after primary sizing."""
+        return self._with_base_tm_element(super().get_sizing_curve, *args, **kwargs)
+
+    def get_ls_sizing_curve(self, *args, **kwargs) -> dict:
+        """Sweep with the base TM element: size() adds ER capacity after primary sizing."""
+        return self._with_base_tm_element(super().get_ls_sizing_curve, *args, **kwargs)
+
+    def _with_base_tm_element(self, curve, *args, **kwargs) -> dict:
+        sized_tm_kbtuh = self._minimum_tm_capacity_kbtuh
+        if sized_tm_kbtuh is not None and self._er_capacity_kbtuh is not None:
+            self._minimum_tm_capacity_kbtuh = sized_tm_kbtuh - self._er_capacity_kbtuh
+        try:
+            return curve(*args, **kwargs)
+        finally:
+            self._minimum_tm_capacity_kbtuh = sized_tm_kbtuh
+
     def _size_er_element(self, building: Building) -> None:
         """
         Determine additional ER capacity for the swing tank TM element by
-- 
2.43.0


From 89b5493e47a535fd3d4154d1113d48145f06a99c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:47:43 +0000
Subject: [PATCH 08/22] fix: report the outdoor temperature of multi-pass
 return-to-primary steps

---
 .../objects/dhwsystems/rtp_systems/MultiPassRTPSystem.py        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ecoengine/objects/dhwsystems/rtp_systems/MultiPassRTPSystem.py b/src/ecoengine/objects/dhwsystems/rtp_systems/MultiPassRTPSystem.py
index 60198e8..5c46c07 100644
--- a/src/ecoengine/objects/dhwsystems/rtp_systems/MultiPassRTPSystem.py
+++ b/src/ecoengine/objects/dhwsystems/rtp_systems/MultiPassRTPSystem.py
@@ -638,7 +638,7 @@ class MultiPassRTPSystem(RTPSystem):
             "usable_volume_supplyT_gal": usable_vol_gal,
             "heater_output_kbtuh":       total_kbtuh,
             "heater_power_in_kw":        total_kw,
-            "oat_f":                     top_temp_f,
+            "oat_f":                     oat_f,
             "inlet_water_temp_f":        inlet_water_temp_f,
             "tank_temps_f":              tank_temps_f,
             "mode":                      mode,
-- 
2.43.0


From 7872bf46f64a6ad6a8280ea7e1bf52753e7e9e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:47:46 +0000
Subject: [PATCH 09/22] fix: keep temperature maintenance power in step with
 the other records of a run

---
 src/ecoengine/objects/simulation/SimulationRun.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ecoengine/objects/simulation/SimulationRun.py b/src/ecoengine/objects/simulation/SimulationRun.py
index af2dc98..48cad8b 100644
--- a/src/ecoengine/objects/simulation/SimulationRun.py
+++ b/src/ecoengine/objects/simulation/SimulationRun.py
@@ -76,7 +76,7 @@ class SimulationRun:
         # TM (swing tank) per-timestep data — only populated for SwingSystem runs
         self.tm_tank_temp_f:           list[float] = []
         self.tm_heater_output_kbtuh:   list[float] = []
-        self.tm_heater_input_kw:   list[float] = []
+        self.tm_heater_input_kw:   list[float | None] = []
 
         # Cumulative outage counter [minutes]
         self.outage_minutes: int = 0
@@ -150,7 +150,9 @@ class SimulationRun:
             self.tm_tank_temp_f.append(tm_tank_temp_f)
         if tm_heater_output_kbtuh is not None:
             self.tm_heater_output_kbtuh.append(tm_heater_output_kbtuh)
-        if tm_heater_input_kw is not None:
+        # None (idle, or power unknown) still takes a place, so that the power
+        # stays in step with the other records of a TM system.
+        if tm_heater_input_kw is not None or tm_heater_output_kbtuh is not None:
             self.tm_heater_input_kw.append(tm_heater_input_kw)
 
     def check_outlet_deficit(self, top_tank_temp_f: float, supply_temp_f: float) -> bool:
-- 
2.43.0


From f4375d64e62bddd4bb333a77ce19cd0899916646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:47:49 +0000
Subject: [PATCH 10/22] fix: size instantaneous heaters for the peak hour's
 draw, not sixty times it

---
 src/ecoengine/objects/dhwsystems/InstantWHSystem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ecoengine/objects/dhwsystems/InstantWHSystem.py b/src/ecoengine/objects/dhwsystems/InstantWHSystem.py
index 5a0bdf6..4d15890 100644
--- a/src/ecoengine/objects/dhwsystems/InstantWHSystem.py
+++ b/src/ecoengine/objects/dhwsystems/InstantWHSystem.py
@@ -81,7 +81,7 @@ class InstantWHSystem(DHWSystem):
         delta_t = self.supply_temp_f - design_inlet_temp_f
 
         # Peak instantaneous generation rate [gal/hr at supply temp]
-        peak_gph = building.daily_dhw_use_supplyT_gal * float(max(building.peak_load_shape)) * 60.0
+        peak_gph = building.daily_dhw_use_supplyT_gal * float(max(building.peak_load_shape))
 
         self._minimum_capacity_kbtuh       = peak_gph * _RHO_CP * delta_t / self.defrost_factor / 1000.0
         self._minimum_storage_storageT_gal = 0.0
-- 
2.43.0


From 1eb826a53d35c8ad5c9ab63633bfba2a85dcd599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:47:52 +0000
Subject: [PATCH 11/22] fix: mixing valve without draw or with the tank at
 supply temperature

---
 src/ecoengine/objects/dhwsystems/utils.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/ecoengine/objects/dhwsystems/utils.py b/src/ecoengine/objects/dhwsystems/utils.py
index a47a94e..bee34d8 100644
--- a/src/ecoengine/objects/dhwsystems/utils.py
+++ b/src/ecoengine/objects/dhwsystems/utils.py
@@ -4,7 +4,11 @@ from ecoengine.constants.constants import _RHO_CP
 def mixing_valve_behavior(load_supplyT_gal : float, flow_returnT_gal : float, cold_temp_f : float, supply_temp_f : float, return_temp_f : float, storage_temp_f : float) -> dict:
     # For minute intervals, storage_temp_f is whatever temperature is at the top of the storage tank, set point storage temperature or not
     recirc_loss_btu = flow_returnT_gal * _RHO_CP * (supply_temp_f - return_temp_f)
-    critical_flow_gal = recirc_loss_btu / (_RHO_CP * (storage_temp_f - supply_temp_f))
+    # With the tank just at supply temperature nothing is left to temper: all return water goes to the tank.
+    critical_flow_gal = (
+        recirc_loss_btu / (_RHO_CP * (storage_temp_f - supply_temp_f))
+        if storage_temp_f != supply_temp_f else float("inf")
+    )
 
     if load_supplyT_gal > critical_flow_gal:
         storage_draw_gal = (load_supplyT_gal * ((supply_temp_f - cold_temp_f) / (storage_temp_f - cold_temp_f))) + \
@@ -13,7 +17,10 @@ def mixing_valve_behavior(load_supplyT_gal : float, flow_returnT_gal : float, co
     else:
         storage_draw_gal = (load_supplyT_gal + flow_returnT_gal) * ((supply_temp_f - return_temp_f) / (storage_temp_f - return_temp_f))
         recirc_to_tank_gal = storage_draw_gal - load_supplyT_gal
-        inlet_temp_f = ((load_supplyT_gal * cold_temp_f) + (recirc_to_tank_gal * return_temp_f)) / storage_draw_gal
+        if storage_draw_gal > 0:
+            inlet_temp_f = ((load_supplyT_gal * cold_temp_f) + (recirc_to_tank_gal * return_temp_f)) / storage_draw_gal
+        else:
+            inlet_temp_f = cold_temp_f
     return {
         "storage_draw_gal" : storage_draw_gal,
         "inlet_temp_f" : inlet_temp_f
-- 
2.43.0


From b3f7060cd64c717ecc64ca3ff8135ed98c2be0a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:47:56 +0000
Subject: [PATCH 12/22] fix: remove a debugging print from every parallel loop
 simulation step

---
 .../objects/dhwsystems/recirc_systems/ParallelLoopSystem.py      | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/ecoengine/objects/dhwsystems/recirc_systems/ParallelLoopSystem.py b/src/ecoengine/objects/dhwsystems/recirc_systems/ParallelLoopSystem.py
index 7bbdbb1..17c9db7 100644
--- a/src/ecoengine/objects/dhwsystems/recirc_systems/ParallelLoopSystem.py
+++ b/src/ecoengine/objects/dhwsystems/recirc_systems/ParallelLoopSystem.py
@@ -414,5 +414,4 @@ class ParallelLoopSystem(RecircSystem):
         step["tm_tank_temp_f"]         = self.tm_storage_tank.get_temperature_at_fraction(0.5)
         step["tm_heater_output_kbtuh"] = tm_kbtuh
         step["tm_heater_input_kw"]     = tm_kw
-        print(f'{step["tm_heater_input_kw"]}, {step["tm_tank_temp_f"] }, {step["tm_heater_output_kbtuh"]}')
         return step
-- 
2.43.0


From 71f5157ff30e193a995aff95d7ac90e5f6071963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:57:06 +0000
Subject: [PATCH 13/22] fix: load-up hours without a load-up aquastat left the
 heaters without controls

---
 src/ecoengine/interfaces/EcosizerEngine.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ecoengine/interfaces/EcosizerEngine.py b/src/ecoengine/interfaces/EcosizerEngine.py
index d6c7039..c1b84ba 100644
--- a/src/ecoengine/interfaces/EcosizerEngine.py
+++ b/src/ecoengine/interfaces/EcosizerEngine.py
@@ -764,11 +764,12 @@ class EcosizerEngine:
             outlet_temp_f    = self.storage_temp_f,
         )
 
-        if self.load_up_hours > 0 and self.load_up_aquastat_fract is not None:
+        if self.load_up_hours > 0:
+            lu_on_fract  = self.load_up_aquastat_fract if self.load_up_aquastat_fract is not None else self.aquastat_fract
             lu_off_fract = self.load_up_off_sensor_fract if self.load_up_off_sensor_fract is not None else self.off_sensor_fract
             lu_off_t     = self.load_up_off_trigger_t_f  if self.load_up_off_trigger_t_f  is not None else off_t
             cmap["loadUp"] = Controls(
-                on_sensor_fract  = self.load_up_aquastat_fract,
+                on_sensor_fract  = lu_on_fract,
                 on_trigger_t_f   = on_t,
                 off_sensor_fract = lu_off_fract,
                 off_trigger_t_f  = lu_off_t,
-- 
2.43.0


From 8fa6d75bba4613da41c2e38249298dae2e69faa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:57:31 +0000
Subject: [PATCH 14/22] fix: a zip code given as an integer was refused

---
 src/ecoengine/interfaces/EcosizerEngine.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ecoengine/interfaces/EcosizerEngine.py b/src/ecoengine/interfaces/EcosizerEngine.py
index c1b84ba..500bf01 100644
--- a/src/ecoengine/interfaces/EcosizerEngine.py
+++ b/src/ecoengine/interfaces/EcosizerEngine.py
@@ -704,6 +704,8 @@ class EcosizerEngine:
             return ClimateZone.from_zip_code(czv)
         if isinstance(czv, int) and 1 <= czv <= 96:
             return ClimateZone.from_zone_id(czv)
+        if isinstance(czv, int) and len(str(czv)) == 5:
+            return ClimateZone.from_zip_code(czv)
         if isinstance(czv, str):
             return ClimateZone.from_weather_station(czv)
         raise ValueError(
-- 
2.43.0


From e7f5dd838068cdc8977e467f128cbcbb7832c823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:57:51 +0000
Subject: [PATCH 15/22] fix: the number of loop heaters was lost when a
 parallel loop plant was sized

---
 src/ecoengine/interfaces/EcosizerEngine.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ecoengine/interfaces/EcosizerEngine.py b/src/ecoengine/interfaces/EcosizerEngine.py
index 500bf01..32c134b 100644
--- a/src/ecoengine/interfaces/EcosizerEngine.py
+++ b/src/ecoengine/interfaces/EcosizerEngine.py
@@ -842,6 +842,7 @@ class EcosizerEngine:
                     tm_off_temp_f              = self.tm_off_temp_f,
                     tm_off_time_hr             = self.tm_off_time_hr,
                     tm_safety_factor           = self.tm_safety_factor,
+                    num_tm_heaters             = self.num_tm_heaters,
                     max_daily_run_hr           = self.max_daily_run_hr,
                     defrost_factor             = self.defrost_factor,
                     control_schedule           = control_schedule,
-- 
2.43.0


From c5a7483ca9b9b027f15fdee0501504b6831490c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:57:55 +0000
Subject: [PATCH 16/22] fix: a pre-sized swing plant without element capacity
 was built without heat

---
 src/ecoengine/interfaces/EcosizerEngine.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ecoengine/interfaces/EcosizerEngine.py b/src/ecoengine/interfaces/EcosizerEngine.py
index 32c134b..2ead61a 100644
--- a/src/ecoengine/interfaces/EcosizerEngine.py
+++ b/src/ecoengine/interfaces/EcosizerEngine.py
@@ -947,6 +947,10 @@ class EcosizerEngine:
         """Build the TM WaterHeater (single unit) from tm_model or tm_capacity_kbtuh."""
         from ecoengine.objects.components.heating.WaterHeater import WaterHeater
         if force_electric_resistance:
+            if self.tm_capacity_kbtuh is None:
+                raise ValueError(
+                    f"Schematic '{self.schematic}' requires tm_capacity_kbtuh in pre-sized mode."
+                )
             self.num_tm_heaters = 1
         per_unit_kbtuh = (
             self.tm_capacity_kbtuh / self.num_tm_heaters
-- 
2.43.0


From f1cea9b1d2dc0bd2bfd31a75a3d65bab1523d6d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:57:59 +0000
Subject: [PATCH 17/22] fix: a load shift schedule without shed hours could not
 be sized

---
 src/ecoengine/interfaces/EcosizerEngine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ecoengine/interfaces/EcosizerEngine.py b/src/ecoengine/interfaces/EcosizerEngine.py
index 2ead61a..d1c3251 100644
--- a/src/ecoengine/interfaces/EcosizerEngine.py
+++ b/src/ecoengine/interfaces/EcosizerEngine.py
@@ -734,7 +734,7 @@ class EcosizerEngine:
             outlet_temp_f    = self.storage_temp_f,
         )
 
-        if not self.load_shift_schedule:
+        if not self.load_shift_schedule or 0 not in self.load_shift_schedule:
             return ["normal"] * 24, {"normal": normal}
 
         # Build schedule from 24-element 0/1 list (0 = shed, 1 = run)
-- 
2.43.0


From febd5ce2120438eaf66ef9bad367c7c244d9e9af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:21 +0000
Subject: [PATCH 18/22] fix: average draw temperature above a grown slug

---
 .../objects/components/storage/SlugOverlayTank.py        | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/ecoengine/objects/components/storage/SlugOverlayTank.py b/src/ecoengine/objects/components/storage/SlugOverlayTank.py
index b96496f..07b9c21 100644
--- a/src/ecoengine/objects/components/storage/SlugOverlayTank.py
+++ b/src/ecoengine/objects/components/storage/SlugOverlayTank.py
@@ -265,15 +265,18 @@ class SlugOverlayTank(EnergyTank):
         Analytically integrates the back-calculated stratified profile over
         the draw zone (top of tank downward).
         """
-        if not self._slug_active:
+        if not self._slug_active or draw_gal <= 0.0:
             return super().get_average_draw_temp_f(draw_gal)
         draw_gal_pct = draw_gal/self.total_volume_gal * 100.0
+        # The water above the slug has moved up by as much as the slug has grown
+        slug_growth_pct = (self._slug_vol_gal - self._original_slug_vol_gal) / self.total_volume_gal * 100.0
+        top_pct = 100.0 - slug_growth_pct
         if 100.0 - draw_gal_pct >= self._slug_top_pct:
             # All draw above slug
-            return super().get_average_draw_temp_f(draw_gal)
+            return self._zone_average_temp_f(top_pct - draw_gal_pct, top_pct)
         non_slug_draw_pct = 100.0 - self._slug_top_pct
         slug_draw_pct = draw_gal_pct - non_slug_draw_pct
-        return ((super().get_average_draw_temp_f(self.total_volume_gal * (non_slug_draw_pct/100.0)) * non_slug_draw_pct) + (self._slug_temp_f * slug_draw_pct)) / draw_gal_pct
+        return ((self._zone_average_temp_f(top_pct - non_slug_draw_pct, top_pct) * non_slug_draw_pct) + (self._slug_temp_f * slug_draw_pct)) / draw_gal_pct
     
     def get_temperature_at_fraction(self, fract: float, verbose = False) -> float:
         """
-- 
2.43.0


From d3f116500ccd021e986d3e5402f362d957ea25a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:29:17 +0000
Subject: [PATCH 19/22] fix: rates of intervals that do not divide an hour were
 looked up in the hour before

The hour of a step was found by dividing by 60/timestep_min in floating
point, which for 29- and 58-minute steps falls just short of whole hours.
---
 src/ecoengine/objects/building/UtilityCostTracker.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/ecoengine/objects/building/UtilityCostTracker.py b/src/ecoengine/objects/building/UtilityCostTracker.py
index 4094ec8..302e866 100644
--- a/src/ecoengine/objects/building/UtilityCostTracker.py
+++ b/src/ecoengine/objects/building/UtilityCostTracker.py
@@ -1,7 +1,6 @@
 from __future__ import annotations
 
 import csv
-import math
 from io import TextIOWrapper
 
 # ---------------------------------------------------------------------------
@@ -575,7 +574,7 @@ class UtilityCostTracker:
         -------
         float
         """
-        hour_of_year = math.floor(step / (60.0 / timestep_min))
+        hour_of_year = step * timestep_min // 60
         if len(self.energy_charge_by_hour) == 8760:
             return self.energy_charge_by_hour[hour_of_year]
         period = self.demand_period_chart[hour_of_year]
@@ -594,7 +593,7 @@ class UtilityCostTracker:
         -------
         int
         """
-        hour_of_year = math.floor(step / (60.0 / timestep_min))
+        hour_of_year = step * timestep_min // 60
         return self.demand_period_chart[hour_of_year]
 
     def get_demand_charge_for_period(self, period_key: int, max_kw: float) -> float:
-- 
2.43.0


From 689438e6f163f7039914af7f1fae21a93f5e94c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:47 +0000
Subject: [PATCH 20/22] fix: custom buildings without positive use were
 accepted

A custom building (building_type=None) took a negative or zero stated daily
use, and shapes whose values are all negative, since these were normalised by
their negative total; a shape of zeros raised ZeroDivisionError.
---
 src/ecoengine/objects/building/Building.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ecoengine/objects/building/Building.py b/src/ecoengine/objects/building/Building.py
index 22a9b27..5ea92b0 100644
--- a/src/ecoengine/objects/building/Building.py
+++ b/src/ecoengine/objects/building/Building.py
@@ -324,6 +324,8 @@ class Building:
                 )
             raw = list(custom_peak_ls)
             raw_sum = sum(raw)
+            if raw_sum <= 0:
+                raise ValueError("custom_peak_load_shape must have a positive total.")
 
             if magnitude is None:
                 # derive magnitude from unnormalized shape sum
@@ -331,6 +333,8 @@ class Building:
                 peak_ls   = np.array([x / raw_sum for x in raw])
             else:
                 daily_gal = float(magnitude)
+                if daily_gal <= 0:
+                    raise ValueError("magnitude must be a positive number.")
                 # normalize if unnormalized
                 if abs(raw_sum - 1.0) > 1e-3:
                     peak_ls = np.array([x / raw_sum for x in raw])
@@ -341,6 +345,8 @@ class Building:
             if custom_avg_ls is not None:
                 raw_avg     = list(custom_avg_ls)
                 avg_sum     = sum(raw_avg)
+                if avg_sum <= 0:
+                    raise ValueError("custom_avg_load_shape must have a positive total.")
                 avg_ls      = np.array([x / avg_sum for x in raw_avg])
                 _validate_load_shape(list(avg_ls), 'custom_avg_load_shape')
             else:
-- 
2.43.0


From 48994236a1fe6bf49d731ac50d795a5c6f8f793f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:51 +0000
Subject: [PATCH 21/22] fix: an engine for a multi-family building without
 gpdpp was refused

---
 src/ecoengine/interfaces/EcosizerEngine.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ecoengine/interfaces/EcosizerEngine.py b/src/ecoengine/interfaces/EcosizerEngine.py
index d1c3251..211fc1b 100644
--- a/src/ecoengine/interfaces/EcosizerEngine.py
+++ b/src/ecoengine/interfaces/EcosizerEngine.py
@@ -686,13 +686,15 @@ class EcosizerEngine:
         from ecoengine.objects.building.ClimateZone import ClimateZone
 
         zone = self._build_climate_zone(ClimateZone)
+        # without gpdpp the building type's default applies
+        gpdpp_kwargs = {} if self.gpdpp is None else {"gpdpp": self.gpdpp}
         return Building.from_building_type(
             building_type           = self.building_type,
             magnitude               = self.magnitude,
             climate_zone            = zone,
-            gpdpp                   = self.gpdpp,
             custom_peak_load_shape  = self.custom_peak_load_shape,
             custom_avg_load_shape   = self.custom_avg_load_shape,
+            **gpdpp_kwargs,
         )
 
     def _build_climate_zone(self, ClimateZone):
-- 
2.43.0


From dd415f47b1b64e0d8961561d594a8b2019dfa02e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:51 +0000
Subject: [PATCH 22/22] fix: zone numbers below one took another zone's weather

---
 src/ecoengine/objects/building/ClimateZone.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/ecoengine/objects/building/ClimateZone.py b/src/ecoengine/objects/building/ClimateZone.py
index b4b3b33..27e20cb 100644
--- a/src/ecoengine/objects/building/ClimateZone.py
+++ b/src/ecoengine/objects/building/ClimateZone.py
@@ -143,7 +143,14 @@ class ClimateZone:
         Returns
         -------
         ClimateZone
+
+        Raises
+        ------
+        ValueError
+            If there is no climate zone of that number.
         """
+        if not 1 <= zone_id <= 96:
+            raise ValueError(f"Climate zone {zone_id} was not found. Climate zones are numbered 1-96.")
         oat_f_by_hour               = cls._load_oat_data(zone_id)
         inlet_water_temp_f_by_month = cls._load_inlet_water_data(zone_id)
         return cls(zone_id, oat_f_by_hour, inlet_water_temp_f_by_month)
-- 
2.43.0

