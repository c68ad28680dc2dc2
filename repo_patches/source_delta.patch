From a1c64f1ae733d5df2e777943964a20a61d506d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:10 +0000
Subject: [PATCH 01/29] fix: switching back from the annual load shape restores
 custom daily shapes

set_to_daily_load_shape() always reloaded the building type's default shapes,
so sizing (which switches an annual building to daily and back) silently
dropped a multi_family building's custom load shapes.
---
 src/ecoengine/objects/building/Building.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/ecoengine/objects/building/Building.py b/src/ecoengine/objects/building/Building.py
index 78c0116..e9eaf99 100644
--- a/src/ecoengine/objects/building/Building.py
+++ b/src/ecoengine/objects/building/Building.py
@@ -109,6 +109,8 @@ class Building:
         self.daily_dhw_use_supplyT_gal = daily_dhw_use_supplyT_gal
         self.peak_load_shape = np.array(peak_load_shape)
         self.avg_load_shape  = np.array(avg_load_shape)
+        # Daily shapes to return to after a switch to the annual shape.
+        self._daily_load_shapes: tuple[np.ndarray, np.ndarray] | None = None
         self.utility_cost_tracker = utility_cost_tracker
         self.building_type = building_type
 
@@ -437,12 +439,16 @@ class Building:
             )
         data      = _load_shape_json('multi_family')
         annual_ls = np.array(data['loadshapes']['Annual_Normalized'])
+        if not self.is_annual_load_shape():
+            self._daily_load_shapes = (self.peak_load_shape, self.avg_load_shape)
         self.peak_load_shape = annual_ls
         self.avg_load_shape  = annual_ls  # one shape for the whole year; no separate peak/avg
 
     def set_to_daily_load_shape(self) -> None:
         """
-        Switch back to the 24-hour daily load shapes (Stream / Stream_Avg).
+        Switch back to the 24-hour daily load shapes: the ones in use before
+        the switch to the annual shape (custom shapes included), or the
+        building type's defaults (Stream / Stream_Avg) if there are none.
 
         Only supported for multi_family buildings.
 
@@ -456,6 +462,11 @@ class Building:
                 "set_to_daily_load_shape() is only available for multi_family buildings. "
                 f"This building is type '{self.building_type}'."
             )
+        if not self.is_annual_load_shape():
+            return
+        if self._daily_load_shapes is not None:
+            self.peak_load_shape, self.avg_load_shape = self._daily_load_shapes
+            return
         data = _load_shape_json('multi_family')
         self.peak_load_shape = np.array(data['loadshapes']['Stream'])
         self.avg_load_shape  = np.array(data['loadshapes']['Stream_Avg'])
-- 
2.43.0


From 4a87446ca5a791360eea3be2602e8177905931e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:55 +0000
Subject: [PATCH 02/29] fix: draw temperature during a heating cycle reads the
 profile where the grown slug pushed it

---
 .../objects/components/storage/SlugOverlayTank.py    | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/ecoengine/objects/components/storage/SlugOverlayTank.py b/src/ecoengine/objects/components/storage/SlugOverlayTank.py
index b96496f..117e9ee 100644
--- a/src/ecoengine/objects/components/storage/SlugOverlayTank.py
+++ b/src/ecoengine/objects/components/storage/SlugOverlayTank.py
@@ -265,15 +265,21 @@ class SlugOverlayTank(EnergyTank):
         Analytically integrates the back-calculated stratified profile over
         the draw zone (top of tank downward).
         """
-        if not self._slug_active:
+        if not self._slug_active or draw_gal <= 0.0:
             return super().get_average_draw_temp_f(draw_gal)
         draw_gal_pct = draw_gal/self.total_volume_gal * 100.0
+        # Water that has entered the slug since activation pushed the frozen
+        # profile up by the same volume; the top of the tank now sits that far
+        # below the top of the profile.
+        growth_pct = (self._slug_vol_gal - self._original_slug_vol_gal) / self.total_volume_gal * 100.0
+        top_pct = 100.0 - growth_pct
         if 100.0 - draw_gal_pct >= self._slug_top_pct:
             # All draw above slug
-            return super().get_average_draw_temp_f(draw_gal)
+            return self._zone_average_temp_f(top_pct - draw_gal_pct, top_pct)
         non_slug_draw_pct = 100.0 - self._slug_top_pct
         slug_draw_pct = draw_gal_pct - non_slug_draw_pct
-        return ((super().get_average_draw_temp_f(self.total_volume_gal * (non_slug_draw_pct/100.0)) * non_slug_draw_pct) + (self._slug_temp_f * slug_draw_pct)) / draw_gal_pct
+        non_slug_temp_f = self._zone_average_temp_f(top_pct - non_slug_draw_pct, top_pct)
+        return ((non_slug_temp_f * non_slug_draw_pct) + (self._slug_temp_f * slug_draw_pct)) / draw_gal_pct
     
     def get_temperature_at_fraction(self, fract: float, verbose = False) -> float:
         """
-- 
2.43.0


From 78e13c1c7f77b6f409f62191726186904223bab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:09:26 +0000
Subject: [PATCH 03/29] fix: a fully drawn stratified tank reports exactly zero
 usable volume, so its outage is counted

---
 .../objects/components/storage/StratifiedTank.py    | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/ecoengine/objects/components/storage/StratifiedTank.py b/src/ecoengine/objects/components/storage/StratifiedTank.py
index e79021a..3a1d580 100644
--- a/src/ecoengine/objects/components/storage/StratifiedTank.py
+++ b/src/ecoengine/objects/components/storage/StratifiedTank.py
@@ -132,14 +132,11 @@ class StratifiedTank(StorageTank):
         -------
         float
         """
-        # Solve for x_pct where T = supply_temp_f (lower boundary of usable zone):
-        #   strat_slope * (x_pct + shift_pct) + strat_inter = supply_temp_f
-        #   x_pct = (supply_temp_f - strat_inter) / strat_slope - shift_pct
-        shift_pct     = self._delta_gal / self.total_volume_gal * 100.0
-        x_supply_pct  = (supply_temp_f - self._strat_inter) / self.strat_slope - shift_pct
-        x_supply_pct  = max(0.0, min(100.0, x_supply_pct))
-        usable_fract  = (100.0 - x_supply_pct) / 100.0
-        return usable_fract * self.total_volume_gal
+        # Gallons the thermocline sits above the point where the very top of the
+        # tank is at supply_temp_f.  Measured from that same floor (rather than
+        # via the height fraction) so that a fully drawn-down tank reads exactly 0.
+        usable_gal = self._delta_gal - self._delta_gal_floor(supply_temp_f)
+        return max(0.0, min(self.total_volume_gal, usable_gal))
 
     # ------------------------------------------------------------------
     # Simulation operations
-- 
2.43.0


From 50a5469fabc6ac94c0324aa7e6938700350d9a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:15:03 +0000
Subject: [PATCH 04/29] fix: temperature-maintenance power is recorded for
 every timestep, so it is billed at the time it was drawn

---
 src/ecoengine/objects/simulation/SimulationRun.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ecoengine/objects/simulation/SimulationRun.py b/src/ecoengine/objects/simulation/SimulationRun.py
index 5c68b12..49e88ef 100644
--- a/src/ecoengine/objects/simulation/SimulationRun.py
+++ b/src/ecoengine/objects/simulation/SimulationRun.py
@@ -76,7 +76,7 @@ class SimulationRun:
         # TM (swing tank) per-timestep data — only populated for SwingSystem runs
         self.tm_tank_temp_f:           list[float] = []
         self.tm_heater_output_kbtuh:   list[float] = []
-        self.tm_heater_input_kw:   list[float] = []
+        self.tm_heater_input_kw:   list[float | None] = []
 
         # Cumulative outage counter [minutes]
         self.outage_minutes: int = 0
@@ -150,7 +150,9 @@ class SimulationRun:
             self.tm_tank_temp_f.append(tm_tank_temp_f)
         if tm_heater_output_kbtuh is not None:
             self.tm_heater_output_kbtuh.append(tm_heater_output_kbtuh)
-        if tm_heater_input_kw is not None:
+        # A step of a system with a TM tank always gets its entry (None while the TM
+        # heater is idle) so that tm_heater_input_kw[i] belongs to timestep i.
+        if tm_tank_temp_f is not None or tm_heater_input_kw is not None:
             self.tm_heater_input_kw.append(tm_heater_input_kw)
 
     def check_outlet_deficit(self, top_tank_temp_f: float, supply_temp_f: float) -> bool:
-- 
2.43.0


From 7949eeb7563e5b11a42d276a1aacf53b6562e3c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:15:07 +0000
Subject: [PATCH 05/29] fix: peak demand, monthly energy and monthly cost
 include the temperature-maintenance heater

---
 .../objects/simulation/SimulationRun.py       | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/ecoengine/objects/simulation/SimulationRun.py b/src/ecoengine/objects/simulation/SimulationRun.py
index 49e88ef..bbdc8b0 100644
--- a/src/ecoengine/objects/simulation/SimulationRun.py
+++ b/src/ecoengine/objects/simulation/SimulationRun.py
@@ -252,6 +252,13 @@ class SimulationRun:
             f"of the simulation with an average delivered water temperature of {avg_delivery_temp:.1f}°F."
         )
 
+    def _total_power_in_kw(self, i: int) -> float:
+        """Primary plus TM heater power at timestep *i* [kW]; missing data counts as 0."""
+        kw = self.heater_power_in_kw[i] or 0.0
+        if i < len(self.tm_heater_input_kw):
+            kw += self.tm_heater_input_kw[i] or 0.0
+        return kw
+
     def get_total_energy_kwh(self) -> float:
         """
         Return total electrical energy consumed over the simulation [kWh].
@@ -277,8 +284,10 @@ class SimulationRun:
         -------
         float
         """
-        non_none = [p for p in self.heater_power_in_kw if p is not None]
-        return max(non_none) if non_none else 0.0
+        return max(
+            (self._total_power_in_kw(i) for i in range(len(self.heater_power_in_kw))),
+            default=0.0,
+        )
 
     def get_summary(self) -> dict:
         """
@@ -601,8 +610,8 @@ class SimulationRun:
         energy_by_month = [0.0] * 12
         max_kw_by_period: dict[int, float] = {}
 
-        for i, kw_raw in enumerate(self.heater_power_in_kw):
-            kw   = kw_raw or 0.0
+        for i in range(len(self.heater_power_in_kw)):
+            kw   = self._total_power_in_kw(i)
             rate = uc.get_energy_charge_at_step(i, self.timestep_min)
             energy_by_month[_step_to_month(i, self.timestep_min)] += (
                 kw * hours_per_step * rate
@@ -698,7 +707,7 @@ class SimulationRun:
         for month_idx, days in enumerate(_DAYS_IN_MONTH):
             n_steps = days * steps_per_day
             monthly[month_idx] = sum(
-                (self.heater_power_in_kw[i] or 0.0) * hours_per_step
+                self._total_power_in_kw(i) * hours_per_step
                 for i in range(step, min(step + n_steps, len(self.heater_power_in_kw)))
             )
             step += n_steps
-- 
2.43.0


From dece1805bc3f3f346871e24aa645031b82364f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:15:26 +0000
Subject: [PATCH 06/29] fix: simulating a parallel loop no longer prints a line
 per timestep

---
 .../objects/dhwsystems/recirc_systems/ParallelLoopSystem.py      | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/ecoengine/objects/dhwsystems/recirc_systems/ParallelLoopSystem.py b/src/ecoengine/objects/dhwsystems/recirc_systems/ParallelLoopSystem.py
index 7bbdbb1..17c9db7 100644
--- a/src/ecoengine/objects/dhwsystems/recirc_systems/ParallelLoopSystem.py
+++ b/src/ecoengine/objects/dhwsystems/recirc_systems/ParallelLoopSystem.py
@@ -414,5 +414,4 @@ class ParallelLoopSystem(RecircSystem):
         step["tm_tank_temp_f"]         = self.tm_storage_tank.get_temperature_at_fraction(0.5)
         step["tm_heater_output_kbtuh"] = tm_kbtuh
         step["tm_heater_input_kw"]     = tm_kw
-        print(f'{step["tm_heater_input_kw"]}, {step["tm_tank_temp_f"] }, {step["tm_heater_output_kbtuh"]}')
         return step
-- 
2.43.0


From fcd949d373d29011a79778984c51481da46e97a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:15:46 +0000
Subject: [PATCH 07/29] fix: multi-pass return-to-primary runs record the
 outdoor temperature, not the tank's

---
 .../objects/dhwsystems/rtp_systems/MultiPassRTPSystem.py        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ecoengine/objects/dhwsystems/rtp_systems/MultiPassRTPSystem.py b/src/ecoengine/objects/dhwsystems/rtp_systems/MultiPassRTPSystem.py
index 60198e8..5c46c07 100644
--- a/src/ecoengine/objects/dhwsystems/rtp_systems/MultiPassRTPSystem.py
+++ b/src/ecoengine/objects/dhwsystems/rtp_systems/MultiPassRTPSystem.py
@@ -638,7 +638,7 @@ class MultiPassRTPSystem(RTPSystem):
             "usable_volume_supplyT_gal": usable_vol_gal,
             "heater_output_kbtuh":       total_kbtuh,
             "heater_power_in_kw":        total_kw,
-            "oat_f":                     top_temp_f,
+            "oat_f":                     oat_f,
             "inlet_water_temp_f":        inlet_water_temp_f,
             "tank_temps_f":              tank_temps_f,
             "mode":                      mode,
-- 
2.43.0


From efb38382b612373111293784ded83871ef5e6de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:16:09 +0000
Subject: [PATCH 08/29] fix: sizing that ends in an error leaves the building
 on its annual load shape

---
 src/ecoengine/objects/dhwsystems/DHWSystem.py                | 5 ++---
 .../objects/dhwsystems/recirc_systems/SwingSystem.py         | 5 ++---
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/ecoengine/objects/dhwsystems/DHWSystem.py b/src/ecoengine/objects/dhwsystems/DHWSystem.py
index 46e39f9..3736748 100644
--- a/src/ecoengine/objects/dhwsystems/DHWSystem.py
+++ b/src/ecoengine/objects/dhwsystems/DHWSystem.py
@@ -379,9 +379,8 @@ class DHWSystem:
 
         finally:
             self.max_daily_run_hr = original_max_run_hr
-
-        if was_annual:
-            building.set_to_annual_load_shape()
+            if was_annual:
+                building.set_to_annual_load_shape()
 
     def get_minimum_capacity_kbtuh(self) -> float:
         """
diff --git a/src/ecoengine/objects/dhwsystems/recirc_systems/SwingSystem.py b/src/ecoengine/objects/dhwsystems/recirc_systems/SwingSystem.py
index 7b90b9a..4aed5c3 100644
--- a/src/ecoengine/objects/dhwsystems/recirc_systems/SwingSystem.py
+++ b/src/ecoengine/objects/dhwsystems/recirc_systems/SwingSystem.py
@@ -266,9 +266,8 @@ class SwingSystem(RecircSystem):
 
         finally:
             self.max_daily_run_hr = original_max_run_hr
-
-        if was_annual:
-            building.set_to_annual_load_shape()
+            if was_annual:
+                building.set_to_annual_load_shape()
 
     # ------------------------------------------------------------------
     # Sizing curve — override to enforce correct call order
-- 
2.43.0


From 013c540165e570729d0e7e7991a635b3eb797b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:16:13 +0000
Subject: [PATCH 09/29] fix: a simulation starts with its heaters off instead
 of in the state an earlier run left them

---
 src/ecoengine/interfaces/Simulator.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/ecoengine/interfaces/Simulator.py b/src/ecoengine/interfaces/Simulator.py
index 0127b4c..ebd4b79 100644
--- a/src/ecoengine/interfaces/Simulator.py
+++ b/src/ecoengine/interfaces/Simulator.py
@@ -57,6 +57,13 @@ def simulate(dhw_system: DHWSystem, building: Building, duration: str = "3day",
     from ecoengine.objects.dhwsystems.recirc_systems.SwingSystem import SwingSystem
     sim_run.show_tm_panel = isinstance(dhw_system, SwingSystem)
 
+    # Every run starts with all heaters off, whatever an earlier run left behind
+    for wh in dhw_system.water_heaters:
+        wh.turn_off()
+    tm_water_heater = getattr(dhw_system, "tm_water_heater", None)
+    if tm_water_heater is not None:
+        tm_water_heater.turn_off()
+
     # Initialize storage tanks
     inlet_temp_f    = building.get_design_inlet_water_temp_f() or 50.0
     percent_useable = _initial_percent_useable(dhw_system)
-- 
2.43.0


From 211ec76c82e7c7c14bfa0efed871f616fc27dd9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:25 +0000
Subject: [PATCH 10/29] fix: a five-digit integer zip code selects its climate
 zone, as documented

---
 src/ecoengine/interfaces/EcosizerEngine.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ecoengine/interfaces/EcosizerEngine.py b/src/ecoengine/interfaces/EcosizerEngine.py
index d6c7039..1206400 100644
--- a/src/ecoengine/interfaces/EcosizerEngine.py
+++ b/src/ecoengine/interfaces/EcosizerEngine.py
@@ -702,6 +702,8 @@ class EcosizerEngine:
             return ClimateZone.from_design_conditions(**czv)
         if isinstance(czv, str) and czv.isdigit() and len(czv) == 5:
             return ClimateZone.from_zip_code(czv)
+        if isinstance(czv, int) and 10000 <= czv <= 99999:
+            return ClimateZone.from_zip_code(czv)
         if isinstance(czv, int) and 1 <= czv <= 96:
             return ClimateZone.from_zone_id(czv)
         if isinstance(czv, str):
-- 
2.43.0


From 80099bc0fe75f275aa90c515c310d7665cc68b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:25 +0000
Subject: [PATCH 11/29] fix: the engine attaches its utility_cost_tracker to
 the building

---
 src/ecoengine/interfaces/EcosizerEngine.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ecoengine/interfaces/EcosizerEngine.py b/src/ecoengine/interfaces/EcosizerEngine.py
index 1206400..3070651 100644
--- a/src/ecoengine/interfaces/EcosizerEngine.py
+++ b/src/ecoengine/interfaces/EcosizerEngine.py
@@ -693,6 +693,7 @@ class EcosizerEngine:
             gpdpp                   = self.gpdpp,
             custom_peak_load_shape  = self.custom_peak_load_shape,
             custom_avg_load_shape   = self.custom_avg_load_shape,
+            utility_cost_tracker    = self.utility_cost_tracker,
         )
 
     def _build_climate_zone(self, ClimateZone):
-- 
2.43.0


From a129727b7071967f18d2c3bb5ab1ddac6ce55673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:25 +0000
Subject: [PATCH 12/29] fix: an omitted gpdpp uses the building type's default
 instead of failing

---
 src/ecoengine/interfaces/EcosizerEngine.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ecoengine/interfaces/EcosizerEngine.py b/src/ecoengine/interfaces/EcosizerEngine.py
index 3070651..ee6d4a6 100644
--- a/src/ecoengine/interfaces/EcosizerEngine.py
+++ b/src/ecoengine/interfaces/EcosizerEngine.py
@@ -686,14 +686,15 @@ class EcosizerEngine:
         from ecoengine.objects.building.ClimateZone import ClimateZone
 
         zone = self._build_climate_zone(ClimateZone)
+        gpdpp_kwargs = {} if self.gpdpp is None else {"gpdpp": self.gpdpp}
         return Building.from_building_type(
             building_type           = self.building_type,
             magnitude               = self.magnitude,
             climate_zone            = zone,
-            gpdpp                   = self.gpdpp,
             custom_peak_load_shape  = self.custom_peak_load_shape,
             custom_avg_load_shape   = self.custom_avg_load_shape,
             utility_cost_tracker    = self.utility_cost_tracker,
+            **gpdpp_kwargs,
         )
 
     def _build_climate_zone(self, ClimateZone):
-- 
2.43.0


From b55c319f00f8116e1b2e948b671ec2d290e0362f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:25 +0000
Subject: [PATCH 13/29] fix: load-up hours without a load-up aquastat keep the
 normal sensor instead of an undefined mode

---
 src/ecoengine/interfaces/EcosizerEngine.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ecoengine/interfaces/EcosizerEngine.py b/src/ecoengine/interfaces/EcosizerEngine.py
index ee6d4a6..4b1274b 100644
--- a/src/ecoengine/interfaces/EcosizerEngine.py
+++ b/src/ecoengine/interfaces/EcosizerEngine.py
@@ -768,11 +768,12 @@ class EcosizerEngine:
             outlet_temp_f    = self.storage_temp_f,
         )
 
-        if self.load_up_hours > 0 and self.load_up_aquastat_fract is not None:
+        if self.load_up_hours > 0:
+            lu_on_fract  = self.load_up_aquastat_fract if self.load_up_aquastat_fract is not None else self.aquastat_fract
             lu_off_fract = self.load_up_off_sensor_fract if self.load_up_off_sensor_fract is not None else self.off_sensor_fract
             lu_off_t     = self.load_up_off_trigger_t_f  if self.load_up_off_trigger_t_f  is not None else off_t
             cmap["loadUp"] = Controls(
-                on_sensor_fract  = self.load_up_aquastat_fract,
+                on_sensor_fract  = lu_on_fract,
                 on_trigger_t_f   = on_t,
                 off_sensor_fract = lu_off_fract,
                 off_trigger_t_f  = lu_off_t,
-- 
2.43.0


From 112f1e6e115f6e118ccd628f938c6ff32fd4ad54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:25 +0000
Subject: [PATCH 14/29] fix: a load-shift schedule without shed hours sizes as
 no load shifting

---
 src/ecoengine/interfaces/EcosizerEngine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ecoengine/interfaces/EcosizerEngine.py b/src/ecoengine/interfaces/EcosizerEngine.py
index 4b1274b..230ca97 100644
--- a/src/ecoengine/interfaces/EcosizerEngine.py
+++ b/src/ecoengine/interfaces/EcosizerEngine.py
@@ -736,7 +736,7 @@ class EcosizerEngine:
             outlet_temp_f    = self.storage_temp_f,
         )
 
-        if not self.load_shift_schedule:
+        if not self.load_shift_schedule or 0 not in self.load_shift_schedule:
             return ["normal"] * 24, {"normal": normal}
 
         # Build schedule from 24-element 0/1 list (0 = shed, 1 = run)
-- 
2.43.0


From a9d3c401db31ef1ebc9398a01464e60ecf219792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:25 +0000
Subject: [PATCH 15/29] fix: the sized parallel loop gets its number of
 temperature-maintenance heaters

---
 src/ecoengine/interfaces/EcosizerEngine.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ecoengine/interfaces/EcosizerEngine.py b/src/ecoengine/interfaces/EcosizerEngine.py
index 230ca97..353c49f 100644
--- a/src/ecoengine/interfaces/EcosizerEngine.py
+++ b/src/ecoengine/interfaces/EcosizerEngine.py
@@ -844,6 +844,7 @@ class EcosizerEngine:
                     tm_off_temp_f              = self.tm_off_temp_f,
                     tm_off_time_hr             = self.tm_off_time_hr,
                     tm_safety_factor           = self.tm_safety_factor,
+                    num_tm_heaters             = self.num_tm_heaters,
                     max_daily_run_hr           = self.max_daily_run_hr,
                     defrost_factor             = self.defrost_factor,
                     control_schedule           = control_schedule,
-- 
2.43.0


From 2df01e294d1a3f815c19f541b93e4c643ac43af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:25 +0000
Subject: [PATCH 16/29] fix: a pre-sized engine without capacity or model
 raises an error naming them

---
 src/ecoengine/interfaces/EcosizerEngine.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ecoengine/interfaces/EcosizerEngine.py b/src/ecoengine/interfaces/EcosizerEngine.py
index 353c49f..c0199dc 100644
--- a/src/ecoengine/interfaces/EcosizerEngine.py
+++ b/src/ecoengine/interfaces/EcosizerEngine.py
@@ -997,6 +997,11 @@ class EcosizerEngine:
                     num_units=self.num_heaters,
                 )
             ]
+        elif self.heating_capacity_kbtuh is None:
+            raise ValueError(
+                f"Schematic '{self.schematic}' requires heating_capacity_kbtuh or hpwh_model "
+                "in pre-sized mode."
+            )
         else:
             capacity_per_heater = self.heating_capacity_kbtuh / self.num_heaters
             water_heaters = [
-- 
2.43.0


From b3c4fcbb886c06346b45587cac4fc1ee3aef2cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:42:03 +0000
Subject: [PATCH 17/29] fix: load-shift curves of swing systems use the mixing
 fraction of the system's own sizing, not a leftover one

---
 src/ecoengine/objects/dhwsystems/DHWSystem.py                  | 3 ++-
 src/ecoengine/objects/dhwsystems/recirc_systems/SwingSystem.py | 1 +
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ecoengine/objects/dhwsystems/DHWSystem.py b/src/ecoengine/objects/dhwsystems/DHWSystem.py
index 3736748..ebad57d 100644
--- a/src/ecoengine/objects/dhwsystems/DHWSystem.py
+++ b/src/ecoengine/objects/dhwsystems/DHWSystem.py
@@ -595,8 +595,9 @@ class DHWSystem:
             design_inlet = self._require_design_inlet_temp(building)
 
             # Pre-compute quantities that don't vary with fract_total_vol.
+            run_vol_normal = self._calc_running_volume_supplyT_gal(building, None)
+            # After the running volume, which a swing system's capacity depends on.
             cap_normal     = self._calc_required_capacity(building)
-            run_vol_normal = self._calc_running_volume_supplyT_gal(building, cap_normal)
             strat_normal   = self._calc_stratification_factor(
                 control_map, _strat_slope, design_inlet
             )
diff --git a/src/ecoengine/objects/dhwsystems/recirc_systems/SwingSystem.py b/src/ecoengine/objects/dhwsystems/recirc_systems/SwingSystem.py
index 4aed5c3..575ca77 100644
--- a/src/ecoengine/objects/dhwsystems/recirc_systems/SwingSystem.py
+++ b/src/ecoengine/objects/dhwsystems/recirc_systems/SwingSystem.py
@@ -452,6 +452,7 @@ class SwingSystem(RecircSystem):
 
         peak_indices = _get_peak_indices(hourly_diff)
         if not peak_indices:
+            self._eff_mix_fraction = 1.0
             return 0.0
 
         n_real_peaks = len(peak_indices)
-- 
2.43.0


From ea5c9819fad5abd95fdbf2cbfea8f6891b738d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:42:03 +0000
Subject: [PATCH 18/29] fix: single-pass return-to-primary sizing restores the
 building's daily use exactly

---
 .../objects/dhwsystems/rtp_systems/SinglePassRTPSystem.py   | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ecoengine/objects/dhwsystems/rtp_systems/SinglePassRTPSystem.py b/src/ecoengine/objects/dhwsystems/rtp_systems/SinglePassRTPSystem.py
index 401c001..2e06102 100644
--- a/src/ecoengine/objects/dhwsystems/rtp_systems/SinglePassRTPSystem.py
+++ b/src/ecoengine/objects/dhwsystems/rtp_systems/SinglePassRTPSystem.py
@@ -254,13 +254,14 @@ class SinglePassRTPSystem(RTPSystem):
             * 24.0
         )
 
+        original_daily_gal = building.daily_dhw_use_supplyT_gal
         building.daily_dhw_use_supplyT_gal += recirc_daily_supplyT_gal
         try:
             result = super()._calc_gen_rate_ls_gph(
                 control_schedule, control_map, building, strat_slope, fract_total_vol
             )
         finally:
-            building.daily_dhw_use_supplyT_gal -= recirc_daily_supplyT_gal
+            building.daily_dhw_use_supplyT_gal = original_daily_gal
         return result
 
     def _calc_running_volume_ls_supplyT_gal(
@@ -310,13 +311,14 @@ class SinglePassRTPSystem(RTPSystem):
             * 24.0
         )
 
+        original_daily_gal = building.daily_dhw_use_supplyT_gal
         building.daily_dhw_use_supplyT_gal += recirc_daily_supplyT_gal
         try:
             result = super()._calc_running_volume_ls_supplyT_gal(
                 control_schedule, building, gen_rate_ls_gph, fract_total_vol
             )
         finally:
-            building.daily_dhw_use_supplyT_gal -= recirc_daily_supplyT_gal
+            building.daily_dhw_use_supplyT_gal = original_daily_gal
         return result
 
     # ------------------------------------------------------------------
-- 
2.43.0


From 0780191b8a2e5d6ab6e90eeaee972dcab6f15476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:21:21 +0000
Subject: [PATCH 19/29] fix: the return-to-primary mixing valve handles an idle
 minute, storage at supply temperature and storage without useful heat

---
 src/ecoengine/objects/dhwsystems/utils.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/ecoengine/objects/dhwsystems/utils.py b/src/ecoengine/objects/dhwsystems/utils.py
index a47a94e..8ecd468 100644
--- a/src/ecoengine/objects/dhwsystems/utils.py
+++ b/src/ecoengine/objects/dhwsystems/utils.py
@@ -4,6 +4,16 @@ from ecoengine.constants.constants import _RHO_CP
 def mixing_valve_behavior(load_supplyT_gal : float, flow_returnT_gal : float, cold_temp_f : float, supply_temp_f : float, return_temp_f : float, storage_temp_f : float) -> dict:
     # For minute intervals, storage_temp_f is whatever temperature is at the top of the storage tank, set point storage temperature or not
     recirc_loss_btu = flow_returnT_gal * _RHO_CP * (supply_temp_f - return_temp_f)
+    if load_supplyT_gal <= 0 and recirc_loss_btu <= 0:
+        # nothing drawn and nothing lost: storage is left alone
+        return {"storage_draw_gal" : 0.0, "inlet_temp_f" : cold_temp_f}
+    if storage_temp_f == supply_temp_f or storage_temp_f <= cold_temp_f:
+        # nothing to mix down (or no useful heat left): all water delivered passes through storage
+        storage_draw_gal = load_supplyT_gal + flow_returnT_gal
+        return {
+            "storage_draw_gal" : storage_draw_gal,
+            "inlet_temp_f" : ((load_supplyT_gal * cold_temp_f) + (flow_returnT_gal * return_temp_f)) / storage_draw_gal
+        }
     critical_flow_gal = recirc_loss_btu / (_RHO_CP * (storage_temp_f - supply_temp_f))
 
     if load_supplyT_gal > critical_flow_gal:
-- 
2.43.0


From c7a7fa6be3cee1e5575177ac50f8811957d3e65b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:21:21 +0000
Subject: [PATCH 20/29] fix: a heating cycle that starts with the whole tank
 below supply mixes all of it, whatever the rounding

---
 src/ecoengine/objects/components/storage/SlugOverlayTank.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ecoengine/objects/components/storage/SlugOverlayTank.py b/src/ecoengine/objects/components/storage/SlugOverlayTank.py
index 117e9ee..ff6d265 100644
--- a/src/ecoengine/objects/components/storage/SlugOverlayTank.py
+++ b/src/ecoengine/objects/components/storage/SlugOverlayTank.py
@@ -150,7 +150,8 @@ class SlugOverlayTank(EnergyTank):
         shift_pct    = self._shift_pct_from_energy()
         x_supply_pct = (supply_temp_f - self._cold_temp_f) / self.strat_slope - shift_pct
         x_supply_pct = max(self._cold_pct, min(100.0, x_supply_pct))
-        slug_vol_gal = max(
+        whole_tank = x_supply_pct >= 100.0
+        slug_vol_gal = self._max_usable_vol_gal if whole_tank else max(
             0.0,
             (x_supply_pct - self._cold_pct) / 100.0 * self.total_volume_gal,
         )
@@ -162,7 +163,7 @@ class SlugOverlayTank(EnergyTank):
         self._slug_active    = True
         self._slug_vol_gal   = slug_vol_gal
         self._slug_temp_f    = slug_temp_f
-        self._slug_top_pct   = (
+        self._slug_top_pct   = 100.0 if whole_tank else (
             self._cold_pct + slug_vol_gal / self.total_volume_gal * 100.0
             if self.total_volume_gal > 0.0 else self._cold_pct
         )
-- 
2.43.0


From 49fff5407fab45f22a3c76a0d937ac39bc69561e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:24 +0000
Subject: [PATCH 21/29] fix: electric-resistance trade-off points leave the
 building and system unchanged when a point cannot be sized

---
 .../recirc_systems/SwingERTrdOffSystem.py     | 54 ++++++++++---------
 1 file changed, 28 insertions(+), 26 deletions(-)

diff --git a/src/ecoengine/objects/dhwsystems/recirc_systems/SwingERTrdOffSystem.py b/src/ecoengine/objects/dhwsystems/recirc_systems/SwingERTrdOffSystem.py
index 2d21238..3def966 100644
--- a/src/ecoengine/objects/dhwsystems/recirc_systems/SwingERTrdOffSystem.py
+++ b/src/ecoengine/objects/dhwsystems/recirc_systems/SwingERTrdOffSystem.py
@@ -576,32 +576,34 @@ class SwingERTrdOffSystem(SwingSystem):
         startind = 0
 
         i = 120.0
-        while i > 0:
-            if i == 100.0:
-                startind   = len(fract_covered)
-                total_tm_i = original_total_tm
-                er_needed  = True
-            else:
-                building.daily_dhw_use_supplyT_gal = original_daily_gal * (i / 100.0)
-                self._minimum_tm_capacity_kbtuh    = base_tm_kbtuh
-                self._er_capacity_kbtuh            = None
-                self.er_safety_factor              = additional_er_safety
-                self._size_er_element(building)
-                self.er_safety_factor              = original_er_safety
-                total_tm_i = self._minimum_tm_capacity_kbtuh
-                er_needed  = bool(self._er_capacity_kbtuh and self._er_capacity_kbtuh > 0)
-
-            er_cap_kw.append(round(total_tm_i / _W_TO_KBTUH, 0))
-            fract_covered.append(i)
-            i -= 10.0
-
-            if not er_needed:
-                break  # no ER at this fraction; lower fractions won't need it either
-
-        # Restore mutated state
-        building.daily_dhw_use_supplyT_gal = original_daily_gal
-        self._minimum_tm_capacity_kbtuh    = original_total_tm
-        self._er_capacity_kbtuh            = original_er_kbtuh
+        try:
+            while i > 0:
+                if i == 100.0:
+                    startind   = len(fract_covered)
+                    total_tm_i = original_total_tm
+                    er_needed  = True
+                else:
+                    building.daily_dhw_use_supplyT_gal = original_daily_gal * (i / 100.0)
+                    self._minimum_tm_capacity_kbtuh    = base_tm_kbtuh
+                    self._er_capacity_kbtuh            = None
+                    self.er_safety_factor              = additional_er_safety
+                    self._size_er_element(building)
+                    self.er_safety_factor              = original_er_safety
+                    total_tm_i = self._minimum_tm_capacity_kbtuh
+                    er_needed  = bool(self._er_capacity_kbtuh and self._er_capacity_kbtuh > 0)
+
+                er_cap_kw.append(round(total_tm_i / _W_TO_KBTUH, 0))
+                fract_covered.append(i)
+                i -= 10.0
+
+                if not er_needed:
+                    break  # no ER at this fraction; lower fractions won't need it either
+        finally:
+            # Restore mutated state
+            building.daily_dhw_use_supplyT_gal = original_daily_gal
+            self._minimum_tm_capacity_kbtuh    = original_total_tm
+            self._er_capacity_kbtuh            = original_er_kbtuh
+            self.er_safety_factor              = original_er_safety
 
         # Lists were built high-to-low; reverse so x is ascending
         fract_covered.reverse()
-- 
2.43.0


From 3574c46c10779e2111a609d10636979b3bc374e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:26:57 +0000
Subject: [PATCH 22/29] fix: a tariff with hourly energy rates keeps them when
 written to a file

---
 src/ecoengine/objects/building/UtilityCostTracker.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/ecoengine/objects/building/UtilityCostTracker.py b/src/ecoengine/objects/building/UtilityCostTracker.py
index d008c95..5a11f22 100644
--- a/src/ecoengine/objects/building/UtilityCostTracker.py
+++ b/src/ecoengine/objects/building/UtilityCostTracker.py
@@ -640,8 +640,9 @@ class UtilityCostTracker:
 
         Produces 8760 data rows (one per hour of a non-leap year) plus a header.
         Energy and demand rates are written on the *first* occurrence of each
-        demand period; subsequent rows leave those fields blank.  The monthly
-        base charge appears only in the first data row.
+        demand period; subsequent rows leave those fields blank, except that a
+        tariff with hourly energy rates has its rate written in every row.  The
+        monthly base charge appears only in the first data row.
 
         Parameters
         ----------
@@ -672,12 +673,13 @@ class UtilityCostTracker:
                 date_str = f"{_MONTH_NAMES[month]} {day}, {h % 24:02d}:00"
                 period   = self.demand_period_chart[h]
 
+                hourly = len(self.energy_charge_by_hour) == 8760
                 if period not in seen_periods:
-                    energy_rate = self.energy_charge_map.get(period, "")
+                    energy_rate = self.energy_charge_by_hour[h] if hourly else self.energy_charge_map.get(period, "")
                     demand_rate = self.demand_charge_map.get(period, "")
                     seen_periods.add(period)
                 else:
-                    energy_rate = ""
+                    energy_rate = self.energy_charge_by_hour[h] if hourly else ""
                     demand_rate = ""
 
                 base_charge = self.monthly_base_charge if h == 0 else ""
-- 
2.43.0


From 404117d5dc4083ae23f2eade0ffe3fbedad81f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:26:57 +0000
Subject: [PATCH 23/29] fix: incomplete or mismatched discount parameters of a
 tariff are rejected

---
 .../objects/building/UtilityCostTracker.py    | 42 +++++++++++++++++++
 1 file changed, 42 insertions(+)

diff --git a/src/ecoengine/objects/building/UtilityCostTracker.py b/src/ecoengine/objects/building/UtilityCostTracker.py
index 5a11f22..1a14549 100644
--- a/src/ecoengine/objects/building/UtilityCostTracker.py
+++ b/src/ecoengine/objects/building/UtilityCostTracker.py
@@ -151,6 +151,42 @@ def _validate_params(
             raise ValueError("Error: final end_month must be 12.")
 
 
+def _validate_discount_params(
+    n: int,
+    include_discount: bool,
+    dscnt_start_hour: list,
+    dscnt_end_hour: list,
+    discnt_demand_charge: list,
+    discnt_energy_charge: list,
+) -> None:
+    """
+    Validate the list-normalised discount parameters of *n* rate blocks.
+
+    A block without discount hours (None) has no discount period.
+    """
+    if not (
+        len(dscnt_start_hour) == len(dscnt_end_hour)
+        == len(discnt_demand_charge) == len(discnt_energy_charge) == n
+    ):
+        raise ValueError(
+            "Error: dscnt_start_hour, dscnt_end_hour, discnt_demand_charge, and "
+            "discnt_energy_charge must be the same length as pk_start_hour."
+        )
+    if not include_discount:
+        return
+
+    for i in range(n):
+        if dscnt_start_hour[i] is None or dscnt_end_hour[i] is None:
+            continue
+        for hour in (dscnt_start_hour[i], dscnt_end_hour[i]):
+            if not isinstance(hour, (int, float)) or hour < 0 or hour > 24:
+                raise ValueError("Error: discount hours must be numbers between 0 and 24.")
+        if not isinstance(discnt_demand_charge[i], (int, float)):
+            raise ValueError("Error: discount demand charge must be a number.")
+        if not isinstance(discnt_energy_charge[i], (int, float)):
+            raise ValueError("Error: discount energy charge must be a number.")
+
+
 def _fill_period_maps(
     demand_period_chart: list[int],
     demand_charge_map: dict[int, float],
@@ -385,6 +421,12 @@ class UtilityCostTracker:
             start_month, end_month,
         )
 
+        _validate_discount_params(
+            n, include_discount,
+            dscnt_start_hour, dscnt_end_hour,
+            discnt_demand_charge, discnt_energy_charge,
+        )
+
         num_periods         = 3 if include_discount else 2
         demand_period_chart = [0] * 8760
         demand_charge_map   = {}
-- 
2.43.0


From 24f3dc6fabdb83f086e57a72e89ef6c0cacd2081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:26:57 +0000
Subject: [PATCH 24/29] fix: an empty tariff file is rejected with a ValueError

---
 src/ecoengine/objects/building/UtilityCostTracker.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ecoengine/objects/building/UtilityCostTracker.py b/src/ecoengine/objects/building/UtilityCostTracker.py
index 1a14549..7792490 100644
--- a/src/ecoengine/objects/building/UtilityCostTracker.py
+++ b/src/ecoengine/objects/building/UtilityCostTracker.py
@@ -501,7 +501,7 @@ class UtilityCostTracker:
 
         try:
             reader = csv.reader(csv_file)
-            header = next(reader)
+            header = next(reader, [])
             rows   = list(reader)
         finally:
             if opened_here:
-- 
2.43.0


From cf256f0fea07d7b7e5fbe5704503f6e1d2e49d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:26:57 +0000
Subject: [PATCH 25/29] fix: monthly cost breakdowns charge every demand
 period, whatever its label, so that they add up to the annual cost

---
 .../objects/simulation/SimulationRun.py       | 32 +++++++++----------
 1 file changed, 15 insertions(+), 17 deletions(-)

diff --git a/src/ecoengine/objects/simulation/SimulationRun.py b/src/ecoengine/objects/simulation/SimulationRun.py
index bbdc8b0..f6b1315 100644
--- a/src/ecoengine/objects/simulation/SimulationRun.py
+++ b/src/ecoengine/objects/simulation/SimulationRun.py
@@ -609,25 +609,23 @@ class SimulationRun:
         hours_per_step  = self.timestep_min / 60.0
         energy_by_month = [0.0] * 12
         max_kw_by_period: dict[int, float] = {}
+        month_by_period:  dict[int, int]   = {}
 
         for i in range(len(self.heater_power_in_kw)):
             kw   = self._total_power_in_kw(i)
             rate = uc.get_energy_charge_at_step(i, self.timestep_min)
-            energy_by_month[_step_to_month(i, self.timestep_min)] += (
-                kw * hours_per_step * rate
-            )
+            month = _step_to_month(i, self.timestep_min)
+            energy_by_month[month] += kw * hours_per_step * rate
             period = uc.get_demand_period_at_step(i, self.timestep_min)
             if period not in max_kw_by_period or kw > max_kw_by_period[period]:
                 max_kw_by_period[period] = kw
+                month_by_period[period]  = month
 
-        # Assign each period's demand charge to its calendar month.
-        # Period key = month * num_periods + offset → month = key // num_periods.
-        num_periods     = 3 if uc.include_discount else 2
+        # Assign each period's demand charge to the calendar month its peak was set in
+        # (period labels read from a file need not follow the month * num_periods scheme).
         demand_by_month = [0.0] * 12
         for period, max_kw in max_kw_by_period.items():
-            m = period // num_periods
-            if 0 <= m < 12:
-                demand_by_month[m] += uc.get_demand_charge_for_period(period, max_kw)
+            demand_by_month[month_by_period[period]] += uc.get_demand_charge_for_period(period, max_kw)
 
         return {
             "energy": energy_by_month,
@@ -650,6 +648,7 @@ class SimulationRun:
         energy_peak         = [0.0] * 12
         energy_off_peak     = [0.0] * 12
         max_kw_by_period: dict[int, float] = {}
+        month_by_period:  dict[int, int]   = {}
 
         for i, kw_raw in enumerate(self.heater_power_in_kw):
             kw = kw_raw or 0.0
@@ -665,18 +664,17 @@ class SimulationRun:
                 energy_off_peak[month] += cost
             if period not in max_kw_by_period or kw > max_kw_by_period[period]:
                 max_kw_by_period[period] = kw
+                month_by_period[period]  = month
 
-        num_periods    = 3 if uc.include_discount else 2
         demand_peak    = [0.0] * 12
         demand_off_peak = [0.0] * 12
         for period, max_kw in max_kw_by_period.items():
-            m = period // num_periods
-            if 0 <= m < 12:
-                charge = uc.get_demand_charge_for_period(period, max_kw)
-                if uc.is_peak_map.get(period, False):
-                    demand_peak[m] += charge
-                else:
-                    demand_off_peak[m] += charge
+            m = month_by_period[period]
+            charge = uc.get_demand_charge_for_period(period, max_kw)
+            if uc.is_peak_map.get(period, False):
+                demand_peak[m] += charge
+            else:
+                demand_off_peak[m] += charge
 
         return {
             "energy_peak":     energy_peak,
-- 
2.43.0


From 9a68fcf963730515a8e416293623da9dfb613963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:52:41 +0000
Subject: [PATCH 26/29] fix: a pre-sized swing tank without tm_capacity_kbtuh
 is refused

tm_model alone passed the check for temperature-maintenance inputs, but the swing
tank's element is always electric resistance, so it was built with no capacity and
simulated as if it were absent.
---
 src/ecoengine/interfaces/EcosizerEngine.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ecoengine/interfaces/EcosizerEngine.py b/src/ecoengine/interfaces/EcosizerEngine.py
index c0199dc..a5e1572 100644
--- a/src/ecoengine/interfaces/EcosizerEngine.py
+++ b/src/ecoengine/interfaces/EcosizerEngine.py
@@ -963,6 +963,11 @@ class EcosizerEngine:
                 design_inlet_temp_f=self.return_temp_f if self.return_temp_f is not None else 50.0,
                 nominal_capacity_kbtuh=per_unit_kbtuh,  # used by ER fallback when OAT < map minimum
             )
+        if per_unit_kbtuh is None:
+            raise ValueError(
+                f"Schematic '{self.schematic}' requires tm_capacity_kbtuh in pre-sized mode "
+                "(its temperature-maintenance element does not use tm_model)."
+            )
         return WaterHeater.from_nominal_capacity(
             nominal_capacity_kbtuh=per_unit_kbtuh,
             control_schedule=["normal"] * 24,
-- 
2.43.0


From 9f4838d6b6485550c59fce661a951d41d904c362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:53:29 +0000
Subject: [PATCH 27/29] fix: instantaneous heater sized for its peak hour, not
 sixty times that

daily use times the peak hourly fraction already is gallons per hour; the factor of
60 made the minimum capacity sixty times the highest output the design day needs.
---
 src/ecoengine/objects/dhwsystems/InstantWHSystem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ecoengine/objects/dhwsystems/InstantWHSystem.py b/src/ecoengine/objects/dhwsystems/InstantWHSystem.py
index 5a0bdf6..4d15890 100644
--- a/src/ecoengine/objects/dhwsystems/InstantWHSystem.py
+++ b/src/ecoengine/objects/dhwsystems/InstantWHSystem.py
@@ -81,7 +81,7 @@ class InstantWHSystem(DHWSystem):
         delta_t = self.supply_temp_f - design_inlet_temp_f
 
         # Peak instantaneous generation rate [gal/hr at supply temp]
-        peak_gph = building.daily_dhw_use_supplyT_gal * float(max(building.peak_load_shape)) * 60.0
+        peak_gph = building.daily_dhw_use_supplyT_gal * float(max(building.peak_load_shape))
 
         self._minimum_capacity_kbtuh       = peak_gph * _RHO_CP * delta_t / self.defrost_factor / 1000.0
         self._minimum_storage_storageT_gal = 0.0
-- 
2.43.0


From 2a21acdba177290e45fff24a2d1908f5c2150655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:54 +0000
Subject: [PATCH 28/29] fix: a tank of no volume (a system sized to need no
 storage) can be simulated

---
 src/ecoengine/objects/components/storage/StratifiedTank.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ecoengine/objects/components/storage/StratifiedTank.py b/src/ecoengine/objects/components/storage/StratifiedTank.py
index 3a1d580..47f0ea4 100644
--- a/src/ecoengine/objects/components/storage/StratifiedTank.py
+++ b/src/ecoengine/objects/components/storage/StratifiedTank.py
@@ -115,6 +115,8 @@ class StratifiedTank(StorageTank):
         float
             Temperature [°F], clamped to [inlet_temp_f, outlet_temp_f].
         """
+        if self.total_volume_gal <= 0.0:
+            return self._inlet_temp_f   # nothing is stored
         x_pct     = fract * 100.0
         shift_pct = self._delta_gal / self.total_volume_gal * 100.0
         temp      = self.strat_slope * (x_pct + shift_pct) + self._strat_inter
-- 
2.43.0


From cd16c842692743e9ad968a89fbb28712da53604c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:02:13 +0000
Subject: [PATCH 29/29] fix: a fully heated stratified tank is at outlet
 temperature down to its bottom, so a heater with its off sensor there turns
 off

---
 .../components/storage/StratifiedTank.py      | 23 +++++++++++++------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/ecoengine/objects/components/storage/StratifiedTank.py b/src/ecoengine/objects/components/storage/StratifiedTank.py
index 47f0ea4..c05d93f 100644
--- a/src/ecoengine/objects/components/storage/StratifiedTank.py
+++ b/src/ecoengine/objects/components/storage/StratifiedTank.py
@@ -117,6 +117,10 @@ class StratifiedTank(StorageTank):
         """
         if self.total_volume_gal <= 0.0:
             return self._inlet_temp_f   # nothing is stored
+        if self._delta_gal >= self._delta_gal_ceiling():
+            # Fully hot: exactly the outlet temperature at every height, so that an
+            # OFF sensor at the very bottom reaches a trigger set at that temperature.
+            return max(self._inlet_temp_f, self._outlet_temp_f)
         x_pct     = fract * 100.0
         shift_pct = self._delta_gal / self.total_volume_gal * 100.0
         temp      = self.strat_slope * (x_pct + shift_pct) + self._strat_inter
@@ -162,6 +166,16 @@ class StratifiedTank(StorageTank):
         shift_pct_min = (t_floor - self._strat_inter) / self.strat_slope - 100.0
         return shift_pct_min * self.total_volume_gal / 100.0
 
+    def _delta_gal_ceiling(self) -> float:
+        """
+        Maximum physical value of ``_delta_gal``: the "fully hot" state where
+        the hot zone fills the entire tank and x=0% is at ``_outlet_temp_f``:
+
+            strat_slope * (0 + shift_pct_max) + strat_inter = outlet_temp_f
+        """
+        shift_pct_max = (self._outlet_temp_f - self._strat_inter) / self.strat_slope
+        return shift_pct_max * self.total_volume_gal / 100.0
+
     def draw(
         self,
         volume_supplyT_gal: float,
@@ -278,13 +292,8 @@ class StratifiedTank(StorageTank):
         v_heated_gal = heat_kbtu * 1000.0 / (_RHO_CP * (outlet_temp_f - self._inlet_temp_f))  # gal
         self._delta_gal += v_heated_gal
 
-        # Cap: tank cannot be heated beyond "fully hot" (hot zone fills the
-        # entire tank, x=0% is at outlet_temp_f):
-        #   strat_slope * (0 + shift_pct_max) + strat_inter = outlet_temp_f
-        #   shift_pct_max = (outlet_temp_f - strat_inter) / strat_slope
-        shift_pct_max  = (outlet_temp_f - self._strat_inter) / self.strat_slope
-        delta_gal_max  = shift_pct_max * self.total_volume_gal / 100.0
-        self._delta_gal = min(self._delta_gal, delta_gal_max)
+        # Cap: tank cannot be heated beyond "fully hot"
+        self._delta_gal = min(self._delta_gal, self._delta_gal_ceiling())
 
     def add_recirc_return(
         self,
-- 
2.43.0

