#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long strings stay readable)."""
import json, os
B = "src/ecoengine/"
OB = B + "objects/"
P = []
def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=[f for f in files],
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mechanism],
                               observe_at=list(observe), hook_needed=None)))

prop("C01", "Hot-water demand is conserved whatever the timestep, shape or use mix",
 "The hot-water demand of a timestep is the building's daily use times the fraction of its load shape for the hour in which that timestep begins (hour of day, or hour of year for an annual shape, wrapping at the end), prorated by the timestep length; so demand over any whole day of a 24-hour shape adds up to the daily use for every timestep length that divides an hour. "
 "Daily use follows the building type's per-occupant rate times the magnitude, the standard-GPD tables, or the custom shape's sum, and a multi-use building demands in every hour exactly the sum of what its parts would demand. "
 "Switching a multi-family building to the annual shape and back restores the daily demand it had.",
 ["inputs", "configurations", "histories"],
 "all building types, mixes, magnitudes, standard/custom shapes (peak and average), timestep lengths, and step indices over more than a year",
 "Tests look at a few steps of a few types at 1-minute resolution; they never sum a day for other timestep lengths, cross the year boundary, or compare a mix with its parts hour by hour.",
 [OB+"building/Building.py", B+"data/load_shapes/*.json"],
 [("step-to-hour indexing and proration", OB+"building/Building.py:get_dhw_load_supplyT_gal"), ("per-type GPD and shape selection", OB+"building/Building.py:_compute_single_gal_and_shapes"), ("weighted blending", OB+"building/Building.py:_from_multi_use")],
 observe=["Building.get_dhw_load_supplyT_gal", "Building.daily_dhw_use_supplyT_gal"])

prop("C02", "Weather follows the calendar and design conditions are the coldest ones",
 "For every location and timestep, outdoor air temperature is the location's value for that hour of the year and inlet water temperature its value for that calendar month, wrapping at the year end, independent of how time is cut into steps; constant design-condition locations return their constants always. "
 "Design conditions are the coldest hour and the coldest month of that location, and the same location reached by zone number, zip code or weather station gives the same data. "
 "The daily-average temperature buckets count each of the 365 days exactly once, in the 5-degree bucket containing its mean.",
 ["inputs", "configurations"],
 "all 96 zones, all zip codes and stations in the lookup tables, all step indices and step lengths",
 "Tests probe a handful of zones and minutes; month boundaries, year wrap, other step lengths and the remaining zones are not sampled.",
 [OB+"building/ClimateZone.py", B+"data/climate_data/*.csv"],
 [("hour/month indexing", OB+"building/ClimateZone.py:get_oat_f,get_inlet_water_temp_f"), ("table lookups", OB+"building/ClimateZone.py:_lookup_zone_for_zip,_load_oat_data"), ("daily buckets", OB+"building/ClimateZone.py:get_oat_buckets")],
 observe=["ClimateZone.get_oat_f", "ClimateZone.get_inlet_water_temp_f", "ClimateZone.get_design_oat_f", "ClimateZone.get_oat_buckets"])

prop("C03", "Heaters follow their aquastats with hysteresis under the hour's mode",
 "At every timestep a heater that is off turns on exactly when the temperature at the active mode's ON sensor is below its ON trigger, a heater that is on turns off exactly when the temperature at the active mode's OFF sensor has reached its OFF trigger, and otherwise it keeps its state; the active mode is the one scheduled for that hour of the day. "
 "An inactive heater delivers nothing and an active one delivers its capacity at the current conditions. "
 "If the hour's mode has no setpoints the step fails rather than running uncontrolled.",
 ["schedules", "histories", "inputs"],
 "all tank-temperature histories, all 24-hour mode schedules, all sensor heights and triggers (including equal and inverted ones)",
 "Tests only check factory wiring and single lookups; no test drives a heater through a history of temperatures and mode changes.",
 [OB+"components/heating/Controls.py", OB+"components/heating/WaterHeater.py"],
 [("ON/OFF decision", OB+"components/heating/Controls.py:should_turn_on,should_turn_off"), ("state update", OB+"components/heating/WaterHeater.py:update_state"), ("schedule lookup", OB+"components/heating/WaterHeater.py:get_controls_for_hour")],
 [("heater on/off", "whether the heater runs", OB+"components/heating/WaterHeater.py")],
 ["WaterHeater.is_active", "WaterHeater.get_output_kbtuh"])

prop("C04", "A stratified tank keeps a physical profile and balances every operation",
 "After any sequence of heating, draws and recirculation returns, temperature never decreases with height, stays between the current inlet and outlet temperatures (at the outlet temperature throughout in a fully heated tank), and the tank's usable volume and average draw temperature are those of that one profile. "
 "Each draw removes the volume whose energy equals the demand at supply temperature even when the hot zone is partly depleted (never below the point where no usable water is left), and each heating step moves in the volume its energy can raise to the outlet temperature (never beyond a fully hot tank). "
 "Recirculation return removes the energy lost in the loop.",
 ["histories", "inputs"],
 "all operation sequences, tank volumes, stratification slopes, inlet/outlet/supply temperatures and initial fill levels",
 "Tests check single operations from a fresh tank; depleted-zone draws, caps, floors and changing inlet temperatures along a history are not covered.",
 [OB+"components/storage/StratifiedTank.py"],
 [("profile", OB+"components/storage/StratifiedTank.py:get_temperature_at_fraction,get_usable_volume_supplyT_gal"), ("draw search", OB+"components/storage/StratifiedTank.py:draw"), ("heat cap", OB+"components/storage/StratifiedTank.py:heat")],
 [("thermocline position", "gallons shifted since initialisation", OB+"components/storage/StratifiedTank.py")],
 ["StratifiedTank.get_temperature_at_fraction", "get_usable_volume_supplyT_gal", "get_average_draw_temp_f"])

prop("C05", "A mixed tank balances energy exactly over every operation history",
 "After any sequence of heating, demand draws, physical draws, primary inflow, recirculation return and fixed losses, the mixed tank's single temperature (the same at every height) equals the one an energy balance over those flows gives. "
 "Its usable volume is the whole tank when at or above supply temperature and nothing otherwise, draws larger than the tank leave it at the incoming temperature, and non-positive flows change nothing.",
 ["histories", "inputs"],
 "all operation sequences, volumes, flows and temperatures",
 "Tests check single operations; accumulated balances over sequences mixing all operations are not covered.",
 [OB+"components/storage/MixedStorageTank.py"],
 [("energy balances", OB+"components/storage/MixedStorageTank.py")],
 [("tank temperature", "uniform temperature", OB+"components/storage/MixedStorageTank.py")],
 ["MixedStorageTank.get_temperature_at_fraction", "get_usable_volume_supplyT_gal"])

prop("C06", "Return-to-primary tanks conserve energy through heating-cycle changes",
 "The energy-tracked tank's profile always contains exactly the energy its history of heating, draws and recirculation losses leaves in it, between an all-cold and an all-hot tank, with temperature never decreasing with height. "
 "The multi-pass tank starts, grows, heats and ends its uniform bottom slug so that starting a heating cycle, adding draws to the slug and heating it account for every gallon and BTU, and usable volume, sensor temperatures and draw temperatures reflect the slug while it exists.",
 ["histories", "inputs"],
 "all operation sequences including repeated on/off cycles of the heater, all volumes and temperatures",
 "Tests barely touch these tanks; multi-cycle histories and draws during an active slug are not sampled.",
 [OB+"components/storage/EnergyTank.py", OB+"components/storage/SlugOverlayTank.py"],
 [("energy bookkeeping", OB+"components/storage/EnergyTank.py"), ("slug lifecycle", OB+"components/storage/SlugOverlayTank.py")],
 [("stored energy", "BTU above the cold reference", OB+"components/storage/EnergyTank.py"), ("slug volume and temperature", "uniform bottom layer", OB+"components/storage/SlugOverlayTank.py")],
 ["get_temperature_at_fraction", "get_usable_volume_supplyT_gal", "get_average_draw_temp_f"])

prop("C07", "A simulation run records exactly what happened, step by step",
 "A simulation of any system has one record per timestep in time order (3 days at one minute, a year at ten minutes, fewer only when it stops early), and each record carries that step's demand, outdoor and inlet temperature, control mode, heater output and power, and the tank state resulting from heating and then drawing in that step. "
 "A step is counted as an outage exactly when no usable water is left (or, in a swing system, the swing tank entered the step below supply temperature), and the run stops early and reports failure exactly when the delivered temperature has stayed more than the allowed margin below supply temperature for longer than the allowed number of consecutive minutes. "
 "Peak demand, energy and outage figures are those of the recorded steps, and what a run exports or plots is what it recorded.",
 ["histories", "configurations", "inputs"],
 "all schematics, durations, step lengths, climates, controls and (under)sized systems",
 "No test runs a simulation end to end and compares the recorded series with the step-by-step evolution; early stop and outage accounting are untested.",
 [B+"interfaces/Simulator.py", OB+"simulation/SimulationRun.py", OB+"dhwsystems/DHWSystem.py"],
 [("time loop", B+"interfaces/Simulator.py:simulate"), ("step order", OB+"dhwsystems/DHWSystem.py:simulate_step"), ("recording", OB+"simulation/SimulationRun.py:record_timestep")],
 [("recorded series", "per-step lists", OB+"simulation/SimulationRun.py")],
 ["simulate()", "SimulationRun"])

prop("C08", "Sizing, curves and simulations are repeatable and leave their inputs unchanged",
 "Any history of sizing, sizing-curve, simulation and cost calls on the same building and system gives, for each call, the same result as that call made first on fresh objects. "
 "The building's daily use, load shapes and climate, and the caller's argument lists, are the same after every such call, including calls that end in an error.",
 ["histories", "configurations"],
 "all sequences of public calls over all schematics, including failing calls, annual- and daily-shape buildings and custom load shapes",
 "Tests check one call at a time on fresh fixtures; history-dependence and error paths need sequences.",
 [OB+"dhwsystems/DHWSystem.py", OB+"dhwsystems/recirc_systems/*.py", OB+"dhwsystems/rtp_systems/*.py", B+"interfaces/Simulator.py", OB+"building/Building.py"],
 [("annual/daily switch and restore", OB+"dhwsystems/DHWSystem.py:size"), ("temporary load increase", OB+"dhwsystems/rtp_systems/SinglePassRTPSystem.py"), ("initialisation before a run", B+"interfaces/Simulator.py")],
 observe=["from_size", "get_sizing_curve", "simulate", "Building attributes"])

prop("C09", "Primary sizing covers the peak day with the least storage and capacity",
 "Sized heating capacity is exactly what produces the design day's hot water from the design inlet temperature within the allowed daily run hours, corrected for defrost. "
 "Sized storage is the least running volume that covers every stretch of the repeated peak day in which demand outruns that heating rate (never negative, no smaller than any such cumulative deficit), divided by the fraction of the tank usable at the aquastat given its stratification. "
 "A running volume that needs no storage (heating rate at or above the peak hour) is zero, and sizing without a design inlet temperature raises an error instead of producing a size.",
 ["inputs", "configurations"],
 "all load shapes (including ones wrapping midnight and with several peaks), daily uses, temperatures, run hours, defrost factors, aquastat heights and slopes",
 "Tests use two load shapes and compare mostly signs and monotonicity; the worst cumulative deficit for an arbitrary shape is not checked.",
 [OB+"dhwsystems/DHWSystem.py"],
 [("capacity", OB+"dhwsystems/DHWSystem.py:_calc_required_capacity_kbtuh"), ("running volume", OB+"dhwsystems/DHWSystem.py:_calc_running_volume_supplyT_gal"), ("stratification factor", OB+"dhwsystems/DHWSystem.py:_calc_stratification_factor")],
 observe=["DHWSystem.get_minimum_capacity_kbtuh", "DHWSystem.get_minimum_storage_volume_storageT_gal"])

prop("C10", "Load-shift sizing covers the shed window and never undersizes",
 "With a load-shift schedule, the sized system has at least the capacity and storage it would need without load shifting within the run hours the shed hours leave, its storage is enough to carry the demand of the first shed window after the load-up hours for the covered fraction of days, and its heating rate makes the day's water in the non-shed hours. "
 "As the covered percentage of days rises capacity never falls, and storage never falls unless the capacity rose; the full daily demand is always used for the normal part of the sizing. "
 "The user's 0/1 schedule and load-up hours turn into shed, load-up (the hours just before the first shed hour) and normal modes for each hour, with the corresponding setpoints.",
 ["schedules", "inputs", "configurations"],
 "all 24-hour shed schedules, load-up durations, aquastat settings, coverage percentages and load shapes",
 "Tests use two schedules and one shape; schedule variety (several windows, windows at midnight, overlapping load-up) is unsampled.",
 [OB+"dhwsystems/DHWSystem.py", B+"interfaces/EcosizerEngine.py"],
 [("load-shift sizing", OB+"dhwsystems/DHWSystem.py"), ("coverage fraction", OB+"dhwsystems/DHWSystem.py:_load_shift_fract_total_vol"), ("schedule mapping", B+"interfaces/EcosizerEngine.py:_build_control_map")],
 observe=["DHWSystem.get_minimum_storage_volume_storageT_gal", "EcosizerEngine control schedule"])

prop("C11", "Sizing curves agree with sizing at every point and mark the sized one",
 "Every point of a sizing curve (storage versus capacity over run hours, storage versus load-shift coverage, or element size versus coverage) is exactly the size the system would get if it were sized with that point's setting, and the marked recommended point is the system's own sized result (whenever its heaters do not by themselves keep up with the peak hour and it needs storage). "
 "Along a curve the trade-off is monotone (shorter run hours mean more capacity; more coverage never means less capacity, nor less storage at the same capacity), it stops where the building cannot be served, and plotted points equal the computed ones.",
 ["inputs", "configurations"],
 "all schematics with curves, load shapes, run hours, load-shift settings and coverage percentages",
 "Tests check one curve per class for monotonicity and its recommended index, not each point against an independent sizing.",
 [OB+"dhwsystems/DHWSystem.py", OB+"dhwsystems/recirc_systems/SwingSystem.py", OB+"dhwsystems/recirc_systems/SwingERTrdOffSystem.py", B+"interfaces/EcosizerEngine.py"],
 [("curve sweeps", OB+"dhwsystems/DHWSystem.py:get_sizing_curve,get_ls_sizing_curve"), ("plot data", B+"interfaces/EcosizerEngine.py:plot_sizing_curve")],
 observe=["get_sizing_curve", "get_ls_sizing_curve", "plot_sizing_curve"])

prop("C12", "Parallel-loop sizing and simulation keep the recirculation loop warm",
 "A parallel loop's temperature-maintenance tank stores exactly enough heat between its on and off temperatures to ride through the allowed off time at the loop's loss rate, and its heater capacity is the safety factor times that loss; settings that cannot work are rejected. "
 "In any simulation the maintenance tank's temperature follows the energy balance of loop losses and its own heaters, those heaters switch at the on/off temperatures, and where they outpace the loop's loss at the on temperature the tank never falls below it by more than one step's loss. "
 "The primary side behaves exactly as the same primary system without the loop.",
 ["inputs", "histories", "configurations"],
 "all return temperatures and flows, on/off temperatures, off times, safety factors, numbers of heaters and simulated histories",
 "Tests do not size or simulate a parallel loop over ranges of loop conditions.",
 [OB+"dhwsystems/recirc_systems/RecircSystem.py", OB+"dhwsystems/recirc_systems/ParallelLoopSystem.py"],
 [("loss rate", OB+"dhwsystems/recirc_systems/RecircSystem.py:get_recirc_loss_kbtuh"), ("TM sizing", OB+"dhwsystems/recirc_systems/ParallelLoopSystem.py"), ("TM step", OB+"dhwsystems/recirc_systems/ParallelLoopSystem.py:simulate_step")],
 observe=["tm tank volume/capacity", "SimulationRun TM series"])

prop("C13", "Swing-tank sizing and series operation balance water and heat",
 "A swing system's tank volume is the smallest listed size for its loop loss and its element covers the loop loss times the safety factor; its primary is sized for the loop losses and mixing the swing tank cannot cover itself. "
 "In any simulation the swing tank's temperature follows the energy balance of loop loss, hot water flowing in from the primary in proportion to the draw, and its own element, and the primary loses exactly the hot water that flows into the swing tank. "
 "Delivered water is tempered to supply temperature, and the swing element switches at its own on/off temperatures.",
 ["inputs", "histories", "configurations"],
 "all loop conditions, load shapes, storage temperatures, climates and simulated histories",
 "Tests do not simulate swing systems nor check sizes across the table's breakpoints.",
 [OB+"dhwsystems/recirc_systems/SwingSystem.py"],
 [("table lookup", OB+"dhwsystems/recirc_systems/SwingSystem.py"), ("effective mix fraction", OB+"dhwsystems/recirc_systems/SwingSystem.py"), ("series step", OB+"dhwsystems/recirc_systems/SwingSystem.py:simulate_step")],
 observe=["SwingSystem sizes", "SimulationRun series"])

prop("C14", "Electric-resistance trade-off sizing keeps delivery at supply temperature",
 "For any primary, however small, and any coverage percentage, the swing-tank element is enlarged by exactly what makes up the worst one-minute shortfall below supply temperature met over the simulated peak days, starting from an empty and from a full primary tank, times the safety factor. "
 "Where the primary's hot water always covers the draw the element is only what the loop needs, and computing trade-off points leaves the system and building as they were.",
 ["inputs", "configurations", "histories"],
 "all buildings, undersized primaries, coverage percentages and load shapes",
 "No test sizes an element for more than one configuration.",
 [OB+"dhwsystems/recirc_systems/SwingERTrdOffSystem.py"],
 [("element sizing", OB+"dhwsystems/recirc_systems/SwingERTrdOffSystem.py"), ("trade-off points", OB+"dhwsystems/recirc_systems/SwingERTrdOffSystem.py:get_er_sized_points")],
 observe=["SwingERTrdOffSystem sizes and points"])

prop("C15", "Return-to-primary systems count the loop in sizing and in every step",
 "The mixing valve splits every draw and loop flow so that water and heat are conserved: the water taken from storage plus the loop and cold water mixed in equals what is delivered, at supply temperature whenever storage is hot enough. "
 "Sizing adds the loop's daily heat loss to the heating capacity (and, for single-pass with load shift, to the load its shed-window storage carries); multi-pass storage is the largest slug the primary reheats in its two-day design run, and its capacity is raised when a trial simulation runs out. "
 "In any simulation the energy leaving the tank is that of the delivered water plus the loop losses.",
 ["inputs", "histories", "configurations"],
 "all draw sizes, loop flows, return, supply, storage and inlet temperatures, load shapes and simulated histories",
 "Tests check the valve at a few points and one curve; balances over ranges and in simulations are not covered.",
 [OB+"dhwsystems/utils.py", OB+"dhwsystems/rtp_systems/*.py"],
 [("mixing valve", OB+"dhwsystems/utils.py:mixing_valve_behavior"), ("recirc in sizing", OB+"dhwsystems/rtp_systems/SinglePassRTPSystem.py"), ("growing slug sizing", OB+"dhwsystems/rtp_systems/MultiPassRTPSystem.py")],
 observe=["mixing_valve_behavior", "RTP sizes", "SimulationRun series"])

prop("C16", "Every minute of the year has one tariff, built from the stated rates",
 "For every tariff described by its parameters, each minute of the year falls in exactly one billing period (season and peak, off-peak or discount hours as stated), with the energy and demand rates stated for it, and an invalid description is rejected. "
 "A tariff written to its file form and read back charges the same rates at every minute, and an hourly file is used hour by hour.",
 ["inputs", "configurations"],
 "all season starts, peak and discount hours, monthly fees and rates, hourly files, and every minute of the year",
 "Tests sample some hours of a few tariffs; the partition over all hours, seasons wrapping the year end and multi-season definitions is not enumerated.",
 [OB+"building/UtilityCostTracker.py"],
 [("period construction", OB+"building/UtilityCostTracker.py:from_params"), ("lookups", OB+"building/UtilityCostTracker.py"), ("file round trip", OB+"building/UtilityCostTracker.py:to_csv,from_csv")],
 observe=["UtilityCostTracker lookups"])

prop("C17", "Annual cost and energy equal the sum of their parts",
 "For every simulated year and tariff, annual energy cost equals the energy of each timestep (all heaters, temperature maintenance included) times the rate at that time, plus each period's peak demand times its demand rate, plus the monthly base charges; the monthly and per-category breakdowns add up to the same total. "
 "Monthly and total energy figures cover the same heaters and add up, and peak demand is the largest power drawn by all heaters together in a timestep.",
 ["histories", "inputs", "configurations"],
 "all recorded series (with and without temperature maintenance, gas and electric), tariffs and step lengths",
 "Tests price a few synthetic constant loads; breakdowns versus totals are not compared over general series.",
 [OB+"simulation/SimulationRun.py", OB+"building/UtilityCostTracker.py"],
 [("cost totals", OB+"simulation/SimulationRun.py:get_annual_cost"), ("breakdowns", OB+"simulation/SimulationRun.py:get_monthly_cost_breakdown"), ("energy", OB+"simulation/SimulationRun.py:get_monthly_energy_kwh,get_total_energy_kwh")],
 observe=["SimulationRun cost and energy getters"])

prop("C18", "Heat-pump performance is finite, scales with units and falls back predictably",
 "For every model and every outdoor, inlet and outlet temperature, capacity and power are finite and positive, both scale in proportion to the number of units (a stated nominal capacity being that of all units together), and repeated queries give the same answer. "
 "Inside the model's mapped range they are the map's values; below the coldest mapped outdoor temperature the heater is electric resistance with unit efficiency, and outside the other edges the stated nearest or default values are used. "
 "A nominal-capacity heater returns its capacity at all conditions.",
 ["inputs", "configurations"],
 "all catalogued models and all outdoor/inlet/outlet temperatures, on and off grid, and unit counts",
 "Tests query some models at a few temperatures.",
 [OB+"components/heating/PerformanceMap.py", B+"data/preformanceMaps/*"],
 [("lookup and fallback", OB+"components/heating/PerformanceMap.py")],
 observe=["PerformanceMap.get_capacity_kbtuh", "get_power_in_kw"])

prop("C19", "The engine builds the system its inputs describe",
 "For every accepted input, the engine's system has the schematic (by any of its names), controls, temperatures, heaters and climate the inputs describe, and equals the system obtained by sizing or assembling those parts directly; the declared default values apply when an input is omitted. "
 "A system given its own sized volume and capacity as pre-sized inputs simulates the same as the sized one, and splitting a capacity over several heaters does not change the total. An instantaneous heater has no storage and is sized for the highest output its design day asks for. "
 "A missing required input or an unknown schematic raises an error naming the problem and never yields a half-built system.",
 ["inputs", "configurations"],
 "all combinations of schematic names, building inputs, climates, controls, load shift, recirculation, temperature-maintenance and pre-sized inputs",
 "No test constructs the engine.",
 [B+"interfaces/EcosizerEngine.py"],
 [("construction", B+"interfaces/EcosizerEngine.py:__init__"), ("controls", B+"interfaces/EcosizerEngine.py:_build_control_map"), ("pre-sized path", B+"interfaces/EcosizerEngine.py:_build_presized_dhw_system")],
 observe=["EcosizerEngine public getters and simulations"])

prop("C20", "A sized system serves its own design day without running out",
 "A system (with or without a loop) that needs storage, sized for any load shape, with a defrost allowance of at least 15 percent, 12 to 22 run hours, storage at least 15 degrees above supply, and aquastats that turn on at supply and off at storage temperature (on sensor at 20 percent height or above, off sensor at 15 percent or below), when simulated for three of the design days it was sized for never runs out of usable hot water after the first day and from then on delivers at supply temperature or above (a swing tank may dip by up to a degree). "
 "A system whose initially stored heat plus all its heaters can make falls short of the three days' demand does run out in the simulation and is reported as failing.",
 ["inputs", "configurations"],
 "all load shapes, daily uses, temperatures, run hours and aquastat settings accepted by sizing, for each storage schematic",
 "No test simulates a sized system; adequacy must hold for every load shape and setting.",
 [OB+"dhwsystems/DHWSystem.py", B+"interfaces/Simulator.py"],
 [("sizing", OB+"dhwsystems/DHWSystem.py:size"), ("simulation", B+"interfaces/Simulator.py:simulate")],
 observe=["SimulationRun outage figures"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
