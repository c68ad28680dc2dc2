"""Builds the real engine an `engine` behaviour describes."""
from sizelib import *
from ecoengine.interfaces.EcosizerEngine import EcosizerEngine
from ecoengine.objects.components.storage.StratifiedTank import StratifiedTank

TYPES = ["multi_family", "apartment", "motel", "office_building", "mens_dorm", "womens_dorm", "nursing_home", "food_service_a",
         "food_service_b", "elementary_school", "junior_high", "senior_high"]


def part_of(eng, cls):
    """The engine's own building or system, whatever attribute it keeps it under."""
    found = [v for v in vars(eng).values() if isinstance(v, cls)]
    if not found:
        raise MachineryError(f"no {cls.__name__} in the engine")
    return found[0]


def system_of(eng):
    return part_of(eng, DHWSystem)


def building_of(eng):
    return part_of(eng, Building)


def opt(kw, name, o, conv=fx):
    if o:
        kw[name] = conv(o[0])


def place(e):
    p = e["place"]
    return {"design": dict(design_oat_f=fx(e["oat"]), design_inlet_water_temp_f=fx(e["inlet"])), "zip": p["key"], "station": p["key"],
            "zone": p["id"], "zipInt": int(p["key"]) if p["form"] == "zipInt" else None}[p["form"]]


def engine_kw(e):
    u = e["use"]
    kw = dict(building_type=None if u["ty"] == -1 else TYPES[u["ty"]], magnitude=fx(u["mag"]),
              zip_code_or_climate_zone=place(e),
              supply_temp_f=fx(e["supply"]), storage_temp_f=fx(e["storage"]), schematic=e["schematic"])
    if u["peak"]:
        kw["custom_peak_load_shape"] = [x / sum(u["peak"]) for x in u["peak"]]
    if u["avg"]:
        kw["custom_avg_load_shape"] = [x / sum(u["avg"]) for x in u["avg"]]
    opt(kw, "gpdpp", e["gpdpp"])
    for name, key in (("max_daily_run_hr", "runHr"), ("defrost_factor", "defrost"), ("aquastat_fract", "aq"), ("off_sensor_fract", "offS"),
                      ("on_trigger_t_f", "onT"), ("off_trigger_t_f", "offT"), ("shed_aquastat_fract", "shedAq"),
                      ("load_up_aquastat_fract", "luAq"), ("shed_off_sensor_fract", "shedOff"), ("load_up_off_sensor_fract", "luOff"),
                      ("load_up_off_trigger_t_f", "luOffT"), ("return_temp_f", "ret"), ("return_flow_gpm", "gpm"),
                      ("tm_on_temp_f", "tmOn"), ("tm_off_temp_f", "tmOff"), ("tm_off_time_hr", "tmTime"), ("tm_safety_factor", "tmSf"),
                      ("storage_volume_storageT_gal", "vol"), ("heating_capacity_kbtuh", "cap"), ("tm_storage_vol", "tmVol"),
                      ("tm_capacity_kbtuh", "tmCap")):
        opt(kw, name, e[key])
    opt(kw, "load_shift_percent", e["pct"], lambda p: p / 100)
    if e["ls"]:
        kw["load_shift_schedule"] = list(e["ls"])
    if e["luHours"]:
        kw["load_up_hours"] = e["luHours"]
    for name, key in (("hpwh_model", "model"), ("tm_model", "tmModel")):
        if e[key]:
            kw[name] = e[key]
    kw["num_heaters"] = e["num"]
    kw["num_tm_heaters"] = e["tmNum"]
    return kw


def same_controls(what, got, want, **ctx):
    require(what + "-modes", set(got) == set(want), got=sorted(got), want=sorted(want), **ctx)
    for m, k in want.items():
        g = got[m]
        for a, b in (("on_sensor_fract", "onH"), ("on_trigger_t_f", "onT"), ("off_sensor_fract", "offH"),
                     ("off_trigger_t_f", "offT"), ("outlet_temp_f", "outT")):
            expect(f"{what}-{a}", getattr(g, a), fx(k[b]), mode=m, **ctx)


def check_modes(eng, c, **ctx):
    """Every hour the engine's heaters run the mode and setpoints the inputs mean."""
    for w in system_of(eng).water_heaters:
        require("hourly-modes", list(w.control_schedule) == list(c["sched"]), got=w.control_schedule, want=c["sched"], **ctx)
        for h in range(24):
            k = c["ctl"][c["sched"][h]]
            g = w.get_controls_for_hour(h)
            for a, b in (("on_sensor_fract", "onH"), ("on_trigger_t_f", "onT"), ("off_sensor_fract", "offH"),
                         ("off_trigger_t_f", "offT"), ("outlet_temp_f", "outT")):
                expect(f"setpoint-{a}", getattr(g, a), fx(k[b]), hour=h, mode=c["sched"][h], **ctx)
