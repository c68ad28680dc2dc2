"""Sizes the design day a `sizing` behaviour describes with the real code."""
from vlib import *
from ecoengine.objects.building.Building import Building
from ecoengine.objects.components.heating.Controls import Controls
from ecoengine.objects.dhwsystems.DHWSystem import DHWSystem
from ecoengine.objects.dhwsystems.rtp_systems.SinglePassRTPSystem import SinglePassRTPSystem
from ecoengine.objects.dhwsystems.recirc_systems.ParallelLoopSystem import ParallelLoopSystem
from ecoengine.objects.dhwsystems.recirc_systems.SwingSystem import SwingSystem

NEAR_TIE = 2000          # 2e-9 in fixed point: a branch taken by less than this is excused


def controls(k):
    return Controls(on_sensor_fract=fx(k["onH"]), on_trigger_t_f=fx(k["onT"]), off_sensor_fract=fx(k["offH"]),
                    off_trigger_t_f=fx(k["offT"]), outlet_temp_f=fx(k["outT"]))


def cmap(c):
    return {m: controls(k) for m, k in c["ctl"].items()} or None


def csched(c):
    return list(c["sched"]) or None


def building(c):
    return Building(None, fx(c["daily"]), fx(c["peak"]), fx(c["avg"]), design_oat_f=30.0,
                    design_inlet_water_temp_f=fx(c["inlet"]))


CLASS = dict(primary=DHWSystem, sprtp=SinglePassRTPSystem, parallel=ParallelLoopSystem, swing=SwingSystem)


def size_kw(c):
    kw = dict(max_daily_run_hr=fx(c["runHr"]), defrost_factor=fx(c["defrost"]), control_schedule=csched(c),
              control_map=cmap(c), strat_slope=fx(c["slope"]), load_shift_fract_total_vol=fx(c["fract"]))
    if c["kind"] != "primary":
        kw.update(return_temp_f=fx(c["ret"]), return_flow_gpm=fx(c["gpm"]))
    if c["kind"] in ("parallel", "swing"):
        kw.update(tm_safety_factor=fx(c["sf"]))
    if c["kind"] == "parallel":
        kw.update(tm_on_temp_f=fx(c["tmOn"]), tm_off_temp_f=fx(c["tmOff"]), tm_off_time_hr=fx(c["offTime"]))
    return kw


# sizing.qnt's DEFAULTS: a setting that has its default value is left out of the call
OMIT = dict(max_daily_run_hr=24.0, defrost_factor=1.0, control_schedule=None, control_map=None, strat_slope=2.8, load_shift_fract_total_vol=1.0,
            tm_safety_factor=1.2, tm_off_time_hr=0.5)


def left_out(kind, name, value):
    d = {"max_daily_run_hr": 16.0, "strat_slope": 1.7}.get(name, OMIT.get(name, KeyError)) if kind == "sprtp" else OMIT.get(name, KeyError)
    return value is d or (d is not None and value == d)


def size_real(c, b=None, **over):
    kw = {n: v for n, v in size_kw(c).items() if not left_out(c["kind"], n, v)}
    kw.update(over)
    return CLASS[c["kind"]].from_size(b or building(c), fx(c["supply"]), fx(c["storage"]), **kw)


def heater_total(s, oat=41.0, out=140.0, inlet=50.0):
    return sum(w.performance_map.get_capacity_kbtuh(oat, out, inlet) for w in s.water_heaters)


def check_primary(c, r, s, what=""):
    ctx = dict(kind=c["kind"], runHr=fx(c["runHr"]), daily=fx(c["daily"]), sched=c["sched"], fract=fx(c["fract"]))
    expect(what + "capacity", s.get_minimum_capacity_kbtuh(), fx(r["cap"]), **ctx)
    expect(what + "storage", s.get_minimum_storage_storageT_gal(), fx(r["sto"]), **ctx)
    expect(what + "heaters-have-capacity", heater_total(s), fx(r["cap"]), **ctx)
    expect(what + "tank-has-volume", s.storage_tank.total_volume_gal, fx(r["sto"]), **ctx)


def tm_valid(c):
    """Parallel-loop settings accepted by sizing: a heating cycle of more than 20 minutes."""
    sf, off = fx(c["sf"]), fx(c["offTime"])
    return off / (sf - 1.0) > 1 / 3
