import copy
import json
from enginelib import *
from ecoengine.objects.components.heating.PerformanceMap import PerformanceMap
from ecoengine.objects.components.heating.WaterHeater import WaterHeater
from ecoengine.objects.components.storage.SlugOverlayTank import SlugOverlayTank
from ecoengine.objects.components.storage.MixedStorageTank import MixedStorageTank
from ecoengine.objects.dhwsystems.InstantWHSystem import InstantWHSystem
from ecoengine.objects.dhwsystems.rtp_systems.MultiPassRTPSystem import MultiPassRTPSystem
from ecoengine.objects.simulation.SimulationRun import SimulationRun
from ecoengine.interfaces.Simulator import simulate_3day

KINDS = dict(CLASS, mprtp=MultiPassRTPSystem, instant=InstantWHSystem)
PROBES = [(60.0, 140.0, 55.0), (45.0, 150.0, 50.0), (90.0, 130.0, 70.0)]
SERIES = ["dhw_demand_supplyT_gal", "usable_volume_supplyT_gal", "heater_output_kbtuh", "heater_power_in_kw", "oat_f", "inlet_water_temp_f",
          "heater_mode", "tank_temps_f", "tm_tank_temp_f", "tm_heater_output_kbtuh", "tm_heater_input_kw"]


def build(st):
    """The engine, or None when the inputs lack something (and the error says what)."""
    e, r = st["e"], st["res"]
    kw = engine_kw(e)
    given = copy.deepcopy(kw)
    ctx = dict(schematic=e["schematic"], place=e["place"], presized=bool(e["vol"]))
    try:
        eng = EcosizerEngine(**kw)
    except ValueError as x:
        require("inputs-untouched", kw == given, **ctx)
        if r["lacks"]:
            words = [str(place(e)) if m == "place" else repr(e["schematic"]) if m == "schematic" else m for m in r["lacks"]]
            require("error-names-missing-input", any(w in str(x) for w in words), error=str(x), lacks=r["lacks"], **ctx)
            return None
        ok = r["impossible"] or (not e["vol"] and r["cfg"]["kind"] in CLASS and (not r["size"]["ok"] or r["size"]["margin"] < NEAR_TIE))
        if not ok and r["cfg"]["kind"] == "mprtp" and not e["vol"]:
            return x
        require("complete-inputs-accepted", ok, error=str(x), **ctx)
        return None
    require("missing-input-refused", not r["lacks"], lacks=r["lacks"], **ctx)
    require("impossible-refused", not r["impossible"], **ctx)
    require("inputs-untouched", kw == given, **ctx)
    return eng


def check_place(eng, e, c, ctx):
    b = building_of(eng)
    expect("design-inlet", b.get_design_inlet_water_temp_f(), fx(e["inlet"]), **ctx)
    expect("design-outdoor", b.get_design_oat_f(), fx(e["oat"]), **ctx)
    expect("daily-use", eng.get_hw_magnitude(), fx(c["daily"]), **ctx)
    for got, want in ((b.peak_load_shape, c["peak"]), (b.avg_load_shape, c["avg"])):
        for h in range(24):
            expect("load-shape", float(got[h]), fx(want[h]), hour=h, **ctx)


def check_system(eng, e, c, ctx):
    s = system_of(eng)
    k = c["kind"]
    require("schematic-class", type(s) is KINDS[k], got=type(s).__name__, kind=k, **ctx)
    expect("supply-temperature", s.supply_temp_f, fx(c["supply"]), **ctx)
    expect("storage-temperature", s.storage_temp_f, fx(c["storage"]), **ctx)
    expect("defrost", s.defrost_factor, fx(c["defrost"]), **ctx)
    if k != "instant":
        expect("run-hours", s.max_daily_run_hr, 14.0 if k == "mprtp" else fx(c["runHr"]), **ctx)
        require("tank-kind", type(s.storage_tank) is (SlugOverlayTank if k == "mprtp" else StratifiedTank), got=type(s.storage_tank).__name__, **ctx)
        expect("tank-slope", s.storage_tank.strat_slope, 1.7 if k == "sprtp" else 0.8 if k == "mprtp" else 2.8, **ctx)
        check_modes(eng, c, **ctx)
    if k not in ("primary", "instant"):
        expect("loop-return", s.return_temp_f, fx(c["ret"]), **ctx)
        expect("loop-flow", s.return_flow_gpm, fx(c["gpm"]), **ctx)
    if k in ("parallel", "swing"):
        on, off = (fx(c["tmOn"]), fx(c["tmOff"])) if k == "parallel" else (fx(c["supply"]), fx(c["supply"]) + 8.0)
        for h in (0, 7, 23):
            g = s.tm_water_heater.get_controls_for_hour(h)
            expect("tm-on", g.on_trigger_t_f, on, hour=h, **ctx)
            expect("tm-off", g.off_trigger_t_f, off, hour=h, **ctx)
        require("tm-tank-kind", type(s.tm_storage_tank) is MixedStorageTank, **ctx)
    if k == "parallel":
        require("tm-units", s.num_tm_heaters == e["tmNum"], got=s.num_tm_heaters, want=e["tmNum"], **ctx)


def tm_total(s, probe=PROBES[0]):
    return s.tm_water_heater.performance_map.get_capacity_kbtuh(*probe) * getattr(s, "num_tm_heaters", 1)


def same_run(what, a, b, tol=1e-9, **ctx):
    for name in SERIES:
        x, y = getattr(a, name), getattr(b, name)
        require(what, len(x) == len(y), series=name, got=len(x), want=len(y), **ctx)
        for i, (p, q) in enumerate(zip(x, y)):
            if p == q:
                continue
            ps, qs = (p, q) if isinstance(p, (list, tuple)) else ([p], [q])
            ok = len(ps) == len(qs) and all(m == n or (not isinstance(m, str) and abs(m - n) <= tol * (1 + abs(n))) for m, n in zip(ps, qs))
            require(what, ok, series=name, step=i, got=p, want=q, **ctx)


def replay_sized(trace):
    n = refused = runs = 0
    for i, st in enumerate(trace):
        e, r = st["e"], st["res"]
        c, z = r["cfg"], r["size"]
        eng = build(st)
        if eng is None:
            refused += 1
            continue
        ctx = dict(schematic=e["schematic"], place=e["place"], ls=e["ls"])
        check_place(eng, e, c, ctx)
        s = system_of(eng)
        g = eng.get_sizing_results()
        if c["kind"] == "instant":
            check_system(eng, e, c, ctx)
            expect("instant-capacity", g["min_capacity_kbtuh"], fx(r["cap"]), **ctx)
            require("instant-no-storage", g["min_storage_storageT_gal"] == 0, **ctx)
            n += 1
            continue
        if z["margin"] < NEAR_TIE:
            continue
        check_system(eng, e, c, ctx)
        check_primary(c, z, s, "engine-")
        expect("result-capacity", g["min_capacity_kbtuh"], fx(z["cap"]), **ctx)
        expect("result-storage", g["min_storage_storageT_gal"], fx(z["sto"]), **ctx)
        tm = c["kind"] in ("parallel", "swing")
        require("result-fields", set(g) == {"min_capacity_kbtuh", "min_storage_storageT_gal"} | ({"min_tm_volume_gal", "min_tm_capacity_kbtuh"} if tm else set()),
                got=sorted(g), **ctx)
        if tm:
            expect("result-tm-volume", g["min_tm_volume_gal"], fx(z["tmVol"]), **ctx)
            expect("result-tm-capacity", g["min_tm_capacity_kbtuh"], fx(z["tmCap"]), **ctx)
            expect("tm-tank", s.tm_storage_tank.total_volume_gal, fx(z["tmVol"]), **ctx)
            expect("tm-heater-total", tm_total(s), fx(z["tmCap"]), **ctx)
        n += 1
        if g["min_storage_storageT_gal"] > 1e-6 and i == len(trace) - 1:
            # its own size as pre-sized inputs, split over heaters: the same plant
            kw = engine_kw(e)
            kw.update(storage_volume_storageT_gal=g["min_storage_storageT_gal"], heating_capacity_kbtuh=g["min_capacity_kbtuh"], num_heaters=1 << e["num"] % 3)
            if tm:
                kw.update(tm_storage_vol=g["min_tm_volume_gal"], tm_capacity_kbtuh=g["min_tm_capacity_kbtuh"])
            pre = EcosizerEngine(**kw)
            require("presized-heaters", len(system_of(pre).water_heaters) == kw["num_heaters"], got=len(system_of(pre).water_heaters), **ctx)
            same_run("own-size-same-run", pre.simulate_3day(), eng.simulate_3day(), num=kw["num_heaters"], **ctx)
            eng.build()
            g2 = eng.get_sizing_results()
            require("built-again-the-same", g2 == g, got=g2, want=g, **ctx)
            runs += 1
    return {"engines": n, "refused": refused, "own_size_runs": runs}


def assemble(e, c):
    """The same plant put together from its parts."""
    k, m = c["kind"], c["ctl"]
    maps = {n: controls(x) for n, x in m.items()}
    sched = list(c["sched"])
    if e["model"]:
        whs = [WaterHeater.from_model_name(model_name=e["model"], control_schedule=sched, control_map=maps, design_inlet_temp_f=fx(e["inlet"]), num_units=e["num"])]
    else:
        whs = [WaterHeater.from_nominal_capacity(nominal_capacity_kbtuh=fx(e["cap"][0]) / e["num"], control_schedule=sched, control_map=maps) for _ in range(e["num"])]
    base = dict(water_heaters=whs, supply_temp_f=fx(c["supply"]), storage_temp_f=fx(c["storage"]), defrost_factor=fx(c["defrost"]))
    vol = fx(e["vol"][0])
    loop = dict(return_temp_f=fx(c["ret"]), return_flow_gpm=fx(c["gpm"]))
    if k == "instant":
        s = InstantWHSystem(base["supply_temp_f"], base["storage_temp_f"], base["defrost_factor"])
        s.water_heaters = whs
        return s
    if k == "mprtp":
        tank = SlugOverlayTank(total_volume_gal=vol, cold_temp_f=fx(e["inlet"]), storage_temp_f=fx(c["storage"]), supply_temp_f=fx(c["supply"]), strat_slope=0.8)
        return MultiPassRTPSystem(storage_tank=tank, max_daily_run_hr=14.0, **base, **loop)
    tank = StratifiedTank(total_volume_gal=vol, strat_slope=fx(c["slope"]))
    base.update(storage_tank=tank, max_daily_run_hr=fx(c["runHr"]))
    if k == "primary":
        return DHWSystem(**base)
    if k == "sprtp":
        return SinglePassRTPSystem(**base, **loop)
    on, off = (fx(c["tmOn"]), fx(c["tmOff"])) if k == "parallel" else (fx(c["supply"]), fx(c["supply"]) + 8.0)
    units = e["tmNum"] if k == "parallel" else 1
    cap = fx(e["tmCap"][0]) / units if e["tmCap"] else None
    kc = {"normal": Controls(on_sensor_fract=0.5, on_trigger_t_f=on, off_sensor_fract=0.5, off_trigger_t_f=off, outlet_temp_f=off)}
    if e["tmModel"] and k == "parallel":
        tmw = WaterHeater.from_model_name(model_name=e["tmModel"], control_schedule=["normal"] * 24, control_map=kc, design_inlet_temp_f=fx(c["ret"]), nominal_capacity_kbtuh=cap)
    else:
        tmw = WaterHeater.from_nominal_capacity(nominal_capacity_kbtuh=cap, control_schedule=["normal"] * 24, control_map=kc)
    tmt = MixedStorageTank(total_volume_gal=fx(e["tmVol"][0]))
    if k == "parallel":
        return ParallelLoopSystem(tm_on_temp_f=on, tm_off_temp_f=off, tm_off_time_hr=fx(c["offTime"]), tm_safety_factor=fx(c["sf"]),
                                  tm_storage_tank=tmt, tm_water_heater=tmw, num_tm_heaters=units, **base, **loop)
    s = SwingSystem(tm_safety_factor=fx(c["sf"]), **base, **loop)
    s.tm_storage_tank, s.tm_water_heater = tmt, tmw
    return s


def replay_pre(trace):
    n = refused = runs = 0
    for i, st in enumerate(trace):
        e, r = st["e"], st["res"]
        c = r["cfg"]
        eng = build(st)
        if eng is None:
            refused += 1
            continue
        n += 1
        ctx = dict(schematic=e["schematic"], place=e["place"], model=e["model"], num=e["num"])
        check_place(eng, e, c, ctx)
        check_system(eng, e, c, ctx)
        s, k = system_of(eng), c["kind"]
        whs = s.water_heaters
        if e["model"]:
            ref = PerformanceMap.from_model_name(e["model"], design_inlet_temp_f=fx(e["inlet"]))
            for p in PROBES:
                expect("model-capacity", sum(w.get_capacity_kbtuh(*p) for w in whs), e["num"] * ref.get_capacity_kbtuh(*p), probe=p, **ctx)
        else:
            require("heater-count", len(whs) == e["num"], got=len(whs), **ctx)
            expect("split-keeps-total", heater_total(s), fx(r["cap"]), **ctx)
            for w in whs:
                expect("even-split", w.performance_map.get_capacity_kbtuh(*PROBES[0]), fx(r["cap"]) / e["num"], **ctx)
        if k != "instant":
            expect("given-volume", s.storage_tank.total_volume_gal, fx(r["vol"]), **ctx)
        if k in ("parallel", "swing"):
            expect("given-tm-volume", s.tm_storage_tank.total_volume_gal, fx(r["tmVol"]), **ctx)
            if e["tmModel"] and k == "parallel":
                expect("tm-model", tm_total(s), e["tmNum"] * PerformanceMap.from_model_name(e["tmModel"], design_inlet_temp_f=fx(c["ret"])).get_capacity_kbtuh(*PROBES[0]), **ctx)
            else:
                expect("given-tm-capacity", tm_total(s), fx(r["tmCap"]), **ctx)
        if i >= len(trace) - 1:
            direct = assemble(e, c)
            same_run("assembled-same-run", eng.simulate_3day(), simulate_3day(direct, building_of(eng)), tol=1e-12, **ctx)
            runs += 1
    return {"presized": n, "refused": refused, "assembled_runs": runs}


def replay_mp(trace):
    n = 0
    for st in trace:
        e, c = st["e"], st["res"]["cfg"]
        eng = build(st)
        if eng is None:
            continue
        b = building(c)
        ctx = dict(schematic=e["schematic"], place=e["place"])
        try:
            s = MultiPassRTPSystem.from_size(b if isinstance(eng, Exception) else building_of(eng), fx(c["supply"]), fx(c["storage"]), fx(c["ret"]), fx(c["gpm"]), max_daily_run_hr=14,
                                             defrost_factor=fx(c["defrost"]), control_schedule=csched(c), control_map=cmap(c))
        except ValueError as x:
            require("mp-accepted-alike", isinstance(eng, Exception), error=str(x), **ctx)
            continue
        require("mp-refused-alike", not isinstance(eng, Exception), error=str(eng), **ctx)
        check_place(eng, e, c, ctx)
        check_system(eng, e, c, ctx)
        g = eng.get_sizing_results()
        expect("mp-capacity", g["min_capacity_kbtuh"], s.get_minimum_capacity_kbtuh(), **ctx)
        expect("mp-storage", g["min_storage_storageT_gal"], s.get_minimum_storage_storageT_gal(), **ctx)
        expect("mp-tank", system_of(eng).storage_tank.total_volume_gal, g["min_storage_storageT_gal"], **ctx)
        expect("mp-heaters", heater_total(system_of(eng)), g["min_capacity_kbtuh"], **ctx)
        n += 1
    return {"mp_engines": n}


def nonsense():
    """Places that are neither zip, zone, station nor design conditions are refused."""
    n = 0
    for bad in (None, 3.5, 0, -4, 97, 9999, 123456, "9000", "1234567", "", [8], "8"):
        try:
            EcosizerEngine("multi_family", 40, bad, 120.0, 150.0, "primary_no_recirc")
        except ValueError:
            n += 1
            continue
        raise Mismatch("unknown-place-refused", dict(place=repr(bad)))
    return {"nonsense_places": n}


def body(ck):
    tr = ck.generate("engine.qnt", "engineAll", ck.n(64, 900), 6)
    ck.replay(replay_sized, tr, "sized engine")
    tr = ck.generate("engine.qnt", "enginePlaces", ck.n(40, 500), 6)
    ck.replay(replay_sized, tr, "engine by place")
    tr = ck.generate("engine.qnt", "enginePre", ck.n(64, 900), 6)
    ck.replay(replay_pre, tr, "pre-sized engine")
    tr = ck.generate("engine.qnt", "engineMp", ck.n(16, 120), 3)
    ck.replay(replay_mp, tr, "multi-pass engine")
    ck.direct(nonsense, "places")


if __name__ == "__main__":
    main("C19", body)
