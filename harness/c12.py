from sizedlib import *
from ecoengine.objects.dhwsystems.DHWSystem import DHWSystem


def check_tm(c, z, s, num, **ctx):
    expect("loop-tank-rides-through-off-time", s.get_minimum_tm_volume_gal(), fx(z["tmVol"]), **ctx)
    expect("loop-heater-covers-loss", s.get_minimum_tm_capacity_kbtuh(), fx(z["tmCap"]), **ctx)
    expect("loop-tank-built", s.tm_storage_tank.total_volume_gal, fx(z["tmVol"]), **ctx)
    w = s.tm_water_heater
    expect("loop-heaters-built", w.performance_map.get_capacity_kbtuh(40.0, 130.0, 100.0) * s.num_tm_heaters, fx(z["tmCap"]), **ctx)
    require("loop-heater-count", s.num_tm_heaters == num, got=s.num_tm_heaters, want=num, **ctx)
    for h in range(24):
        k = w.get_controls_for_hour(h)
        expect("loop-on-temperature", k.on_trigger_t_f, fx(c["tmOn"]), hour=h, **ctx)
        expect("loop-off-temperature", k.off_trigger_t_f, fx(c["tmOff"]), hour=h, **ctx)
    loss = 60 * fx(c["gpm"]) * 8.353535 * (fx(c["supply"]) - fx(c["ret"])) / 1000
    expect("loop-loss", s.get_recirc_loss_kbtuh(), loss, **ctx)
    expect("loop-daily-loss", s.get_daily_recirc_loss_kbtu(), 24 * loss, **ctx)


def replay_size(trace):
    n = bad = 0
    for i, st in enumerate(trace):
        c, r = st["c"], st["r"]
        num = 1 + i % 4
        # settings within rounding of a limit may go either way
        sf, off = fx(c["sf"]), fx(c["offTime"])
        edge = (0 < abs(sf - 1) < 1e-9) or (0 < abs(3 * off - (sf - 1)) < 1e-9) or (sf > 1 and 3 * c["offTime"] == c["sf"] - SCALE)
        ctx = dict(sf=sf, off_time=off, on=fx(c["tmOn"]), off=fx(c["tmOff"]), gpm=fx(c["gpm"]))
        try:
            s = size_real(c, num_tm_heaters=num)
        except ValueError:
            require("workable-loop-accepted", not r["ok"] or edge, **ctx)
            bad += 1
            continue
        if edge and not r["ok"]:
            continue
        require("unworkable-loop-rejected", r["ok"], got=s.get_minimum_tm_volume_gal(), **ctx)
        check_primary(c, r, s)
        check_tm(c, r, s, num, **ctx)
        n += 1
    return {"sizes": n, "rejected": bad}


def primary_rows_equal(run, run0, **ctx):
    """The primary side is that of the same system without the loop, step for step."""
    for a in ("dhw_demand_supplyT_gal", "usable_volume_supplyT_gal", "heater_output_kbtuh", "oat_f", "inlet_water_temp_f"):
        expect("primary-untouched-" + a, getattr(run, a), [float(x) for x in getattr(run0, a)], rel=1e-9, abs_=1e-9, **ctx)
    require("primary-untouched-mode", list(run.heater_mode) == list(run0.heater_mode), **ctx)
    for k in range(6):
        expect("primary-untouched-tank", run.tank_temps_f[k], [float(x) for x in run0.tank_temps_f[k]], rel=1e-9, abs_=1e-9, node=k, **ctx)
    require("primary-untouched-outages", run.outage_minutes == run0.outage_minutes and run.stopped_early == run0.stopped_early, **ctx)


def replay_sized(trace):
    st = trace[-1]
    c, z, s, b = sized_system(st)
    if s is None:
        return {"rejected": 1}
    check_primary(c, z, s)
    check_tm(c, z, s, st["num"])
    if st["phase"] != 1:
        return {"sizes": 1}
    cfg, run, n, clean = run_sized(trace, s, b)
    kw = size_kw(c)
    for k in ("return_temp_f", "return_flow_gpm", "tm_safety_factor", "tm_on_temp_f", "tm_off_temp_f", "tm_off_time_hr"):
        kw.pop(k)
    p = DHWSystem.from_size(building(c), fx(c["supply"]), fx(c["storage"]), **kw)
    primary_rows_equal(run, plantlib.run_real(cfg, p, building(c)), kind="sized")
    # the loop stays warm
    if trace[-1]["run_"][0]["i"] == 4320:
        cap, loss_on = fx(z["tmCap"]), 60 * fx(c["gpm"]) * 8.353535 * (fx(c["tmOn"]) - fx(c["ret"])) / 1000
        low = min(run.tm_tank_temp_f)
        step_loss = fx(c["gpm"]) * (fx(c["tmOn"]) - fx(c["ret"])) / fx(z["tmVol"])
        if cap >= loss_on:
            require("loop-never-cold", low >= fx(c["tmOn"]) - step_loss - 1e-6, low=low, on=fx(c["tmOn"]), step_loss=step_loss)
    return {"sized_runs": 1, "steps": n, "near_ties": int(not clean)}


def replay_plant(trace):
    """Arbitrary parallel plants, against the specification and against the loop-less plant."""
    c = trace[0]["cfg"]
    rows = plantlib.rows_of(trace)
    last = trace[-1]["run_"]
    b = plantlib.make_building(c)
    run = plantlib.run_real(c, plantlib.make_system(c), b)
    n, clean = plantlib.compare_rows(c, run, rows)
    if clean and (last["stopped"] or last["i"] == run.num_steps):
        plantlib.check_summary(c, run, last)
    p = dict(c, kind="primary")
    run0 = plantlib.run_real(p, plantlib.make_system(p), plantlib.make_building(p))
    expect("primary-untouched-power", [x or 0.0 for x in run.heater_power_in_kw], [x or 0.0 for x in run0.heater_power_in_kw], rel=1e-9, abs_=1e-9)
    primary_rows_equal(run, run0, kind="plant")
    return {"plant_runs": 1, "steps": n, "near_ties": int(not clean)}


def body(ck):
    tr = ck.generate("sizing.qnt", "sizingParallel", ck.n(120, 1600), 10)
    ck.replay(replay_size, tr, "parallel-size")
    tr = ck.generate("sized.qnt", "sizedParallel", ck.n(32, 320), 73)
    ck.replay(replay_sized, tr, "sized-parallel-run")
    tr = ck.generate("plant.qnt", "plantParallel", ck.n(24, 320), ck.n(48, 72))
    ck.replay(replay_plant, tr, "parallel-run")


main("C12", body)
