from sizedlib import *


def check_swing(c, z, s, **ctx):
    expect("swing-tank-smallest-listed", s.get_minimum_tm_volume_gal(), fx(z["tmVol"]), **ctx)
    expect("swing-tank-ca", s.get_minimum_tm_ca_volume_gal(), fx(z["tmCa"]), **ctx)
    expect("swing-element-covers-loss", s.get_minimum_tm_capacity_kbtuh(), fx(z["tmCap"]), **ctx)
    expect("swing-tank-built", s.tm_storage_tank.total_volume_gal, fx(z["tmVol"]), **ctx)
    w = s.tm_water_heater
    expect("swing-element-built", w.performance_map.get_capacity_kbtuh(40.0, 130.0, 100.0), fx(z["tmCap"]), **ctx)
    for h in range(24):
        k = w.get_controls_for_hour(h)
        expect("swing-on-temperature", k.on_trigger_t_f, fx(c["supply"]), hour=h, **ctx)
        expect("swing-off-temperature", k.off_trigger_t_f, fx(c["supply"]) + 8, hour=h, **ctx)


def swing_size(c, r):
    """None when the specification cannot size it (the code must refuse too)."""
    try:
        s = size_real(c)
    except ValueError as e:
        require("servable-accepted", not r["ok"] or r["margin"] < NEAR_TIE, error=str(e), gpm=fx(c["gpm"]), ret=fx(c["ret"]), sf=fx(c["sf"]))
        return None
    require("unservable-rejected", r["ok"] or r["margin"] < NEAR_TIE, got=s.get_minimum_storage_storageT_gal())
    return s if r["ok"] else None


def replay_size(trace):
    n = bad = close = 0
    for st in trace:
        c, r = st["c"], st["r"]
        s = swing_size(c, r)
        if s is None:
            bad += 1
            continue
        ctx = dict(gpm=fx(c["gpm"]), ret=fx(c["ret"]), supply=fx(c["supply"]), daily=fx(c["daily"]))
        check_swing(c, r, s, **ctx)
        if r["margin"] < NEAR_TIE:
            close += 1
            continue
        check_primary(c, r, s)
        n += 1
    return {"sizes": n, "refused": bad, "near_ties": close}


def replay_sized(trace):
    st = trace[-1]
    c, z = st["sc"], st["sz"]
    if c["kind"] == "none":
        return {}
    s = swing_size(c, z)
    if s is None:
        return {"refused": 1}
    check_swing(c, z, s)
    if z["margin"] < NEAR_TIE:
        return {"near_ties": 1}
    check_primary(c, z, s)
    if st["phase"] != 1:
        return {"sizes": 1}
    cfg, run, n, clean = run_sized(trace, s, building(c))
    return {"sized_runs": 1, "steps": n, "near_ties": int(not clean)}


def replay_plant(trace):
    c = trace[0]["cfg"]
    rows = plantlib.rows_of(trace)
    last = trace[-1]["run_"]
    sysm, b = plantlib.make_system(c), plantlib.make_building(c)
    run = plantlib.run_real(c, sysm, b)
    n, clean = plantlib.compare_rows(c, run, rows)
    if clean and (last["stopped"] or last["i"] == run.num_steps):
        plantlib.check_summary(c, run, last)
    return {"plant_runs": 1, "steps": n, "near_ties": int(not clean)}


TABLE = [40, 50, 80, 100, 120, 160, 175, 240, 350, 400, 500, 600, 800, 1000, 1250]


def breakpoints(item):
    """Loop losses just under, at and just over what each listed tank holds."""
    vol, off = item
    k = 3.412142
    loss = vol * k * 100 / 1000 * (1 + off)                     # kBTU/h
    gpm = loss * 1000 / (60 * 8.353535 * 10.0)
    b = Building(None, 100.0, [1 / 24] * 23 + [1 / 24], [1 / 24] * 24, design_oat_f=30.0, design_inlet_water_temp_f=50.0)
    want = next((v for v in TABLE if v >= vol * (1 + off)), None)
    k = controls(dict(onH=SCALE // 2, onT=120 * SCALE, offH=SCALE // 10, offT=150 * SCALE, outT=150 * SCALE))
    try:
        s = SwingSystem.from_size(b, 120.0, 150.0, 110.0, gpm, max_daily_run_hr=16.0, control_schedule=["normal"] * 24, control_map={"normal": k})
    except ValueError:
        require("listed-loss-accepted", want is None, vol=vol, off=off)
        return {"breakpoints": 1}
    require("oversize-loss-rejected", want is not None, vol=vol, off=off, got=s.get_minimum_tm_volume_gal())
    expect("breakpoint-volume", s.get_minimum_tm_volume_gal(), want, vol=vol, off=off)
    return {"breakpoints": 1}


def body(ck):
    tr = ck.generate("sizing.qnt", "sizingSwing", ck.n(64, 1200), 5)
    ck.replay(replay_size, tr, "swing-size")
    ck.replay(breakpoints, [(v, o) for v in TABLE for o in (-1e-3, -1e-6, 1e-6, 1e-3)], "swing-table")
    tr = ck.generate("sized.qnt", "sizedSwing", ck.n(16, 240), ck.n(49, 73))
    ck.replay(replay_sized, tr, "sized-swing-run")
    tr = ck.generate("plant.qnt", "plantSwing", ck.n(24, 400), ck.n(48, 72))
    ck.replay(replay_plant, tr, "swing-run")


main("C13", body)
