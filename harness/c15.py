from mplib import *
import sizelib
from sizelib import size_real, check_primary, cmap, csched, building
from ecoengine.objects.dhwsystems.utils import mixing_valve_behavior


def replay_valve(trace):
    for i, s in enumerate(trace):
        v, r = s["v"], s["r"]
        a = dict(load_supplyT_gal=fx(v["load"]), flow_returnT_gal=fx(v["flow"]), cold_temp_f=fx(v["cold"]),
                 supply_temp_f=fx(v["supply"]), return_temp_f=fx(v["ret"]), storage_temp_f=fx(v["sto"]))
        got = mixing_valve_behavior(**a)
        expect("valve-draw", got["storage_draw_gal"], fx(r["draw"]), rel=1e-6, abs_=1e-7, branch=r["branch"], **a)
        if r["draw"] > 1000:
            expect("valve-inlet", got["inlet_temp_f"], fx(r["inlet"]), rel=0, abs_=1e-5, branch=r["branch"], **a)
    return {"valve": len(trace)}


def replay_rtp_size(trace):
    n = 0
    for st in trace:
        c, r = st["c"], st["r"]
        s = size_real(c)
        check_primary(c, r, s)
        loss = 60 * fx(c["gpm"]) * 8.353535 * (fx(c["supply"]) - fx(c["ret"])) / 1000
        expect("loop-loss", s.get_recirc_loss_kbtuh(), loss)
        # the loop's share covers its daily loss in the run hours
        expect("loop-capacity", s.get_recirc_capacity_kbtuh(), loss * 24 / fx(c["runHr"]) / fx(c["defrost"]))
        n += 1
    return {"rtp_sizes": n}


def replay_rtp_run(trace):
    c = trace[0]["cfg"]
    run = run_real(c, make_system(c), make_building(c))
    n, clean = compare_rows(c, run, rows_of(trace))
    last = trace[-1]["run_"]
    if clean and (last["stopped"] or last["i"] == run.num_steps):
        check_summary(c, run, last)
    return {"rtp_runs": 1, "steps": n, "near_ties": int(not clean)}


def replay_mp_run(trace):
    c = trace[0]["cfg"]
    run = run_real(c, mp_system(c), mp_building(c))
    n, clean, _ = mp_compare(c, run, rows_of(trace))
    last = trace[-1]["run_"]
    if clean and (last["stopped"] or last["i"] == run.num_steps):
        check_summary(dict(c, kind="mprtp"), run, last)
    return {"mp_runs": 1, "steps": n, "near_ties": int(not clean)}


def mp_size(c, cold_pct, b=None, **over):
    return MultiPassRTPSystem.from_size(
        b or building(c), fx(c["supply"]), fx(c["storage"]), return_temp_f=fx(c["ret"]), return_flow_gpm=fx(c["gpm"]),
        max_daily_run_hr=fx(c["runHr"]), defrost_factor=fx(c["defrost"]), control_schedule=csched(c), control_map=cmap(c),
        strat_slope=fx(c["slope"]), percent_useable=1.0 - fx(cold_pct) / 100.0, **over)


def check_mp(c, s, got, what, rel=1e-6):
    ctx = dict(what=what, daily=fx(c["daily"]), runHr=fx(c["runHr"]), gpm=fx(c["gpm"]))
    expect("mp-capacity", got.get_minimum_capacity_kbtuh(), fx(s["cap"]), rel=rel, abs_=1e-6, **ctx)
    expect("mp-storage", got.get_minimum_storage_storageT_gal(), fx(s["sto"]), **ctx)
    expect("mp-heaters", sizelib.heater_total(got), fx(s["cap"]), rel=rel, abs_=1e-6, **ctx)
    expect("mp-tank", got.storage_tank.total_volume_gal, fx(s["sto"]), **ctx)


def replay_mp_size(trace):
    n = 0
    for st in trace:
        c, s = st["c"], st["s"]
        if s["margin"] < 1e-6 * SCALE or s["sto"] <= 0:
            continue
        check_mp(c, s, mp_size(c, st["coldPct"], capacity_boost_iterations=0), "analytic")
        # sensors below the inlet pipe are refused
        low = min(min(k["onH"], k["offH"]) for k in c["ctl"].values())
        try:
            mp_size(c, low * 0 + int(100 * low + SCALE), capacity_boost_iterations=0)
        except ValueError:
            pass
        else:
            raise Mismatch("unusable-sensor-refused", dict(sensor=low / SCALE))
        n += 1
    return {"mp_sizes": n}


def replay_mp_boost(trace):
    st = trace[-1]
    c, s = st["c"], st["s"]
    if s["sto"] <= 0 or s["margin"] < 5e-4 * SCALE:
        return {"near_ties": 1}
    b = building(c)
    got = mp_size(c, st["coldPct"], b, capacity_boost_trial_days=st["days"], capacity_boost_iterations=3)
    check_mp(c, s, got, "boosted", rel=2e-4 if s["tries"] else 1e-6)
    return {"mp_boost": 1, "mp_trials": s["tries"]}


def refusals():
    c = dict(daily=10 ** 15, peak=[SCALE // 24] * 24, avg=[SCALE // 24] * 24, inlet=50 * SCALE)
    k = Controls(on_sensor_fract=0.3, on_trigger_t_f=118.0, off_sensor_fract=0.2, off_trigger_t_f=138.0, outlet_temp_f=140.0)
    try:
        MultiPassRTPSystem.from_size(building(c), 120.0, 140.0, 110.0, 2.0, control_schedule=["shed"] * 3 + ["normal"] * 21,
                                     control_map={"normal": k, "shed": k})
    except ValueError:
        return {"refused": 1}
    raise Mismatch("multi-pass-load-shift-refused", {})


def body(ck):
    tr = ck.generate("valve.qnt", "valveMachine", ck.n(400, 6000), 50)
    ck.replay(replay_valve, tr, "mixing valve")
    tr = ck.generate("sizing.qnt", "sizingRtp", ck.n(120, 1600), 10)
    ck.replay(replay_rtp_size, tr, "single-pass size")
    ck.direct(refusals, "refusals")
    tr = ck.generate("plant.qnt", "plantRtp", ck.n(16, 320), ck.n(36, 72))
    ck.replay(replay_rtp_run, tr, "single-pass run")
    tr = ck.generate("mprtp.qnt", "mpsize", ck.n(32, 640), 10)
    ck.replay(replay_mp_size, tr, "multi-pass size")
    tr = ck.generate("mprtp.qnt", "mpboost", ck.n(32, 320), 3)
    ck.replay(replay_mp_boost, tr, "multi-pass trial sizing")
    tr = ck.generate("mprtp.qnt", "mprtp3", ck.n(16, 240), ck.n(30, 72))
    ck.replay(replay_mp_run, tr, "multi-pass run")
    if ck.thorough():
        tr = ck.generate("mprtp.qnt", "mprtpYear", 32, 60)
        ck.replay(replay_mp_run, tr, "multi-pass year", limit=400)


if __name__ == "__main__":
    main("C15", body)
