from plantlib import *


def replay(trace):
    c = trace[0]["cfg"]
    rows = rows_of(trace)
    last = trace[-1]["run_"]
    sysm, b = make_system(c), make_building(c)
    run = run_real(c, sysm, b)
    n, clean = compare_rows(c, run, rows)
    require("planned-length", run.num_steps == (4320 if c["interval"] == 1 else 52560), got=run.num_steps)
    whole = clean and (last["stopped"] or last["i"] == run.num_steps)
    if whole:
        check_summary(c, run, last)
        check_outputs(c, run, rows)
    return {"steps": n, "runs": 1, "whole_runs": int(whole), "near_ties": int(not clean),
            "outage_runs": int(last["outage"] > 0), "stopped_runs": int(last["stopped"]), c["kind"]: 1}


CALM = dict(usable=100, delivery=600, kw=0, tmKw=0, hasKw=False, hasTmKw=False, tag=0)


class Scripted(DHWSystem):
    """A system whose steps are dictated, so that only the run's bookkeeping is in play."""
    def __init__(self, steps, supply, interval, tm):
        super().__init__([], None, supply, 140.0)
        self.steps, self.asked, self.interval, self.tm = steps, [], interval, tm

    def simulate_step(self, building, timestep_interval, interval_min=1, mode="normal"):
        i = timestep_interval
        self.asked.append((i, interval_min))
        s = self.steps[i] if i < len(self.steps) else CALM
        d = dict(demand_supplyT_gal=float(s["tag"] % 50), usable_volume_supplyT_gal=float(s["usable"]),
                 heater_output_kbtuh=float(s["tag"]), heater_power_in_kw=float(s["kw"]) if s["hasKw"] else None,
                 oat_f=float(s["tag"] % 70), inlet_water_temp_f=float(s["tag"] % 33), mode="shed" if s["tag"] % 3 else "normal",
                 tank_temps_f=[1.0, 2.0, 3.0, 4.0, 5.0, s["delivery"] / 4 if not self.tm else 99.0])
        if self.tm:
            d.update(delivery_temp_f=s["delivery"] / 4, tm_tank_temp_f=float(s["tag"] % 17), tm_heater_output_kbtuh=float(s["tag"] % 19),
                     tm_heater_input_kw=float(s["tmKw"]) if s["hasTmKw"] else None)
        return d


def replay_book(trace):
    cfg = trace[0]["cfg"]
    steps = [s["last"] for s in trace[1:]]
    stop = next((i for i, s in enumerate(trace) if s["book"]["stopped"]), None)
    used = steps[:stop] if stop else steps
    iv, tm = cfg["interval"], cfg["viaTm"]
    b = Building(None, 1000.0, [1 / 24] * 24, [1 / 24] * 24, design_oat_f=30.0, design_inlet_water_temp_f=50.0)
    sysm = Scripted(steps, 120.0, iv, tm)
    run = Simulator.simulate(sysm, b, "3day" if iv == 1 else "annual", outlet_deficit_threshold_f=cfg["margin"] / 4,
                             outlet_deficit_max_min=cfg["limit"])
    end = trace[-1]["book"]
    whole = 4320 if iv == 1 else 52560
    if not end["stopped"]:
        used = used + [CALM] * (whole - len(used))
    ctx = dict(cfg=cfg)
    require("stops-when-delivery-short-too-long", bool(run.stopped_early) == end["stopped"] and
            len(run.dhw_demand_supplyT_gal) == len(used), got=[run.stopped_early, len(run.dhw_demand_supplyT_gal)],
            want=[end["stopped"], len(used)], **ctx)
    require("steps-in-order", sysm.asked[:len(used)] == [(i, iv) for i in range(len(used))], **ctx)
    require("outage-minutes", run.outage_minutes == end["outage"], got=run.outage_minutes, want=end["outage"], **ctx)
    require("success-iff-no-outage", run.is_successful() == (end["outage"] == 0), **ctx)
    want = dict(dhw_demand_supplyT_gal=[s["tag"] % 50 for s in used], usable_volume_supplyT_gal=[s["usable"] for s in used],
                heater_output_kbtuh=[s["tag"] for s in used], oat_f=[s["tag"] % 70 for s in used],
                inlet_water_temp_f=[s["tag"] % 33 for s in used])
    if tm:
        want.update(tm_tank_temp_f=[s["tag"] % 17 for s in used], tm_heater_output_kbtuh=[s["tag"] % 19 for s in used])
        expect("record-tm_heater_input_kw", [x or 0.0 for x in run.tm_heater_input_kw],
               [s["tmKw"] if s["hasTmKw"] else 0 for s in used], **ctx)
    for k, v in want.items():
        expect("record-" + k, getattr(run, k), v, **ctx)
    expect("record-power", [x or 0.0 for x in run.heater_power_in_kw], [s["kw"] if s["hasKw"] else 0 for s in used], **ctx)
    require("record-mode", run.heater_mode == ["shed" if s["tag"] % 3 else "normal" for s in used], **ctx)
    expect("record-tank", run.tank_temps_f[4], [5.0] * len(used), **ctx)
    expect("energy-total", run.get_total_energy_kwh(), end["energy"] / 60, **ctx)
    expect("peak-power", run.get_peak_demand_kw(), end["peak"], **ctx)
    return {"book_runs": 1, "book_stops": int(end["stopped"])}


def body(ck):
    tr = ck.generate("runbook.qnt", "runbookMachine", ck.n(800, 12000), ck.n(60, 120))
    ck.replay(replay_book, tr, "run-bookkeeping")
    ck.verify("runbook.qnt", "runbookMachine", ["inv"], ck.n(3, 8), optional=True, timeout=ck.n(120, 600))
    tr = ck.generate("plant.qnt", "plant3", ck.n(32, 480), 72)
    ck.replay(replay, tr, "three-day-run")
    tr = ck.generate("plant.qnt", "plantYear", ck.n(8, 16), ck.n(40, 365), timeout=3000)
    ck.replay(replay, tr, "annual-run", limit=600)


main("C07", body)
