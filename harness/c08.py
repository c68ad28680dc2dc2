import copy
from enginelib import *
from plantlib import LinMap
from ecoengine.objects.building.UtilityCostTracker import UtilityCostTracker
from ecoengine.objects.dhwsystems.rtp_systems.MultiPassRTPSystem import MultiPassRTPSystem

SERIES = ["dhw_demand_supplyT_gal", "usable_volume_supplyT_gal", "heater_output_kbtuh", "heater_power_in_kw", "oat_f", "inlet_water_temp_f",
          "heater_mode", "tank_temps_f", "tm_tank_temp_f", "tm_heater_output_kbtuh", "tm_heater_input_kw"]


def tariff():
    return UtilityCostTracker.from_params(monthly_base_charge=31.0, pk_start_hour=[16, 14], pk_end_hour=[21, 20], pk_demand_charge=[9.5, 12.0],
                                          pk_energy_charge=[0.31, 0.42], off_pk_demand_charge=[3.0, 4.0], off_pk_energy_charge=[0.12, 0.15],
                                          start_month=[0, 6], end_month=[6, 12])


class Session:
    def __init__(self, e, c):
        self.e, self.c = e, c
        self.kw = engine_kw(e)
        self.given = copy.deepcopy(self.kw)
        self.eng = EcosizerEngine(**self.kw)
        self.b, self.s = building_of(self.eng), system_of(self.eng)
        self.sched, self.map = csched(c), cmap(c)
        self.sched0, self.map0 = list(self.sched), {m: copy.copy(k) for m, k in self.map.items()}
        self.uc = tariff()
        g = self.eng.get_sizing_results()     # the same plant put together from known sizes, never sized itself
        kw = dict(self.kw, storage_volume_storageT_gal=max(g["min_storage_storageT_gal"], 1.0), heating_capacity_kbtuh=g["min_capacity_kbtuh"])
        if "min_tm_volume_gal" in g:
            kw.update(tm_storage_vol=g["min_tm_volume_gal"], tm_capacity_kbtuh=g["min_tm_capacity_kbtuh"])
        self.pre = system_of(EcosizerEngine(**kw)) if c["kind"] != "mprtp" else None
        self.run = None
        self.blind = Building(None, fx(c["daily"]), fx(c["peak"]), fx(c["avg"]), building_type=self.b.building_type)
        for i, w in enumerate(self.s.water_heaters):
            cap = w.performance_map.get_capacity_kbtuh(40.0, 140.0, 50.0)
            w.performance_map = LinMap([cap, 0.01 * cap, 0, 0], [cap / 10, 0.02, 0, 0])

    def set(self, annual):
        for b in (self.b, self.blind):
            (b.set_to_annual_load_shape if annual else b.set_to_daily_load_shape)()
        self.run = None      # a year on record belongs to the setting it was simulated under

    def do(self, op, arg):
        c = self.c
        if op in ("annual", "daily"):
            return self.set(op == "annual")
        if op == "results":
            return self.eng.get_sizing_results()
        if op == "hours":
            return self.s.get_sizing_curve(self.b, step=1.0)
        if op == "cover":
            return self.s.get_ls_sizing_curve(self.b, control_schedule=self.sched, control_map=self.map,
                                              load_shift_percent=0.5 + arg / 10)
        if op == "plot":
            return self.eng.plot_sizing_curve(return_with_x_y_points=True)[1:]
        if op == "sim3":
            return series(self.eng.simulate_3day())
        if op == "year":
            self.run = self.eng.simulate_annual()
            return series(self.run)
        if op == "cost":
            if self.run is None:
                self.run = self.eng.simulate_annual()
            r = self.run
            return [r.get_annual_utility_cost(self.uc), r.get_monthly_cost_breakdown(self.uc), r.get_monthly_cost_breakdown_detailed(self.uc),
                    r.get_monthly_energy_kwh(), self.eng.get_annual_cost_estimate(r), self.eng.get_simulation_summary(r)][arg:]
        if op == "resize":
            over = {1: dict(max_daily_run_hr=20.0), 2: dict(max_daily_run_hr=11.0)}.get(arg, {})
            if arg == 4 and c["kind"] != "primary":
                over = dict(return_flow_gpm=4000.0)
            over.update(control_schedule=self.sched, control_map=self.map)
            if c["kind"] == "mprtp":
                if arg == 4:
                    over.pop("return_flow_gpm")
                z = MultiPassRTPSystem.from_size(self.b, fx(c["supply"]), fx(c["storage"]), return_temp_f=fx(c["ret"]), return_flow_gpm=fx(c["gpm"]),
                                                 defrost_factor=fx(c["defrost"]), capacity_boost_iterations=arg % 2, **over)
            else:
                z = size_real(c, self.b, **over)
            return [z.get_minimum_capacity_kbtuh(), z.get_minimum_storage_storageT_gal(), heater_total(z), z.storage_tank.total_volume_gal]
        if op == "live":
            again = dict(control_schedule=self.sched, control_map=self.map, strat_slope=fx(c["slope"]), load_shift_fract_total_vol=fx(c["fract"]))
            other = dict(again, **{1: dict(load_shift_fract_total_vol=0.9), 2: dict(control_schedule=None, control_map=None), 3: dict(strat_slope=4.0)}.get(arg, {}))
            b = {0: building(dict(c, daily=2 * c["daily"])), 4: self.blind}.get(arg, self.b)
            minima = lambda: [self.s.get_minimum_capacity_kbtuh(), self.s.get_minimum_storage_storageT_gal()]
            had = minima()
            try:
                self.s.size(b, **other)
                got = minima()
                if arg in (0, 3):    # and its curve is that of a system first sized so
                    curve, z = self.s.get_sizing_curve(b, step=2.0), size_real(c, b, **other)
                    require("curve-as-if-first-sized-so", alike(curve, z.get_sizing_curve(b, step=2.0)), kind=c["kind"], arg=arg)
            finally:
                self.s.size(self.b, **again)
            require("sized-again-as-at-first", alike(minima(), had), got=minima(), want=had, kind=c["kind"], arg=arg)
            return got
        if op == "unsized":
            slope = (2.8, 1.1, 4.6, 2.0, 0.9)[arg]
            out = [self.pre.get_sizing_curve(self.b, strat_slope=slope, step=2.0)]
            if "shed" in self.sched:
                out.append(self.pre.get_ls_sizing_curve(self.b, control_schedule=self.sched, control_map=self.map, strat_slope=slope, load_shift_percent=0.75))
            return out
        if op == "blind":
            return size_real(c, self.blind, control_schedule=self.sched, control_map=self.map)
        raise MachineryError("op " + op)

    def building(self):
        return [shown(b) for b in (self.b, self.blind)]

    def system(self):
        s = self.s
        out = dict(run_hr=s.max_daily_run_hr, supply=s.supply_temp_f, storage=s.storage_temp_f, heaters=len(s.water_heaters), cap=heater_total(s),
                   vol=s.storage_tank.total_volume_gal, defrost=s.defrost_factor)
        for w in s.water_heaters:
            out["ctl"] = (list(w.control_schedule), {m: dict(vars(k)) for m, k in w.control_map.items()})
        tm = getattr(s, "tm_storage_tank", None)
        if tm is not None:
            out["tm"] = tm.total_volume_gal
        return out

    def callers(self):
        return [self.kw == self.given, self.sched == self.sched0, {m: vars(k) for m, k in self.map.items()} == {m: vars(k) for m, k in self.map0.items()}]


def shown(b):
    return dict(daily=float(b.daily_dhw_use_supplyT_gal), type=b.building_type, annual=b.is_annual_load_shape(), peak=[float(x) for x in b.peak_load_shape],
                avg=[float(x) for x in b.avg_load_shape], oat=b.get_design_oat_f(), inlet=b.get_design_inlet_water_temp_f(),
                weather=[(b.get_oat_f(i, 10), b.get_inlet_water_temp_f(i, 10)) for i in (0, 777, 50000)] if b.climate_zone else [])


def series(run):
    d = run.get_summary()
    out = [[d[k] for k in sorted(d)]]
    for a in SERIES:
        v = getattr(run, a, None)
        if v is not None and len(v):
            out.append([a] + [len(v)] + [list(x) if isinstance(x, (list, tuple)) else x for x in v])
    return out


def alike(a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and a.keys() == b.keys() and all(alike(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(alike(x, y) for x, y in zip(a, b))
    if hasattr(a, "tolist"):
        a = a.tolist()
    if hasattr(b, "tolist"):
        b = b.tolist()
    if isinstance(a, float) or isinstance(b, float):
        return a is not None and b is not None and (a == b or abs(a - b) <= 1e-9 * max(abs(a), abs(b)) + 1e-12)
    return a == b


def attempt(sess, op, arg):
    try:
        return sess.do(op, arg), None
    except (ValueError, RuntimeError) as x:
        return None, type(x).__name__


def replay(trace):
    st0 = next((s for s in trace if s["call"]["op"] != "new"), None)
    if st0 is None:
        return {"unbuilt": 1}
    c = st0["res"]["cfg"]
    sess = Session(st0["e"], c)
    fresh_b, fresh = {}, {}
    system0 = sess.system()
    n, errs, hist = 0, 0, []
    for st in trace:
        op, arg = st["call"]["op"], st["call"]["arg"]
        if op == "new" or st["inside"]:
            continue
        hist.append((op, arg))
        annual = st["user"]["annual"]
        ctx = dict(history=hist, kind=c["kind"], annual=annual, schematic=st["e"]["schematic"])
        got, err = attempt(sess, op, arg)
        require("answers" if st["ans"]["ok"] else "fails", (err is None) == st["ans"]["ok"] or c["kind"] == "swing" and st["res"]["size"]["margin"] < NEAR_TIE, error=err, **ctx)
        errs += err is not None
        # the same call first on fresh objects with the user's setting
        if op not in ("annual", "daily"):
            key = (op, arg, annual)
            if key not in fresh:
                f = Session(st["e"], c)
                if annual:
                    f.set(True)
                fresh[key] = attempt(f, op, arg)
            want, werr = fresh[key]
            require("same-outcome-as-first", err == werr, got=err, want=werr, **ctx)
            require("same-answer-as-first", alike(got, want), got=str(got)[:300], want=str(want)[:300], **ctx)
        if st["ans"]["size"] and got is not None:
            cap, sto = (got["min_capacity_kbtuh"], got["min_storage_storageT_gal"]) if op == "results" else got[:2]
            expect("specified-capacity", cap, fx(st["ans"]["size"][0]), **ctx)
            expect("specified-storage", sto, fx(st["ans"]["size"][1]), **ctx)
        # what is left behind
        if annual not in fresh_b:
            f = Session(st["e"], c)
            if annual:
                f.set(True)
            fresh_b[annual] = f.building()
        now = sess.building()
        if now != fresh_b[annual]:
            diff = [k for x, y in zip(now, fresh_b[annual]) for k in x if x[k] != y[k]]
            require("building-unchanged", False, changed=diff, got={k: str(now[0].get(k))[:80] for k in diff}, want={k: str(fresh_b[annual][0].get(k))[:80] for k in diff}, **ctx)
        require("system-unchanged", sess.system() == system0, got=sess.system(), want=system0, **ctx)
        require("callers-arguments-unchanged", all(sess.callers()), same=sess.callers(), **ctx)
        n += 1
    return {"calls": n, "errors": errs, "sessions": 1, c["kind"]: 1}


def body(ck):
    tr = ck.generate("session.qnt", "sessionAll", ck.n(64, 960), ck.n(20, 40))
    ck.replay(replay, tr, "session")
    tr = ck.generate("session.qnt", "sessionMp", ck.n(8, 64), ck.n(12, 24))
    ck.replay(replay, tr, "multi-pass session", limit=400)
    tr = ck.generate("session.qnt", "sessionYear", ck.n(16, 120), ck.n(8, 16))
    ck.replay(replay, tr, "year session", limit=600)


main("C08", body)
