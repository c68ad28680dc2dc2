"""Builds the real system a `plant` behaviour describes and compares it step by step."""
from vlib import *
from ecoengine.objects.building.ClimateZone import ClimateZone
from ecoengine.objects.building.Building import Building
from ecoengine.objects.components.heating.Controls import Controls
from ecoengine.objects.components.heating.WaterHeater import WaterHeater
from ecoengine.objects.components.heating.PerformanceMap import PerformanceMap
from ecoengine.objects.components.storage.StratifiedTank import StratifiedTank
from ecoengine.objects.components.storage.MixedStorageTank import MixedStorageTank
from ecoengine.objects.dhwsystems.DHWSystem import DHWSystem
from ecoengine.objects.dhwsystems.rtp_systems.SinglePassRTPSystem import SinglePassRTPSystem
from ecoengine.objects.dhwsystems.recirc_systems.ParallelLoopSystem import ParallelLoopSystem
from ecoengine.objects.dhwsystems.recirc_systems.SwingSystem import SwingSystem
from ecoengine.interfaces import Simulator

TIE = 2e-5          # a comparison closer than this excuses the rest of the run


class LinMap(PerformanceMap):
    """Capacity and power linear in the conditions, as the specification's heaters."""
    def __init__(self, cap, kw):
        super().__init__(None, "linear")
        self.cap, self.kw = cap, kw

    @staticmethod
    def _lin(k, oat, out, inl):
        inl = 50.0 if inl is None else inl
        return k[0] + k[1] * (oat - 47.0) + k[2] * (out - 130.0) + k[3] * (inl - 50.0)

    def get_capacity_kbtuh(self, oat_f, outlet_temp_f, inlet_temp_f=None):
        return self._lin(self.cap, oat_f, outlet_temp_f, inlet_temp_f)

    def get_power_in_kw(self, oat_f, outlet_temp_f, inlet_temp_f=None):
        return self._lin(self.kw, oat_f, outlet_temp_f, inlet_temp_f)


def weather(l):
    oat = [float(l["lo"] + (l["a"] * h + l["b"] * (h // 24) ** 2 + h ** 3) % l["span"]) for h in range(8760)]
    inlet = [fx(l["base"]) + (l["m"] * (m + 1) ** 2) % 37 for m in range(12)]
    return oat, inlet


def make_building(c):
    oat, inlet = weather(c["loc"])
    return Building(ClimateZone(None, oat, inlet), fx(c["daily"]), fx(c["peak"]), fx(c["avg"]))


def controls(k):
    return Controls(on_sensor_fract=fx(k["onH"]), on_trigger_t_f=fx(k["onT"]), off_sensor_fract=fx(k["offH"]),
                    off_trigger_t_f=fx(k["offT"]), outlet_temp_f=fx(k["outT"]))


def make_heaters(c):
    return [WaterHeater(LinMap(fx(h["cap"]), fx(h["kw"])), list(h["sched"]),
                        {m: controls(k) for m, k in h["ctl"].items()}) for h in c["heaters"]]


def loop_heater(lp):
    """Schedule and controls of the loop's heater: some hours of the day may run lower."""
    def at(by):
        on, off = fx(lp["tmOn"]) - by, fx(lp["tmOff"]) - by
        return Controls(on_sensor_fract=0.5, on_trigger_t_f=on, off_sensor_fract=0.5, off_trigger_t_f=off, outlet_temp_f=off)
    eco = lp["eco"] or [False] * 24
    return ["eco" if e else "normal" for e in eco], {"normal": at(0.0), "eco": at(fx(lp["ecoBy"]))} if any(eco) else {"normal": at(0.0)}


def make_system(c):
    heaters = make_heaters(c)
    tank = StratifiedTank(total_volume_gal=fx(c["vol"]), strat_slope=fx(c["slope"]))
    sup, sto, lp = fx(c["supply"]), fx(c["storage"]), c["loop"]
    if c["kind"] == "primary":
        return DHWSystem(heaters, tank, sup, sto)
    if c["kind"] == "sprtp":
        return SinglePassRTPSystem(heaters, tank, sup, sto, fx(lp["ret"]), fx(lp["gpm"]))
    tmt = MixedStorageTank(total_volume_gal=fx(lp["tmVol"]))
    if c["kind"] == "parallel":
        tmh = WaterHeater(LinMap(fx(lp["tmCap"]), fx(lp["tmKw"])), *loop_heater(lp))
        return ParallelLoopSystem(heaters, tank, sup, sto, fx(lp["ret"]), fx(lp["gpm"]), fx(lp["tmOn"]), fx(lp["tmOff"]),
                                  tm_storage_tank=tmt, tm_water_heater=tmh, num_tm_heaters=lp["num"])
    s = SwingSystem(heaters, tank, sup, sto, fx(lp["ret"]), fx(lp["gpm"]))
    s.tm_storage_tank = tmt
    s.tm_water_heater = WaterHeater.from_nominal_capacity(fx(lp["tmCap"][0]), *loop_heater(lp))
    return s


def run_real(c, sysm, b):
    """The whole run: three days at one minute or a year at ten."""
    kw = dict(outlet_deficit_threshold_f=fx(c["defThr"]), outlet_deficit_max_min=c["defMax"])
    if c["interval"] == 1:
        return Simulator.simulate(sysm, b, "3day", **kw)
    return Simulator.simulate(sysm, b, "annual", **kw)


def compare_rows(c, run, rows):
    """Returns how many rows were compared strictly (until the first near tie)."""
    vol = fx(c["vol"])
    two = c["kind"] in ("parallel", "swing")
    n = len(run.dhw_demand_supplyT_gal)
    for i, r in enumerate(rows):
        if r["margin"] < TIE * SCALE:
            return i, False
        require("one-record-per-step", i < n, recorded=n, want_at_least=i + 1, kind=c["kind"])
        ctx = dict(step=i, kind=c["kind"], interval=c["interval"])
        expect("record-demand", run.dhw_demand_supplyT_gal[i], fx(r["demand"]), **ctx)
        expect("record-oat", run.oat_f[i], fx(r["oat"]), **ctx)
        expect("record-inlet", run.inlet_water_temp_f[i], fx(r["inlet"]), **ctx)
        require("record-mode", run.heater_mode[i] == r["mode"], got=run.heater_mode[i], want=r["mode"], **ctx)
        expect("record-output", run.heater_output_kbtuh[i], fx(r["out"]), rel=1e-6, abs_=1e-5, **ctx)
        expect("record-power", run.heater_power_in_kw[i] or 0.0, fx(r["kw"]), rel=1e-6, abs_=1e-5, **ctx)
        expect("record-tank", [run.tank_temps_f[k][i] for k in range(6)], fx(r["temps"]), rel=0, abs_=1e-3, **ctx)
        expect("record-usable", run.usable_volume_supplyT_gal[i], fx(r["usable"]), rel=1e-5, abs_=vol * 1e-4, **ctx)
        if two:
            expect("record-loop-temp", run.tm_tank_temp_f[i], fx(r["tmTemp"]), rel=0, abs_=0.01, **ctx)
            expect("record-loop-output", run.tm_heater_output_kbtuh[i], fx(r["tmOut"]), rel=1e-4, abs_=1e-4, **ctx)
            expect("record-loop-power", run.tm_heater_input_kw[i] or 0.0, fx(r["tmKw"]), rel=1e-4, abs_=1e-4, **ctx)
        u = run.usable_volume_supplyT_gal[i]
        if r["usable"] <= 0:
            require("empty-is-zero", u <= 0.0, got=u, **ctx)
        elif r["usable"] > vol * SCALE * 1e-4:
            require("not-empty-is-positive", u > 0.0, got=u, **ctx)
        else:
            if u <= 0.0 and r["usable"] > 0:
                return i, False
    return len(rows), True


def rows_of(trace):
    return [r for s in trace for r in s["run_"]["recs"]]


def check_summary(c, run, last):
    ctx = dict(kind=c["kind"], thr=fx(c["defThr"]), max_min=c["defMax"])
    n = len(run.dhw_demand_supplyT_gal)
    require("stops-when-delivery-short-too-long", bool(run.stopped_early) == last["stopped"],
            got=run.stopped_early, want=last["stopped"], steps=n, **ctx)
    require("one-record-per-step", n == last["i"], got=n, want=last["i"], **ctx)
    require("outage-minutes", run.outage_minutes == last["outage"], got=run.outage_minutes, want=last["outage"], **ctx)
    require("success-iff-no-outage", run.is_successful() == (last["outage"] == 0), outage=last["outage"], **ctx)
    require("success-within-allowance", run.is_successful(last["outage"]) and
            (last["outage"] == 0 or not run.is_successful(last["outage"] - 1)), outage=last["outage"], **ctx)
    s = run.get_summary()
    expect("summary-energy", s["total_energy_kwh"], fx(last["kwh60"]) / 60, rel=1e-5, abs_=1e-4, **ctx)
    expect("summary-peak", s["peak_demand_kw"], fx(last["peakKw"]), rel=1e-5, abs_=1e-4, **ctx)
    expect("summary-outage", s["total_outage_min"], last["outage"], **ctx)
    expect("summary-steps", s["num_steps_recorded"], last["i"], **ctx)
    require("summary-verdict", bool(s["successful"]) == (last["outage"] == 0) and bool(s["stopped_early"]) == last["stopped"], **ctx)
    lens = [len(run.usable_volume_supplyT_gal), len(run.heater_output_kbtuh), len(run.heater_power_in_kw), len(run.oat_f),
            len(run.inlet_water_temp_f), len(run.heater_mode)] + [len(t) for t in run.tank_temps_f]
    if c["kind"] in ("parallel", "swing"):
        lens += [len(run.tm_tank_temp_f), len(run.tm_heater_output_kbtuh), len(run.tm_heater_input_kw)]
    require("every-series-has-every-step", all(x == n for x in lens), lengths=lens, steps=n, **ctx)


def check_plot(c, run):
    """The plotted run: every recorded series against its time, and the hours of each special mode shaded."""
    n, dt = len(run.dhw_demand_supplyT_gal), c["interval"]
    fig = run.to_plotly(include_temperatures=True)
    sup = fx(c["supply"])
    want = {"usable": run.usable_volume_supplyT_gal, "demand-gph": [x * 60 / dt for x in run.dhw_demand_supplyT_gal],
            "generation-gph": [k * 1000 / (8.353535 * max(1.0, sup - t)) for k, t in zip(run.heater_output_kbtuh, run.inlet_water_temp_f)],
            "outdoor": run.oat_f, "inlet": run.inlet_water_temp_f}
    for k, t in enumerate(run.tank_temps_f):
        want[f"tank-{k}"] = t
    if c["kind"] == "swing":
        want["loop-temperature"], want["loop-output"] = run.tm_tank_temp_f, run.tm_heater_output_kbtuh
    at = sorted({0, 1, n // 7, n // 3, n // 2, n - 2, n - 1} & set(range(n)))
    got = [(list(t.x), list(t.y)) for t in fig.data]
    for name, y in want.items():
        require("plot-shows-the-record", any(len(gx) == len(gy) == n and all(gx[i] == i * dt for i in at) and all(near(float(gy[i]), float(y[i]), 1e-6) for i in at)
                                             for gx, gy in got), series=name, traces=[t.name for t in fig.data], kind=c["kind"])
    spans, i = [], 0
    while i < n:
        j = i
        while j < n and run.heater_mode[j] == run.heater_mode[i]:
            j += 1
        if run.heater_mode[i] in ("shed", "loadUp"):
            spans.append((i * dt, j * dt))
        i = j
    shaded = sorted({(s.x0, s.x1) for s in fig.layout.shapes or ()})     # once per panel
    require("plot-shades-the-modes", shaded == sorted(spans), got=shaded[:6], want=spans[:6], kind=c["kind"])


def check_outputs(c, run, rows):
    """What a run exports is what it recorded."""
    n = len(run.dhw_demand_supplyT_gal)
    if 0 < n <= 4320:
        check_plot(c, run)
    with tempfile.TemporaryDirectory(prefix="verif_csv_") as d:
        f = os.path.join(d, "run.csv")
        run.to_csv(f)
        import csv
        with open(f, newline="") as fh:
            got = list(csv.DictReader(fh))
    require("export-has-every-step", len(got) == n, got=len(got), want=n)
    for i in sorted({0, 1, n // 3, n // 2, n - 2, n - 1} & set(range(n))):
        g, r = got[i], rows[i]
        expect("export-time", float(g["time_min"]), i * c["interval"], step=i)
        expect("export-demand", float(g["dhw_demand_supplyT_gal"]), fx(r["demand"]), step=i)
        expect("export-usable", float(g["usable_volume_supplyT_gal"]), fx(r["usable"]), abs_=fx(c["vol"]) * 1e-4, step=i)
        expect("export-output", float(g["heater_output_kbtuh"]), fx(r["out"]), abs_=1e-5, step=i)
        expect("export-oat", float(g["oat_f"]), fx(r["oat"]), step=i)
        expect("export-inlet", float(g["inlet_water_temp_f"]), fx(r["inlet"]), step=i)
        for k, name in enumerate(("0", "20", "40", "60", "80", "100")):
            expect("export-tank", float(g[f"tank_temp_{name}pct"]), fx(r["temps"][k]), abs_=1e-3, step=i, node=name)
    out = [i for i, r in enumerate(rows) if r["usable"] <= 0]
    msg = run.get_failure_message()
    if out:
        import re
        nums = re.findall(r"\d+(?:\.\d+)?", msg)
        day = out[0] * c["interval"] // 1440 + 1
        require("failure-message-counts", str(run.outage_minutes) in nums and str(day) in nums, message=msg,
                outage=run.outage_minutes, day=day)
