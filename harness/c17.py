from tarifflib import *
from ecoengine.objects.simulation.SimulationRun import SimulationRun
from ecoengine.interfaces.EcosizerEngine import get_annual_utility_comparison_graph

UNIT = 1000 * 60 * 10000        # watt-minutes times 1/10000 dollar per kWh -> dollars


def kw(w):
    return None if w == NUL else w / 1000


def record(s):
    r = SimulationRun(s["dur"], s["ts"])
    np_, nt, spike = len(s["prim"]), len(s["tm"]), s["spike"]
    for i in range(s["n"]):
        p = spike[i] if i in spike else s["prim"][(7 * i + i // 24) % np_]
        tm = dict(tm_tank_temp_f=125.0, tm_heater_output_kbtuh=1.0, tm_heater_input_kw=kw(s["tm"][(5 * i + i // 31) % nt])) if s["hasTm"] else {}
        r.record_timestep(dhw_demand_supplyT_gal=1.0, usable_volume_supplyT_gal=50.0, heater_output_kbtuh=10.0, heater_power_in_kw=kw(p),
                          oat_f=40.0, inlet_water_temp_f=50.0, tank_temps_f=[120.0] * 6, **tm)
    return r


def check_bill(r, s, a, t, rates, base, described, ctx):
    """rates: label -> (demand rate in 1/10000 dollar, is peak); base in 1/10000 dollar a month"""
    def money(clause, got, want):
        expect(clause, got, want, rel=1e-9, abs_=1e-6, **ctx)
    demand = {l: rates[l][0] * x["w"] / 1000 / 10000 for l, x in a["most"].items()}
    total = a["total"] / UNIT + sum(demand.values()) + 12 * base / 10000
    money("annual-cost", r.get_annual_utility_cost(t), total)
    b, d = r.get_monthly_cost_breakdown(t), r.get_monthly_cost_breakdown_detailed(t)
    for m in range(12):
        pk, off = a["cost"][2 * m] / UNIT, a["cost"][2 * m + 1] / UNIT
        money("month-energy-cost", b["energy"][m], pk + off)
        money("month-peak-energy-cost", d["energy_peak"][m], pk)
        money("month-off-peak-energy-cost", d["energy_off_peak"][m], off)
        if described:
            money("month-demand-cost", b["demand"][m], sum(v for l, v in demand.items() if a["most"][l]["m"] == m))
            for key, peak in (("demand_peak", True), ("demand_off_peak", False)):
                money("month-" + key, d[key][m], sum(v for l, v in demand.items() if a["most"][l]["m"] == m and rates[l][1] == peak))
    for key, peak in (("demand_peak", True), ("demand_off_peak", False)):
        money("all-" + key, sum(d[key]), sum(v for l, v in demand.items() if rates[l][1] == peak))
    for m in range(12):
        money("month-demand-split", d["demand_peak"][m] + d["demand_off_peak"][m], b["demand"][m])
    money("month-base", b["base"], base / 10000)
    money("month-base-detailed", d["base"], base / 10000)
    money("breakdown-total", sum(b["energy"]) + sum(b["demand"]) + 12 * b["base"], total)
    money("detailed-total", sum(sum(d[k]) for k in ("energy_peak", "energy_off_peak", "demand_peak", "demand_off_peak")) + 12 * d["base"], total)


def check_energy(r, s, a, ctx):
    kwh = sum(a["wmin"]) / 60000
    expect("total-energy", r.get_total_energy_kwh(), kwh, rel=1e-9, **ctx)
    expect("peak-power", r.get_peak_demand_kw(), a["peak"] / 1000, rel=1e-12, **ctx)
    z = r.get_summary()
    require("summary", z["total_energy_kwh"] == r.get_total_energy_kwh() and z["peak_demand_kw"] == r.get_peak_demand_kw()
            and z["num_steps_recorded"] == s["n"], got=z, **ctx)
    if s["dur"] == 525600:
        expect("monthly-energy", r.get_monthly_energy_kwh(), [x / 60000 for x in a["wmin"]], rel=1e-9, **ctx)


def check_graph(runs, t, ctx):
    arr = get_annual_utility_comparison_graph(runs[0], runs[1], t, return_as_array=True)
    for x, r in zip(arr, runs):
        require("graph-figures", x == r.get_monthly_cost_breakdown_detailed(t), **ctx)
    fig = get_annual_utility_comparison_graph(runs[0], runs[1], t)
    require("graph-stacked", fig.layout.barmode == "stack", **ctx)
    bars = {}
    for tr in fig.data:
        require("graph-months", len(tr.x) == 24 and len(set(tr.x)) == 24, **ctx)
        for x, y in zip(tr.x, tr.y):
            bars[x] = bars.get(x, 0.0) + y
    for n, r in enumerate(runs):
        b = r.get_monthly_cost_breakdown(t)
        got = [y for i, (x, y) in enumerate(sorted(bars.items(), key=lambda z: list(fig.data[0].x).index(z[0]))) if i % 2 == n]
        expect("graph-bars", got, [b["energy"][m] + b["demand"][m] + b["base"] for m in range(12)], rel=1e-9, **ctx)


def replay_described(trace):
    n = years = graphs = 0
    prev = None
    for st in trace:
        s, a = st["s"], st["a"]
        if s["n"] == 0:
            prev = None
            continue
        t = describe(st)
        ctx = dict(tariff={k: st["r"][k] for k in ("base", "ps", "pe", "sm", "em", "disc", "ds", "de")}, ts=s["ts"], steps=s["n"], tm=s["hasTm"])
        rates = {k["label"]: (k["demand"], k["kind"] == 1) for k in st["table"]}
        r = record(s)
        check_bill(r, s, a, t, rates, st["r"]["base"], True, ctx)
        check_energy(r, s, a, ctx)
        n += 1
        years += s["dur"] == 525600
        if prev is not None:
            if prev.duration_min == r.duration_min == 525600:
                check_graph((prev, r), t, ctx)
                graphs += 1
            else:
                rejected(lambda: get_annual_utility_comparison_graph(prev, r, t), "graph-needs-years", **ctx)
        prev = r
        # the same tariff from its file form gives the same bill
        with tempfile.TemporaryDirectory() as d:
            p = os.path.join(d, "t.csv")
            t.to_csv(p)
            u = UtilityCostTracker.from_csv(p)
        expect("bill-from-written-tariff", r.get_annual_utility_cost(u), r.get_annual_utility_cost(t), rel=1e-12, **ctx)
        b, c = r.get_monthly_cost_breakdown(u), r.get_monthly_cost_breakdown(t)
        expect("months-from-written-tariff", [x + y for x, y in zip(b["energy"], b["demand"])], [x + y for x, y in zip(c["energy"], c["demand"])], rel=1e-9, **ctx)
    return {"bills": n, "years": years, "graphs": graphs}


def replay_filed(trace):
    n = 0
    for st in trace:
        s, a = st["s"], st["a"]
        if s["n"] == 0:
            continue
        f, rd = st["f"], st["read"]
        with tempfile.TemporaryDirectory() as d:
            p = os.path.join(d, "t.csv")
            write_file(p, f, rd["rows"])
            t = UtilityCostTracker.from_csv(p)
        ctx = dict(file={k: v for k, v in f.items() if k != "lab"}, ts=s["ts"], steps=s["n"], tm=s["hasTm"])
        rates = {l: (k["demand"], k["kind"] == 1) for l, k in rd["rate"].items()}
        r = record(s)
        check_bill(r, s, a, t, rates, f["base"], False, ctx)
        check_energy(r, s, a, ctx)
        n += 1
    return {"file_bills": n}


def body(ck):
    tr = ck.generate("bill.qnt", "billDescribed", ck.n(40, 480), 5)
    ck.replay(replay_described, tr, "described")
    tr = ck.generate("bill.qnt", "billOfFiled", ck.n(24, 160), 2)
    ck.replay(replay_filed, tr, "filed")
    tr = ck.generate("bill.qnt", "billYear", ck.n(8, 48), 2)
    ck.replay(replay_described, tr, "year")


main("C17", body)
