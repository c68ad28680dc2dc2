"""Sizes the electric-resistance trade-offs an `er` behaviour describes with the real code."""
from sizelib import *
from ecoengine.objects.components.heating.WaterHeater import WaterHeater
from ecoengine.objects.components.storage.StratifiedTank import StratifiedTank
from ecoengine.objects.components.storage.MixedStorageTank import MixedStorageTank
from ecoengine.objects.dhwsystems.recirc_systems.SwingERTrdOffSystem import SwingERTrdOffSystem as ER
import math

KW = 3.412142


def scaled(c, load=1.0):
    b = building(c)
    b.daily_dhw_use_supplyT_gal = b.daily_dhw_use_supplyT_gal * load
    return b


def parts(c, p, b, sf, tm=None, cap=1.0, heaters=2, sto=1.0):
    k = {"normal": controls(dict(onH=SCALE // 2, onT=c["supply"], offH=SCALE // 10, offT=c["storage"], outT=c["storage"]))}
    whs = [WaterHeater.from_nominal_capacity(nominal_capacity_kbtuh=fx(p["cap"]) * cap / heaters, control_schedule=["normal"] * 24, control_map=k)
           for _ in range(heaters)]
    tank = StratifiedTank(total_volume_gal=fx(p["sto"]) * sto)
    swing = MixedStorageTank(total_volume_gal=fx(p["vol"]))
    s = ER.from_components(water_heaters=whs, storage_tank=tank, tm_storage_tank=swing,
                           initial_tm_capacity_kbtuh=fx(p["tmCap"]) if tm is None else tm, building=b, supply_temp_f=fx(c["supply"]),
                           storage_temp_f=fx(c["storage"]), return_temp_f=fx(c["ret"]), return_flow_gpm=fx(c["gpm"]), er_safety_factor=sf)
    require("parts-kept", s.water_heaters == whs and s.storage_tank is tank and s.tm_storage_tank is swing)
    return s


def whole(c, sf, b):
    return ER.from_size(b, fx(c["supply"]), fx(c["storage"]), er_safety_factor=sf, **size_kw(c))


def element(s):
    return s.tm_water_heater.performance_map.get_capacity_kbtuh(40.0, 130.0, 100.0)


def check_element(st):
    """Sizes the real element of an `er` state; None when neither can."""
    c, p, e, sf = st["c"], st["p"], st["e"], fx(st["sf"])
    ctx = dict(whole=st["whole"], gpm=fx(c["gpm"]), daily=fx(c["daily"]), cap=fx(p["cap"]), sto=fx(p["sto"]), vol=fx(p["vol"]), run_hr=fx(c["runHr"]))
    close = min(e["margin"], st["r"]["margin"]) < NEAR_TIE
    b = building(c)
    before = b.daily_dhw_use_supplyT_gal
    try:
        s = whole(c, sf, b) if st["whole"] else parts(c, p, b, sf)
    except ValueError as x:
        require("servable-accepted", close or not e["ok"], error=str(x), **ctx)
        return None
    require("unservable-rejected", close or e["ok"], **ctx)
    require("building-as-before", b.daily_dhw_use_supplyT_gal == before, **ctx)
    if close or not e["ok"]:
        return None
    expect("element-addition", s.get_er_capacity_kbtuh(), fx(e["er"]), rel=1e-7, abs_=1e-5, **ctx)
    expect("element-addition-kw", s.get_er_capacity_kw(), fx(e["er"]) / KW, rel=1e-7, abs_=1e-5, **ctx)
    expect("element-total", s.get_minimum_tm_capacity_kbtuh(), fx(p["tmCap"] + e["er"]), rel=1e-7, abs_=1e-5, **ctx)
    expect("element-built", element(s), fx(p["tmCap"] + e["er"]), rel=1e-7, abs_=1e-5, **ctx)
    expect("swing-tank", s.tm_storage_tank.total_volume_gal, fx(p["vol"]), **ctx)
    expect("primary-capacity", s.get_minimum_capacity_kbtuh(), fx(p["cap"]), **ctx)
    expect("primary-heaters", heater_total(s), fx(p["cap"]), **ctx)
    expect("primary-storage", s.storage_tank.total_volume_gal, fx(p["sto"]), **ctx)
    for h in (0, 12):
        k = s.tm_water_heater.get_controls_for_hour(h)
        expect("element-on-temperature", k.on_trigger_t_f, fx(c["supply"]), **ctx)
        expect("element-off-temperature", k.off_trigger_t_f, fx(c["supply"]) + 8, **ctx)
    return s, b, ctx


def replay_sizes(trace):
    n = skip = short = 0
    for st in trace:
        if st["phase"] not in (1, 3) or not st["r"]["ok"]:
            continue
        got = check_element(st)
        if got is None:
            skip += 1
            continue
        s, b, ctx = got
        n += 1
        c, p, sf = st["c"], st["p"], fx(st["sf"])
        add = s.get_er_capacity_kbtuh()
        short += add > 0
        if not st["whole"]:
            # the addition is in proportion to the safety factor and follows from the total of the heaters
            more = parts(c, p, scaled(c), sf * 1.5, heaters=3).get_er_capacity_kbtuh()
            expect("safety-factor-scales-addition", more, 1.5 * add, rel=1e-6, abs_=1e-5, **ctx)
    return {"elements": n, "with_er": int(short), "near_ties_or_refused": skip}


def replay_points(trace):
    st = trace[-1]
    if st["phase"] == 0 or not st["r"]["ok"]:
        return {"unsized": 1}
    got = check_element(st)
    if got is None:
        return {"near_ties_or_refused": 1}
    s, b, ctx = got
    sf = fx(st["sf"])
    if st["e"]["er"] == 0:
        with quiet():
            try:
                s.get_er_sized_points(b, additional_er_safety=sf)
            except RuntimeError:
                return {"no_er": 1}
        raise Mismatch("no-trade-off-without-shortfall", ctx)
    pts = st["pts"]
    before = (b.daily_dhw_use_supplyT_gal, s.get_minimum_tm_capacity_kbtuh(), s.get_er_capacity_kbtuh(), element(s), s.er_safety_factor, list(b.peak_load_shape))

    def unchanged():
        after = (b.daily_dhw_use_supplyT_gal, s.get_minimum_tm_capacity_kbtuh(), s.get_er_capacity_kbtuh(), element(s), s.er_safety_factor, list(b.peak_load_shape))
        require("building-and-system-as-before", before == after, before=before[:5], after=after[:5], **ctx)
    close = any(q["margin"] < NEAR_TIE for q in pts)
    try:
        kw, pct, mark = s.get_er_sized_points(b, additional_er_safety=sf)
    except ValueError as x:
        require("points-servable", close or not all(q["ok"] for q in pts), error=str(x), **ctx)
        unchanged()
        return {"points_refused": 1}
    unchanged()
    require("points-unservable", close or all(q["ok"] for q in pts), **ctx)
    if close:
        return {"near_ties_or_refused": 1}
    want = pts[::-1]
    require("point-coverage", [float(x) for x in pct] == [float(q["pct"]) for q in want], got=pct, want=[q["pct"] for q in want], **ctx)
    require("marked-point", pct[mark] == 100.0, got=mark, pct=pct, **ctx)
    for k, q in zip(kw, want):
        exact = fx(q["kw"])
        require("point-element", abs(k - round(exact)) < 1e-9 or abs(abs(exact - math.floor(exact)) - 0.5) < 1e-6, got=k, want=exact, pct=q["pct"], **ctx)
    fig = s.get_er_sizing_curve(b, additional_er_safety=sf)
    unchanged()
    require("plotted-points", list(fig.data[0].x) == list(pct) and list(fig.data[0].y) == list(kw), **ctx)
    shown = [i for i in range(1, len(fig.data)) if fig.data[i].visible]
    require("plotted-mark", shown == [mark + 1] and fig.layout.sliders[0].active == mark, shown=shown, mark=mark, **ctx)
    return {"curves": 1, "points": len(pts)}
