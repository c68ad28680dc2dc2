from vlib import *
import numpy as np
from ecoengine.objects.building.Building import Building
from ecoengine.objects.building.ClimateZone import ClimateZone

NAMES = ["multi_family", "apartment", "motel", "office_building", "mens_dorm", "womens_dorm", "nursing_home",
         "food_service_a", "food_service_b", "elementary_school", "junior_high", "senior_high"]
with open(os.path.join(VERIF, "data/frozen/annual_multi_family.json")) as _f:
    ANNUAL = json.load(_f)
ZONE = ClimateZone.from_design_conditions(40.0, 50.0)


def norm(w):
    t = sum(w)
    return [x / t for x in w]


def build(uses):
    types = [None if u["ty"] == -1 else NAMES[u["ty"]] for u in uses]
    mags = [None if u["mag"] == -1 else u["mag"] / SCALE for u in uses]
    # an un-typed use may give raw weights; named types take normalised shapes only
    peaks = [None if not u["peak"] else (list(map(float, u["peak"])) if u["ty"] == -1 else norm(u["peak"])) for u in uses]
    avgs = [None if not u["avg"] else (list(map(float, u["avg"])) if u["ty"] == -1 else norm(u["avg"])) for u in uses]
    kw = dict(gpdpp=uses[0]["gpd"] / SCALE)
    if len(uses) == 1:
        args = (types[0], mags[0])
        kw.update(custom_peak_load_shape=peaks[0], custom_avg_load_shape=avgs[0])
        inputs = (peaks[0], avgs[0])
    else:
        args = (types, mags)
        kw.update(custom_peak_load_shape=peaks if any(p is not None for p in peaks) else None,
                  custom_avg_load_shape=avgs if any(p is not None for p in avgs) else None)
        inputs = (peaks, avgs, types, mags)
    before = json.dumps(inputs)
    b = Building.from_building_type(*args, ZONE, **kw)
    require("arguments-unchanged", json.dumps(inputs) == before)
    return b


def replay(trace):
    uses = trace[0]["uses"]
    b = build(uses)
    total = trace[0]["total"] / SCALE
    expect("daily-use", b.daily_dhw_use_supplyT_gal, total)
    q = days = 0
    for i, s in enumerate(trace[1:], 1):
        e, r = s["ev"], s["res"]
        ctx = dict(step=i, op=e["op"], idx=e["idx"], interval=e["interval"], avg=e["avg"], annual=s["annual"])
        if e["op"] == "query":
            q += 1
            got = b.get_dhw_load_supplyT_gal(e["idx"], e["interval"], use_avg=e["avg"])
            want = total * ANNUAL[r["hour"]] * e["interval"] / 60 if s["annual"] else r["value"] / SCALE
            expect("step-demand", got, want, abs_=1e-7, **ctx)
        elif e["op"] == "day":
            days += 1
            n = 1440 // e["interval"]
            got = sum(b.get_dhw_load_supplyT_gal(e["idx"] + j, e["interval"], use_avg=e["avg"]) for j in range(n))
            expect("day-conserves-daily-use", got, r["value"] / SCALE, **ctx)
        else:
            err = None
            try:
                b.set_to_annual_load_shape() if e["op"] == "annual" else b.set_to_daily_load_shape()
            except Exception as x:
                err = x
            require("shape-switch-outcome", (err is None) == r["ok"], error=repr(err), **ctx)
            if err is not None:
                require("shape-switch-error", isinstance(err, ValueError), error=repr(err), **ctx)
        require("annual-flag", bool(b.is_annual_load_shape()) == s["annual"], **ctx)
        expect("daily-use-unchanged", b.daily_dhw_use_supplyT_gal, total, **ctx)
    # a one-minute query needs no interval argument and the peak shape is the default
    if not trace[-1]["annual"]:
        expect("default-arguments", b.get_dhw_load_supplyT_gal(491), b.get_dhw_load_supplyT_gal(491, 1, use_avg=False))
    return dict(queries=q, days=days)


def replay_ca(trace):
    for s in trace:
        n, x = s["nbr"], s["gpd"] / SCALE
        mag = 7.0 * sum(n)
        b = Building.from_building_type("multi_family", mag, ZONE, standard_gpd="ca", n_br=list(n))
        if abs((x * 10) % 1 - 0.5) < 1e-5:
            continue
        expect("ca-bedroom-mix", b.daily_dhw_use_supplyT_gal, round(x, 1) * mag, n_br=n)
    return dict(ca_mixes=len(trace))


def fixed_rates(_):
    for key, g in (("ashLow", 20), ("ashMed", 49), ("ecoMark", 25)):
        for mag in (1, 13.5, 900):
            b = Building.from_building_type("multi_family", mag, ZONE, gpdpp=31, standard_gpd=key)
            expect("standard-gpd", b.daily_dhw_use_supplyT_gal, g * mag, key=key)
    b = Building.from_building_type("multi_family", 10, ZONE)
    expect("default-gpdpp", b.daily_dhw_use_supplyT_gal, 250.0)
    b = Building.from_building_type(["motel"], [12], ZONE)
    expect("single-element-list", b.daily_dhw_use_supplyT_gal, 21.4 * 12)
    flat = [1 / 24] * 24
    bad = [
        ("unknown-type", lambda: Building.from_building_type("castle", 3, ZONE)),
        ("zero-magnitude", lambda: Building.from_building_type("motel", 0, ZONE)),
        ("negative-magnitude", lambda: Building.from_building_type("motel", -4, ZONE)),
        ("text-magnitude", lambda: Building.from_building_type("motel", "12", ZONE)),
        ("short-shape", lambda: Building.from_building_type("motel", 3, ZONE, custom_peak_load_shape=[0.1] * 10)),
        ("unnormalised-shape", lambda: Building.from_building_type("motel", 3, ZONE, custom_peak_load_shape=[0.1] * 24)),
        ("negative-shape", lambda: Building.from_building_type("motel", 3, ZONE, custom_avg_load_shape=[-0.1, 0.1 + 2 / 24] + flat[2:])),
        ("no-shape", lambda: Building.from_building_type(None, 3, ZONE)),
        ("bad-standard", lambda: Building.from_building_type("multi_family", 3, ZONE, standard_gpd="nope")),
        ("ca-without-mix", lambda: Building.from_building_type("multi_family", 3, ZONE, standard_gpd="ca")),
        ("ca-short-mix", lambda: Building.from_building_type("multi_family", 3, ZONE, standard_gpd="ca", n_br=[1, 2])),
        ("ca-empty-mix", lambda: Building.from_building_type("multi_family", 3, ZONE, standard_gpd="ca", n_br=[0] * 6)),
        ("mix-magnitudes", lambda: Building.from_building_type(["motel", "apartment"], [3], ZONE)),
        ("mix-scalar-magnitude", lambda: Building.from_building_type(["motel", "apartment"], 3, ZONE)),
        ("mix-single-shape", lambda: Building.from_building_type(["motel", "apartment"], [3, 4], ZONE, custom_peak_load_shape=flat)),
        ("mix-shape-count", lambda: Building.from_building_type(["motel", "apartment"], [3, 4], ZONE, custom_peak_load_shape=[flat] * 3)),
        ("annual-motel", lambda: Building.from_building_type("motel", 3, ZONE, annual=True)),
        ("gpd-text", lambda: Building.from_building_type("multi_family", 3, ZONE, gpdpp="25")),
    ]
    for name, f in bad:
        try:
            f()
        except ValueError:
            continue
        raise Mismatch("rejects-invalid-building", dict(case=name))
    return dict(rejections=len(bad))


def body(ck):
    tr = ck.generate("load.qnt", "loadMachine", ck.n(1600, 16000), ck.n(24, 50), ["dayConserved", "nonNegative", "hourInRange"])
    ck.replay(replay, tr, "building demand")
    tr = ck.generate("load.qnt", "caMachine", ck.n(24, 400), ck.n(8, 20), ["inv"])
    ck.replay(replay_ca, tr, "california bedroom mix")
    ck.replay(fixed_rates, [0], "stated rates and rejections")


if __name__ == "__main__":
    main("C01", body)
