from vlib import *
import csv
from ecoengine.objects.building.ClimateZone import ClimateZone
from ecoengine.objects.building.Building import Building

CD = os.path.join(REPO_SRC, "ecoengine/data/climate_data")


def table(name):
    with open(os.path.join(CD, name), newline="") as f:
        rows = list(csv.reader(f))
    return rows[0], rows[1:]


def synthetic(l):
    oat = [float(l["lo"] + (l["a"] * h + l["b"] * (h // 24) ** 2 + h ** 3) % l["span"]) for h in range(8760)]
    inlet = [float(40 + (l["m"] * (m + 1) ** 2) % 37) for m in range(12)]
    return oat, inlet


def check_zone(z, b, trace, oat, inlet, where):
    n = 0
    for i, s in enumerate(trace[1:], 1):
        e = s["ev"]
        if e["op"] != "at":
            continue
        n += 1
        ctx = dict(step=i, idx=e["idx"], interval=e["interval"], hour=s["hour"], month=s["month"], where=where)
        for o in (z, b):
            expect("oat-of-the-hour", o.get_oat_f(e["idx"], e["interval"]), oat[s["hour"]], **ctx)
            expect("inlet-of-the-month", o.get_inlet_water_temp_f(e["idx"], e["interval"]), inlet[s["month"]], **ctx)
    return n


def building(z):
    return Building(z, 1000.0, [1 / 24] * 24, [1 / 24] * 24)


def replay(trace):
    l = trace[0]["loc"]
    oat, inlet = synthetic(l)
    z = ClimateZone(None, list(oat), list(inlet))
    b = building(z)
    n = check_zone(z, b, trace, oat, inlet, "synthetic")
    for i, s in enumerate(trace):
        if s["ev"]["op"] == "design":
            expect("design-oat-is-coldest-hour", z.get_design_oat_f(), s["oat"], loc=l)
            expect("design-inlet-is-coldest-month", z.get_design_inlet_water_temp_f(), s["inlet"], loc=l)
            expect("design-oat-is-coldest-hour", b.get_design_oat_f(), s["oat"], loc=l)
            expect("design-inlet-is-coldest-month", b.get_design_inlet_water_temp_f(), s["inlet"], loc=l)
            got = {float(k): int(v) for k, v in z.get_oat_buckets().items()}
            require("daily-mean-buckets", got == {float(k): v for k, v in s["dist"].items()},
                    got=sorted(got.items()), want=sorted(s["dist"].items()), loc=l)
    # constant conditions: the same at every step
    for s in trace[1:]:
        e = s["ev"]
        c = ClimateZone.from_design_conditions(design_oat_f=float(l["lo"]), design_inlet_water_temp_f=51.5)
        expect("constant-oat", c.get_oat_f(e["idx"], e["interval"]), l["lo"])
        expect("constant-inlet", c.get_inlet_water_temp_f(e["idx"], e["interval"]), 51.5)
        expect("constant-design-oat", c.get_design_oat_f(), l["lo"])
        expect("constant-design-inlet", c.get_design_inlet_water_temp_f(), 51.5)
    b2 = Building(None, 10.0, [1 / 24] * 24, [1 / 24] * 24, design_oat_f=float(l["lo"]), design_inlet_water_temp_f=44.0)
    expect("constant-building", [b2.get_oat_f(77, 5), b2.get_inlet_water_temp_f(77, 5), b2.get_design_oat_f(),
                                 b2.get_design_inlet_water_temp_f()], [l["lo"], 44.0, l["lo"], 44.0])
    return dict(queries=n)


def replay_real(item):
    zone, trace, oat, inlet = item
    z = ClimateZone.from_zone_id(zone)
    n = check_zone(z, building(z), trace, oat, inlet, f"zone {zone}")
    expect("design-oat-is-coldest-hour", z.get_design_oat_f(), min(oat), zone=zone)
    expect("design-inlet-is-coldest-month", z.get_design_inlet_water_temp_f(), min(inlet), zone=zone)
    want = {}
    for d in range(365):
        k = math.floor(sum(oat[24 * d:24 * d + 24]) / 24 / 5) * 5.0
        want[k] = want.get(k, 0) + 1
    got = {float(k): int(v) for k, v in z.get_oat_buckets().items()}
    require("daily-mean-buckets", sum(got.values()) == 365, zone=zone)
    # a mean within rounding of a bucket edge may fall on either side
    edge = sum(1 for d in range(365) if min((sum(oat[24 * d:24 * d + 24]) / 120) % 1, 1 - (sum(oat[24 * d:24 * d + 24]) / 120) % 1) < 1e-9)
    diff = sum(abs(got.get(k, 0) - want.get(k, 0)) for k in set(got) | set(want))
    require("daily-mean-buckets", diff <= 2 * edge, zone=zone, got=sorted(got.items()), want=sorted(want.items()))
    return dict(real_queries=n)


def same_location(item):
    kind, key, zone, oat, inlet = item
    z = ClimateZone.from_zip_code(key) if kind == "zip" else ClimateZone.from_weather_station(key)
    idx = [(sum(map(ord, str(key))) * 37 + k * 1871) % 8760 for k in range(6)]
    ctx = dict(kind=kind, key=key, zone=zone)
    for h in idx:
        expect("same-location-same-weather", z.get_oat_f(h, 60), oat[h], **ctx)
        mon = next(m for m in range(11, -1, -1) if h // 24 >= [0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334][m])
        expect("same-location-same-inlet", z.get_inlet_water_temp_f(h, 60), inlet[mon], **ctx)
    expect("same-location-same-zone", z.zone_id, zone, **ctx)
    return dict(lookups=1)


def rejects(_):
    from ecoengine.objects.building.ClimateZone import ClimateZone as Z
    for name, f in [("foreign zip", lambda: Z.from_zip_code("10001")), ("nonsense zip", lambda: Z.from_zip_code("abcde")),
                    ("unknown station", lambda: Z.from_weather_station("ZZ - Nowhere")),
                    ("buckets of constants", lambda: Z.from_design_conditions(40, 50).get_oat_buckets())]:
        try:
            f()
        except ValueError:
            continue
        raise Mismatch("rejects-unknown-location", dict(case=name))
    return dict(rejections=4)


def body(ck):
    tr = ck.generate("climate.qnt", "climateMachine", ck.n(480, 4000), ck.n(20, 40),
                     ["hourOk", "monthOk", "coldest", "everyDayOnce", "agree"])
    ck.replay(replay, tr, "synthetic location")
    hd, oatrows = table("DryBulbTemperatures_ByClimateZone.csv")
    hi, inrows = table("InletWaterTemperatures_ByClimateZone.csv")
    nz = len(hd)
    oats = [[float(r[c]) for r in oatrows] for c in range(nz)]
    ins = [[float(r[c]) for r in inrows] for c in range(nz)]
    zones = [(z + 1, tr[z % len(tr)], oats[z], ins[z]) for z in range(nz)]
    ck.replay(replay_real, zones, "real location")
    items = []
    h, rows = table("ZipCode_ClimateZone_Lookup.csv")
    zi, ci = h.index("Zip Code"), h.index("Building CZ")
    zips = [(r[zi].strip(), int(r[ci])) for r in rows]
    first = {}
    for k, z in zips:
        first.setdefault(k, z)
    zl = sorted(first.items())
    stride = ck.n(12, 1)
    off = ck.seed % stride
    for j, (k, z) in enumerate(zl):
        if j % stride == off:
            items.append(("zip", int(k) if j % 2 else k, z, oats[z - 1], ins[z - 1]))
    h, rows = table("WeatherStation_ClimateZone_Lookup.csv")
    si, ci = h.index("Weather Station"), h.index("Building CZ")
    seen = set()
    for r in rows:
        if r[si].strip() not in seen:
            seen.add(r[si].strip())
            items.append(("station", r[si].strip(), int(r[ci]), oats[int(r[ci]) - 1], ins[int(r[ci]) - 1]))
    ck.replay(same_location, items, "location lookup")
    ck.replay(rejects, [0], "unknown locations")


if __name__ == "__main__":
    main("C02", body)
