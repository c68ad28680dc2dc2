import functools
import pickle
from concurrent.futures import ThreadPoolExecutor
from itertools import product
from vlib import *
from ecoengine.objects.components.heating.PerformanceMap import PerformanceMap, NominalPerformanceMap, HPWHsimPerformanceMap
from ecoengine.objects.components.heating.WaterHeater import WaterHeater
from ecoengine.interfaces.EcosizerEngine import get_hpwh_output_capacity, get_list_of_models

KW = 3.412142
NUL = -999999 * 10 ** 9
with open(os.path.join(VERIF, "data", "perf_models.json")) as _f:
    MODELS = json.load(_f)
# models stated by a single regression, handed to the map class directly
REGS = [dict(kind="regression", name=m["name"], multi=m["multi"], brackets=[dict(t=60, **m["regression"])]) for m in MODELS if "regression" in m]
DATA = os.path.join(REPO_SRC, "ecoengine", "data", "preformanceMaps", "pkls")


def fixed(v):
    return str(round(v * SCALE)) if v >= 0 else f"(-{round(-v * SCALE)})"


def ints(l):
    return "[" + ", ".join(fixed(x) for x in l) + "]"


def quint_model(m):
    if m["kind"] == "lab":
        row = lambda r: f"{{ t: {fixed(r[0] / 10)}, outs: {ints([o / 10 for o in r[1]])} }}"
        grid = "[" + ", ".join("[" + ", ".join(row(r) for r in l) + "]" for l in m["grid"]) + "]"
        return (f"{{ lab: true, two: {str(m['two']).lower()}, hx: {fixed(m['hx'] / 10)}, oats: {ints([x / 10 for x in m['oats']])}, grid: {grid}, "
                f"inMax: {fixed(m['inMax'] / 10)}, hiOut: {fixed(m['hi'][0])}, hiIn: {fixed(m['hi'][1])}, lo: {fixed(m['lo'])}, brackets: [] }}")
    br = ", ".join(f"{{ t: {fixed(b['t'])}, p: {ints(b['p'])}, c: {ints(b['c'])} }}" for b in m["brackets"])
    return f"{{ lab: false, two: true, hx: 0, oats: [], grid: [[{{ t: 0, outs: [0] }}]], inMax: 0, hiOut: 0, hiIn: 0, lo: 0, brackets: [{br}] }}"


@functools.lru_cache(maxsize=200)
def lab(prefix):
    out = []
    for k in ("capacity", "power_in"):
        with open(os.path.join(DATA, f"{prefix}_{k}_interpolator.pkl"), "rb") as f:
            out.append(pickle.load(f))
    return out


def lab_value(m, i, o, t):
    arr = [[i, t]] if m["two"] else [[i, o, t]]
    v = tuple(float(f(arr)[0][0]) for f in lab(m["prefix"]))
    return None if any(math.isnan(x) for x in v) else v


def expected(m, q, a):
    """(output kW, input kW) per unit the specification allows; several where a point lies on the map's edge"""
    if a["known"]:
        return [(fx(a["out"]), fx(a["inp"]))]
    p1, p2, p3 = a["pts"]
    inlet = fx(q["design"] if q["inlet"] == NUL else q["inlet"]) + m["hx"] / 10
    outlet = fx(q["outlet"]) + m["hx"] / 10
    firsts = [lab_value(m, fx(p1["i"]), fx(p1["o"]), fx(p1["t"])), lab_value(m, min(inlet, m["inMax"] / 10), outlet, fx(q["oat"]))]
    out = [v for v in firsts if v]
    if out and all(firsts):
        return out
    seconds = [lab_value(m, fx(p2["i"]), o, fx(p2["t"])) for o in (fx(p2["o"]), outlet)]
    out += [v for v in seconds if v]
    if all(seconds):
        return out
    third = lab_value(m, fx(p3["i"]), fx(p3["o"]), fx(p3["t"]))
    if third:
        adj = third[0] * a["num"] / a["den"]
        return out + [(third[0] + adj, third[1] + adj)]
    return out + [(fx(a["out"]), fx(a["inp"]))]


def close(x, y):
    return abs(x - y) <= 1e-7 * max(1.0, abs(y))


def replay(item):
    chunk, trace = item
    n = {"in_map": 0, "cold": 0, "hot": 0, "lab": 0}
    history = []
    for k, st in enumerate(trace):
        q, a = st["q"], st["a"]
        m = MODELS[chunk[q["m"]]]
        oat, outlet = fx(q["oat"]), fx(q["outlet"])
        inlet = None if q["inlet"] == NUL else fx(q["inlet"])
        nominal = None if q["nominal"] == NUL else fx(q["nominal"])
        ctx = dict(model=m["name"], units=q["units"], nominal=nominal, design=fx(q["design"]), oat=oat, inlet=inlet, outlet=outlet, region=a["region"])
        want = expected(m, q, a)
        kw = dict(num_units=q["units"], design_inlet_temp_f=fx(q["design"]), nominal_capacity_kbtuh=nominal)
        pm = PerformanceMap.from_model_name(m["name"], **kw)
        cap, power = pm.get_capacity_kbtuh(oat, outlet, inlet), pm.get_power_in_kw(oat, outlet, inlet)
        require("finite-and-positive", all(map(math.isfinite, (cap, power))) and cap > 0 and power > 0, got=(cap, power), **ctx)
        got = (cap / KW / q["units"], power / q["units"])
        require("capacity-and-power", any(close(got[0], w[0]) and close(got[1], w[1]) for w in want), got=got, want=want, **ctx)
        expect("cop", pm.get_cop(oat, outlet, inlet), got[0] / got[1], rel=1e-9, **ctx)
        edge = m["oats"][0] / 10 if m["kind"] == "lab" else m["brackets"][0]["t"]
        require("operating-bounds", bool(pm.is_within_operating_bounds(oat)) == (oat >= edge), **ctx)
        if a["region"] == 1:
            expect("resistance-unit-efficiency", power * KW, cap, rel=1e-9, **ctx)
        n[("in_map", "cold", "hot", "lab")[a["region"]]] += 1
        if k % 3 == 0:
            wh = WaterHeater.from_model_name(m["name"], ["normal"] * 24, {}, **kw)
            require("heater-as-its-map", (wh.get_capacity_kbtuh(oat, outlet, inlet), wh.get_power_in_kw(oat, outlet, inlet)) == (cap, power), **ctx)
            require("idle-heater", wh.get_output_kbtuh(oat, outlet, inlet) == 0, **ctx)
            wh.turn_on()
            require("running-heater", wh.get_output_kbtuh(oat, outlet, inlet) == cap, **ctx)
        if q["units"] == 1 and nominal is None and k % 2:
            # what is not said: one unit, an inlet of 50 degrees
            plain = PerformanceMap.from_model_name(m["name"])
            heater = WaterHeater.from_model_name(m["name"], ["normal"] * 24, {})
            at = dict(design_inlet_temp_f=50.0, num_units=1, nominal_capacity_kbtuh=None)
            full = PerformanceMap.from_model_name(m["name"], **at)
            for x in (None, inlet):
                y = (full.get_capacity_kbtuh(oat, outlet, x), full.get_power_in_kw(oat, outlet, x))
                for o in (plain, heater):
                    require("defaults", (o.get_capacity_kbtuh(oat, outlet, x), o.get_power_in_kw(oat, outlet, x)) == y, inlet_asked=x, **ctx)
        if nominal is None:
            one = PerformanceMap.from_model_name(m["name"], design_inlet_temp_f=fx(q["design"]))
            expect("capacity-scales-with-units", cap, q["units"] * one.get_capacity_kbtuh(oat, outlet, inlet), rel=1e-9, **ctx)
            expect("power-scales-with-units", power, q["units"] * one.get_power_in_kw(oat, outlet, inlet), rel=1e-9, **ctx)
        if inlet is not None and nominal is None and (m["kind"] == "lab" or a["region"] != 1):
            derate = (k % 5) / 10
            for as_kw in (True, False):
                c = get_hpwh_output_capacity(m["name"], oat, inlet, outlet, num_heaters=q["units"], return_as_kw=as_kw, defrost_derate=derate)
                expect("quoted-capacity", c, cap * (1 - derate) / (KW if as_kw else 1), rel=2e-6, as_kw=as_kw, derate=derate, **ctx)
        history.append((pm, (oat, outlet, inlet), (cap, power), ctx))
    for pm, x, y, ctx in history[::-1]:
        require("same-answer-later", (pm.get_capacity_kbtuh(*x), pm.get_power_in_kw(*x)) == y, **ctx)
    return n


def replay_regression(trace):
    n = {"regression": 0}
    for st in trace:
        q, a = st["q"], st["a"]
        m = REGS[q["m"]]
        oat, outlet = fx(q["oat"]), fx(q["outlet"])
        inlet = None if q["inlet"] == NUL else fx(q["inlet"])
        nominal = None if q["nominal"] == NUL else fx(q["nominal"])
        ctx = dict(model=m["name"], units=q["units"], nominal=nominal, design=fx(q["design"]), oat=oat, inlet=inlet, outlet=outlet)
        r = m["brackets"][0]
        pm = HPWHsimPerformanceMap(model_name=m["name"], perfmap=[dict(T_F=r["t"], inputPower_coeffs=list(r["p"]), COP_coeffs=list(r["c"]))], num_units=q["units"],
                                   is_multipass=m["multi"], nominal_capacity_kbtuh=nominal, design_inlet_temp_f=fx(q["design"]))
        cap, power = pm.get_capacity_kbtuh(oat, outlet, inlet), pm.get_power_in_kw(oat, outlet, inlet)
        got, want = (cap / KW / q["units"], power / q["units"]), (fx(a["out"]), fx(a["inp"]))
        require("regression-values", all(abs(g - w) <= 1e-6 * max(1.0, abs(w)) for g, w in zip(got, want)), got=got, want=want, **ctx)
        if want[1] > 0.01:
            expect("regression-cop", pm.get_cop(oat, outlet, inlet), got[0] / got[1], rel=1e-9, **ctx)
        elif want[1] < -0.01:
            require("no-cop-without-power", pm.get_cop(oat, outlet, inlet) is None, **ctx)
        n["regression"] += 1
    return n


def fixed_rules():
    # a nominal heater gives its capacity everywhere
    for cap, oat, out, inl in product((0.5, 36.0, 1234.5), (-40.0, 5.0, 60.0, 130.0), (100.0, 180.0), (None, 35.0, 120.0)):
        for o in (NominalPerformanceMap(cap), WaterHeater.from_nominal_capacity(cap, ["normal"] * 24, {})):
            require("nominal-capacity", o.get_capacity_kbtuh(oat, out, inl) == cap, cap=cap, oat=oat, outlet=out, inlet=inl)
            require("nominal-power-unknown", o.get_power_in_kw(oat, out, inl) is None, cap=cap)
    # the catalogue lists exactly the models asked for
    for mp_, res, sgip, ex in product((True, False), (True, False), (True, False), (None, [MODELS[3]["name"], MODELS[60]["name"]])):
        want = [[m["name"], m["label"]] for m in MODELS if m["multi"] == mp_ and (res or m["commercial"]) and (m["sgip"] or not sgip) and m["name"] not in (ex or [])]
        got = get_list_of_models(multi_pass=mp_, include_residential=res, exclude_models=ex, sgip_models_only=sgip)
        require("catalogue", sorted(map(list, got)) == sorted(want), multi_pass=mp_, include_residential=res, sgip=sgip, got=len(got), want=len(want))
    for f in (lambda: PerformanceMap.from_model_name("MODELS_NoSuch_C_SP"), lambda: get_hpwh_output_capacity("MODELS_NoSuch_C_SP", 50.0, 50.0, 140.0),
              lambda: get_hpwh_output_capacity(MODELS[0]["name"], 50.0, 50.0, 140.0, num_heaters=0), lambda: get_hpwh_output_capacity(MODELS[0]["name"], 50.0, 50.0, 140.0, defrost_derate=1.2),
              lambda: get_hpwh_output_capacity(MODELS[0]["name"], 50.0, 50.0, 140.0, defrost_derate=-0.2)):
        try:
            f()
        except ValueError:
            continue
        raise Mismatch("unknown-or-impossible-rejected", {})
    return {"rules": 1}


def body(ck):
    order = list(range(len(MODELS)))
    chunks = [order[i::NCPU] for i in range(NCPU)]
    jobs = []
    for k, c in enumerate([[MODELS[i] for i in c] for c in chunks] + [REGS]):
        d = os.path.join(ck.scratch, f"perf{k}")
        os.makedirs(d)
        for f in ("fixed.qnt", "perf.qnt"):
            shutil.copy(os.path.join(SPEC, f), d)
        with open(os.path.join(d, "chunk.qnt"), "w") as fh:
            fh.write('module perfChunk {\n  import perfMachine(MODELS = [\n    ' + ",\n    ".join(quint_model(m) for m in c) + '\n  ]).* from "./perf"\n}\n')
        jobs.append((k, c, os.path.join(d, "chunk.qnt")))

    def gen(j):
        k, c, path = j
        return ck.generate(path, "perfChunk", ck.n(24, 300), 30, procs=1, label=f"perfChunk{k}")
    with ThreadPoolExecutor(NCPU) as ex:
        made = list(ex.map(gen, jobs))
    items = [(c, t) for c, l in zip(chunks, made) for t in l]
    regs = made[-1]
    ck.replay(replay, items, "performance")
    ck.replay(replay_regression, regs, "regressions")
    ck.direct(fixed_rules, "rules")


main("C18", body)
