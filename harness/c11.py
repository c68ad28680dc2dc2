from erlib import *
import mplib
from c15 import mp_size
from enginelib import engine_kw, EcosizerEngine
from ecoengine.interfaces.EcosizerEngine import get_sizing_curve_plot


def same(clause, got, want, rel=1e-9, abs_=1e-9, **ctx):
    expect(clause, got, want, rel=rel, abs_=abs_, **ctx)


def plain(c, h):
    """The system of `c` without load shifting, sized for h run hours."""
    over = dict(max_daily_run_hr=h)
    if any(m == "shed" for m in c["sched"]):
        over.update(control_schedule=["normal"] * 24, control_map={"normal": cmap(c)["normal"]})
    return size_real(c, **over)


def check_figure(fig, x, y, mark, **ctx):
    require("plotted-points", list(fig.data[0].x) == list(x) and list(fig.data[0].y) == list(y), got=[list(fig.data[0].x)[:3], list(fig.data[0].y)[:3]], **ctx)
    if not x:
        return
    shown = [i for i in range(1, len(fig.data)) if fig.data[i].visible]
    require("plotted-mark", shown == [mark + 1] and fig.layout.sliders[0].active == mark, shown=shown, mark=mark, **ctx)
    for i in range(len(x)):
        require("plotted-slider-point", fig.data[i + 1].x[0] == x[i] and fig.data[i + 1].y[0] == y[i], i=i, **ctx)
        vis = list(fig.layout.sliders[0].steps[i].args[0]["visible"])
        require("plotted-slider-step", vis == [True] + [j == i for j in range(len(x))], i=i, **ctx)


def segments(trace):
    """The last state of each walk in the behaviour."""
    out = []
    for a, b in zip(trace, trace[1:] + [None]):
        if a["phase"] and (b is None or b["phase"] == 0):
            out.append(a)
    return out


def walk_hours(st):
    c, r = st["c"], st["r"]
    if not r["ok"]:
        return {"unsized": 1}
    ctx = dict(kind=c["kind"], runHr=fx(c["runHr"]), step=fx(st["stepH"]), peak=max(c["peak"]) / SCALE)
    swing = c["kind"] == "swing"
    if swing and r["margin"] < NEAR_TIE:
        return {"near_ties": 1}
    b = building(c)
    s = size_real(c, b)
    own = (s.get_minimum_capacity_kbtuh(), s.get_minimum_storage_storageT_gal())
    step = fx(st["stepH"])
    curve = s.get_sizing_curve(b, step=step)
    hs, cap, sto, mark = curve["heat_hours"], curve["capacity_kbtuh"], curve["storage_storageT_gal"], curve["recommended_index"]
    require("curve-lengths", len(hs) == len(cap) == len(sto), **ctx)
    want = [fx(h) for h in st["hours"]]
    pk = max(fx(x) for x in c["peak"])
    # a last point within rounding of the physical limit may be on either side
    edge = any(abs(h * pk - 1) < 1e-9 or abs(h * pk - 1.001) < 1e-9 for h in want + [want[-1] - step if want else 0])
    if not swing:
        require("curve-extent", len(hs) == len(want) or (edge and abs(len(hs) - len(want)) <= 1), got=len(hs), want=len(want), **ctx)
    else:
        require("curve-extent", len(hs) <= len(want), got=len(hs), want=len(want), **ctx)
    for a, x in zip(hs, want):
        same("curve-run-hours", a, x, abs_=1e-9, **ctx)
    # where it stops the building cannot be served, or needs no storage
    if len(hs) < len(want) and not edge:
        try:
            z = plain(c, want[len(hs)])
            require("stops-where-unservable", z.get_minimum_storage_storageT_gal() == 0, hours=want[len(hs)], **ctx)
        except (ValueError, RuntimeError):
            pass
    # sampled by the specification
    at = {p["i"]: p for p in st["pts"]}
    n = 0
    for i, p in at.items():
        if i >= len(hs) or (swing and p["margin"] < NEAR_TIE):
            continue
        require("point-servable", p["ok"], hours=hs[i], **ctx)
        same("point-capacity", cap[i], fx(p["cap"]), rel=1e-8, abs_=1e-7, hours=hs[i], **ctx)
        same("point-storage", sto[i], fx(p["sto"]), rel=1e-8, abs_=1e-7, hours=hs[i], **ctx)
        n += 1
    # every point against a fresh sizing with its run hours
    for i in range(0, len(hs), 1 if not swing else 7):
        z = plain(c, hs[i])
        same("point-as-sized-capacity", cap[i], z.get_minimum_capacity_kbtuh(), hours=hs[i], **ctx)
        same("point-as-sized-storage", sto[i], z.get_minimum_storage_storageT_gal(), hours=hs[i], **ctx)
    if not swing:
        require("shorter-run-more-capacity", all(a < x for a, x in zip(cap, cap[1:])), **ctx)
        require("shorter-run-no-more-storage", all(a >= x - 1e-6 for a, x in zip(sto, sto[1:])), **ctx)
    if hs:
        require("mark-is-a-point", 0 <= mark < len(hs), mark=mark, **ctx)
        if st["rec"] < len(hs):
            require("marked-run-hours", mark == st["rec"], mark=mark, want=st["rec"], **ctx)
            if not any(m == "shed" for m in c["sched"]):
                same("marked-is-own-capacity", cap[mark], own[0], **ctx)
                same("marked-is-own-storage", sto[mark], own[1], **ctx)
    if step == 0.25:
        if hs:
            check_figure(s.plot_sizing_curve(b), sto[::-1], cap[::-1], len(hs) - 1 - mark, **ctx)
    else:
        again = s.get_sizing_curve(b, step=step)
        require("curve-repeatable", again == curve, **ctx)
    require("run-hours-kept", s.max_daily_run_hr == fx(c["runHr"]), **ctx)
    return {"curves": 1, "curve_points": len(hs), "spec_points": n, c["kind"]: 1}


def walk_cover(st):
    c, r = st["c"], st["r"]
    if not r["ok"]:
        return {"unsized": 1}
    swing = c["kind"] == "swing"
    if swing and r["margin"] < NEAR_TIE:
        return {"near_ties": 1}
    ctx = dict(kind=c["kind"], runHr=fx(c["runHr"]), pct=st["pct"], sched=c["sched"])
    b = building(c)
    s = size_real(c, b)
    own = (s.get_minimum_capacity_kbtuh(), s.get_minimum_storage_storageT_gal())
    kw = dict(control_schedule=csched(c), control_map=cmap(c), load_shift_percent=st["pct"] / 100.0)
    curve = s.get_ls_sizing_curve(b, **kw)
    pcs, cap, sto, mark = curve["load_shift_percent"], curve["capacity_kbtuh"], curve["storage_storageT_gal"], curve["recommended_index"]
    require("cover-lengths", len(pcs) == len(cap) == len(sto) == 76, got=len(pcs), **ctx)
    for i, x in enumerate(pcs):
        same("cover-percent", x, (25 + i) / 100.0, i=i, **ctx)
    n = 0
    for p in st["pts"]:
        i = p["i"]
        if swing and p["margin"] < NEAR_TIE:
            continue
        same("cover-capacity", cap[i], fx(p["cap"]), rel=1e-8, abs_=1e-7, at=pcs[i], **ctx)
        same("cover-storage", sto[i], fx(p["sto"]), rel=1e-8, abs_=1e-7, at=pcs[i], **ctx)
        z = size_real(c, load_shift_fract_total_vol=fx(FRACT[i]))
        same("cover-as-sized-capacity", cap[i], z.get_minimum_capacity_kbtuh(), rel=1e-8, abs_=1e-7, at=pcs[i], **ctx)
        same("cover-as-sized-storage", sto[i], z.get_minimum_storage_storageT_gal(), rel=1e-8, abs_=1e-7, at=pcs[i], **ctx)
        n += 1
    require("marked-coverage", mark == st["rec"], mark=mark, want=st["rec"], **ctx)
    same("marked-is-own-capacity", cap[mark], own[0], rel=1e-8, **ctx)
    same("marked-is-own-storage", sto[mark], own[1], rel=1e-8, **ctx)
    if not swing:
        for i in range(1, 76):
            require("more-coverage-no-less-capacity", cap[i] >= cap[i - 1] - 1e-6, i=i, **ctx)
            require("more-coverage-no-less-storage", cap[i] > cap[i - 1] + 1e-6 or sto[i] >= sto[i - 1] - 1e-6, i=i, **ctx)
    fig = s.plot_sizing_curve(b, **kw)
    check_figure(fig, [p * 100.0 for p in pcs], sto, mark, **ctx)
    require("run-hours-kept", s.max_daily_run_hr == fx(c["runHr"]), **ctx)
    try:
        s.get_ls_sizing_curve(b, control_schedule=["normal"] * 24, control_map={"normal": cmap(c)["normal"]})
    except ValueError:
        pass
    else:
        raise Mismatch("no-coverage-curve-without-shed", ctx)
    return {"cover_curves": 1, "spec_points": n, c["kind"]: 1}


FRACT = []


def each(fn, trace):
    out = {}
    for st in segments(trace):
        for k, v in fn(st).items():
            out[k] = out.get(k, 0) + v
    return out


def hour_walks(trace):
    return each(walk_hours, trace)


def cover_walks(trace):
    return each(walk_cover, trace)


def mp_curve(trace):
    """A multi-pass system two steps above the behaviour's run hours: its curve passes through them."""
    st = trace[1]                       # after one trial run
    c, s = st["c"], st["s"]
    if s["sto"] <= 0 or s["margin"] < 5e-4 * SCALE:
        return {"near_ties": 1}
    top = dict(c, runHr=c["runHr"] + SCALE)
    b = building(c)
    sysm = mp_size(top, st["coldPct"], b, capacity_boost_trial_days=2, capacity_boost_iterations=1)
    curve = sysm.get_sizing_curve(b)
    hs, cap, sto, mark = curve["heat_hours"], curve["capacity_kbtuh"], curve["storage_storageT_gal"], curve["recommended_index"]
    own = (sysm.get_minimum_capacity_kbtuh(), sysm.get_minimum_storage_storageT_gal())
    ctx = dict(runHr=fx(c["runHr"]) + 1, hours=hs)
    if not hs:
        # heaters that keep up with the peak hour have no curve
        require("mp-empty-only-without-need", own[1] == 0 or fx(c["runHr"]) + 1 <= 1.0011 / max(fx(x) for x in c["peak"]), **ctx)
        return {"mp_empty": 1}
    same("mp-marked-is-own-capacity", cap[mark], own[0], **ctx)
    same("mp-marked-is-own-storage", sto[mark], own[1], **ctx)
    require("mp-hours-decrease", all(a > x for a, x in zip(hs, hs[1:])), **ctx)
    require("mp-shorter-run-more-capacity", all(a < x for a, x in zip(cap, cap[1:])), **ctx)
    day = (fx(c["daily"]) * 8.353535 * (fx(c["supply"]) - fx(c["inlet"])) + 24 * 60 * fx(c["gpm"]) * 8.353535 * (fx(c["supply"]) - fx(c["ret"]))) / 1000
    for h, k in zip(hs, cap):
        require("mp-hours-make-the-day", abs(day / (k * fx(c["defrost"])) - h) <= 0.05 + 1e-9, h=h, cap=k, **ctx)
    pk = max(fx(x) for x in c["peak"])
    h, seen, sized = fx(c["runHr"]) + 1, set(), []
    while h > 1.001 / pk and (h >= 9 or not sized):
        try:
            z = sysm if not sized else mp_size(dict(c, runHr=int(round(h * SCALE))), st["coldPct"], capacity_boost_trial_days=2, capacity_boost_iterations=1)
        except (ValueError, RuntimeError, ZeroDivisionError):
            break
        if z.get_minimum_storage_storageT_gal() == 0:
            break
        sized.append((z.get_minimum_capacity_kbtuh(), z.get_minimum_storage_storageT_gal()))
        h -= 0.5
    # every point is one of the sizes, and every size that is a new run-hour tenth is a point
    for k, v in zip(cap, sto):
        require("mp-point-as-sized", any(near(k, a, 1e-9, 1e-9) and near(v, x, 1e-9, 1e-9) for a, x in sized), cap=k, sto=v, **ctx)
    kept = []
    for a, x in sized:
        bh = round(day / (a * fx(c["defrost"])), 1)
        if all(bh < y for y in kept):
            kept.append(bh)
    require("mp-all-points", len(kept) == len(hs) or any(abs(abs(10 * day / (a * fx(c["defrost"])) % 1) - 0.5) < 1e-6 for a, _ in sized), want=kept, **ctx)
    n = 0
    # the specification's size for the behaviour's own run hours is on the curve
    if st["days"] == 2 and fx(c["runHr"]) >= 9:
        hit = [a for a, x in sized if near(a, fx(s["cap"]), 2e-4 if s["tries"] else 1e-6, 1e-6) and near(x, fx(s["sto"]), 1e-6, 1e-6)]
        require("mp-point-by-specification", hit, cap=fx(s["cap"]), sto=fx(s["sto"]), sized=sized, **ctx)
        n = 1
    fig = sysm.plot_sizing_curve(b)
    check_figure(fig, sto[::-1], cap[::-1], len(hs) - 1 - mark, **ctx)
    return {"mp_curves": 1, "mp_points": len(hs), "mp_spec_points": n}


def engine_curve(trace):
    """The engine's plotted curve shows the engine's own size at its mark."""
    n = 0
    for st in trace[:2]:
        e, r = st["e"], st["res"]
        z, c = r["size"], r["cfg"]
        if r["miss"] or r["impossible"] or not z["ok"] or (c["kind"] == "swing" and z["margin"] < NEAR_TIE):
            continue
        shed = "shed" in c["sched"]
        pk = max(fx(x) for x in c["peak"])
        if not shed and fx(c["runHr"]) * pk <= 1.002:
            continue                                             # needs no storage: no curve point is its own
        eng = EcosizerEngine(**engine_kw(e))
        ctx = dict(schematic=e["schematic"], shed=shed, runHr=fx(c["runHr"]))
        fig, x, y, mark = eng.plot_sizing_curve(return_with_x_y_points=True)
        check_figure(fig, x, y, mark, **ctx)
        if shed:
            same("engine-marked-coverage", x[mark], e["pct"][0] if e["pct"] else 95, **ctx)
            same("engine-marked-storage", y[mark], fx(z["sto"]), rel=1e-8, abs_=1e-7, **ctx)
        else:
            same("engine-marked-storage", x[mark], fx(z["sto"]), rel=1e-8, abs_=1e-7, **ctx)
            same("engine-marked-capacity", y[mark], fx(z["cap"]), rel=1e-8, abs_=1e-7, **ctx)
            if c["kind"] != "swing":
                require("engine-storage-ascending", all(a <= b + 1e-9 for a, b in zip(x, x[1:])), **ctx)
                require("engine-capacity-descending", all(a > b for a, b in zip(y, y[1:])), **ctx)
        g = get_sizing_curve_plot(x, y, mark, load_shifting=shed)
        require("standalone-plot", list(g.data[0].x) == list(x) and list(g.data[0].y) == list(y) and
                list(g.data[1].x) == [x[mark]] and list(g.data[1].y) == [y[mark]], **ctx)
        n += 1
    return {"engine_curves": n}


def body(ck):
    tr = ck.generate("curve.qnt", "curveHours3", ck.n(120, 1600), 12)
    ck.replay(hour_walks, tr, "run-hour curve")
    tr = ck.generate("curve.qnt", "curveCover", ck.n(80, 1200), 12)
    ck.replay(cover_walks, tr, "coverage curve")
    tr = ck.generate("curve.qnt", "curveSwing", ck.n(16, 240), ck.n(7, 12))
    ck.replay(hour_walks, tr, "swing run-hour curve")
    tr = ck.generate("curve.qnt", "curveCoverSwing", ck.n(16, 160), ck.n(6, 12))
    ck.replay(cover_walks, tr, "swing coverage curve")
    tr = ck.generate("engine.qnt", "engineAll", ck.n(32, 480), 2)
    ck.replay(engine_curve, tr, "engine curve")
    tr = ck.generate("mprtp.qnt", "mpboost", ck.n(16, 160), 1)
    ck.replay(mp_curve, tr, "multi-pass curve")
    tr = ck.generate("er.qnt", "erPoints", ck.n(8, 160), 14)
    ck.replay(replay_points, tr, "element curve")


import re
FRACT[:] = [int(x) for x in re.findall(r"\d{12,13}", " ".join(l for l in open(SPEC + "/lsdata.qnt") if "FRACT_" in l and "[" in l))]
assert len(FRACT) == 76
if __name__ == "__main__":
    main("C11", body)
