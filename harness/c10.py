from enginelib import *


def plain(c):
    """The same plant without load shifting, in the run hours the shed hours leave."""
    n = sum(1 for m in c["sched"] if m != "shed")
    return dict(c, ctl={"normal": c["ctl"]["normal"]}, sched=[], runHr=min(c["runHr"], n * SCALE))


def replay(trace):
    n = 0
    for st in trace:
        c, r = st["c"], st["r"]
        s = size_real(c)
        check_primary(c, r, s)
        ctx = dict(pct=st["pct"], sched=c["sched"])
        require("run-hours-kept", s.max_daily_run_hr == fx(c["runHr"]), got=s.max_daily_run_hr, **ctx)
        w = s.water_heaters[0]
        require("heaters-follow-schedule", list(w.control_schedule) == c["sched"] and w.control_map is not None and
                set(w.control_map) == set(c["ctl"]), **ctx)
        p = size_real(plain(c))
        expect("base-capacity", p.get_minimum_capacity_kbtuh(), fx(r["baseCap"]), **ctx)
        expect("base-storage", p.get_minimum_storage_storageT_gal(), fx(r["baseSto"]), **ctx)
        require("no-less-than-unshifted", s.get_minimum_capacity_kbtuh() >= p.get_minimum_capacity_kbtuh() * (1 - 1e-9) and
                s.get_minimum_storage_storageT_gal() >= p.get_minimum_storage_storageT_gal() * (1 - 1e-9), **ctx)
        n += 1
    return {"sizes": n}


def replay_cover(item):
    """Capacity never falls with coverage; storage only where capacity rose."""
    c = item
    prev = None
    for pct, f in FRACTS:
        s = size_real(dict(c, fract=f))
        cur = (s.get_minimum_capacity_kbtuh(), s.get_minimum_storage_storageT_gal())
        if prev is not None:
            require("capacity-rises-with-coverage", cur[0] >= prev[0] * (1 - 1e-9), pct=pct, prev=prev, cur=cur)
            require("storage-rises-with-coverage", cur[1] >= prev[1] * (1 - 1e-9) or cur[0] > prev[0] * (1 + 1e-9),
                    pct=pct, prev=prev, cur=cur)
        prev = cur
    return {"coverage_sweeps": 1}


FRACTS = []


def replay_engine(trace):
    n = 0
    for st in trace:
        e, r = st["e"], st["res"]
        if r["miss"]:
            continue
        eng = EcosizerEngine(**engine_kw(e))
        ctx = dict(ls=e["ls"], luHours=e["luHours"])
        check_modes(eng, r["cfg"], **ctx)
        z = eng.get_sizing_results()
        expect("engine-capacity", z["min_capacity_kbtuh"], fx(r["size"]["cap"]), **ctx)
        expect("engine-storage", z["min_storage_storageT_gal"], fx(r["size"]["sto"]), **ctx)
        n += 1
    return {"engines": n}


def body(ck):
    tr = ck.generate("sizing.qnt", "sizingShift", ck.n(160, 1600), 8)
    ck.replay(replay, tr, "load-shift-size")
    by = {}
    for t in tr:
        for st in t:
            by[st["pct"]] = st["c"]["fract"]
    FRACTS[:] = sorted(by.items())
    ck.replay(replay_cover, [t[0]["c"] for t in tr], "coverage-sweep")
    tr = ck.generate("engine.qnt", "engineShift", ck.n(160, 1600), 5)
    ck.replay(replay_engine, tr, "engine-load-shift")


main("C10", body)
