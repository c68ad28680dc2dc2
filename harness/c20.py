from sizedlib import *


def replay(trace):
    st = trace[-1]
    c, z = st["sc"], st["sz"]
    if c["kind"] == "none" or not z["ok"]:
        return {"unsized": 1}
    if c["kind"] == "swing" and z["margin"] < NEAR_TIE:
        return {"near_ties": 1}
    over = dict(num_tm_heaters=st["num"]) if c["kind"] == "parallel" else {}
    b = building(c)
    s = size_real(c, b, **over)
    check_primary(c, z, s)
    if st["phase"] != 1:
        return {"too_small": 1}
    cfg, run, n, clean = run_sized(trace, s, b)
    last = st["run_"][0]
    ctx = dict(kind=c["kind"], part=list(st["part"]), run_hr=fx(c["runHr"]), storage=fx(z["sto"]), capacity=fx(z["cap"]))
    u = run.usable_volume_supplyT_gal
    full = tuple(st["part"]) == (100, 100)
    if full and last["i"] == 4320:
        empty = [i for i in range(1440, len(u)) if u[i] <= 0]
        require("serves-its-design-day", len(u) == 4320 and not empty, first_empty=empty[:1], steps=len(u), **ctx)
        sup = fx(c["supply"])
        if c["kind"] == "swing":
            # the swing tank tempers what it delivers; it may swing a step's loss below the element's on temperature
            low = min(run.tm_tank_temp_f[1440:])
            require("delivers-at-supply", low >= sup - 1.0, low=low, supply=sup, **ctx)
        else:
            low = min(run.tank_temps_f[5][1440:])
            require("delivers-at-supply", low >= sup - 1e-6, low=low, supply=sup, **ctx)
    if not full and clean and last["i"] == 4320:
        require("starved-runs-out", run.outage_minutes > 0 or last["outage"] == 0, got=run.outage_minutes, want=last["outage"], **ctx)
        require("failure-reported", run.is_successful() == (last["outage"] == 0) and
                run.get_summary()["successful"] == (last["outage"] == 0), outage=last["outage"], **ctx)
    return {"runs": 1, "steps": n, "near_ties": int(not clean), "dry_runs": int(last["outage"] > 0), c["kind"]: 1}


def body(ck):
    tr = ck.generate("sized.qnt", "sizedDesign", ck.n(48, 640), 73)
    ck.replay(replay, tr, "sized-serves-design-day")
    tr = ck.generate("sized.qnt", "sizedShort", ck.n(16, 160), 73)
    ck.replay(replay, tr, "undersized-runs-out")


main("C20", body)
