from sizelib import *


def replay(trace):
    n = 0
    for st in trace:
        c, r = st["c"], st["r"]
        s = size_real(c)
        check_primary(c, r, s)
        require("setpoints-kept", s.supply_temp_f == fx(c["supply"]) and s.storage_temp_f == fx(c["storage"]) and
                s.max_daily_run_hr == fx(c["runHr"]), kind=c["kind"])
        n += 1
    return {"sizes": n}


def replay_no_inlet(trace):
    c = trace[0]["c"]
    b = Building(None, fx(c["daily"]), fx(c["peak"]), fx(c["avg"]))
    try:
        s = size_real(c, b)
    except ValueError:
        return {"rejected": 1}
    require("no-size-without-design-inlet", False, got=s.get_minimum_storage_storageT_gal())


def body(ck):
    tr = ck.generate("sizing.qnt", "sizingPrimary", ck.n(160, 1600), 10)
    ck.replay(replay, tr, "primary-size")
    ck.replay(replay_no_inlet, tr[:40], "no-design-inlet")


main("C09", body)
