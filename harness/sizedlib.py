"""Sizes the real system of a `sized` behaviour and runs it on its own design day."""
from sizelib import *
import plantlib
from ecoengine.interfaces import Simulator
from ecoengine.objects.components.storage.StratifiedTank import StratifiedTank
from ecoengine.objects.components.heating.WaterHeater import WaterHeater


def sized_system(st):
    """(spec sizing problem, spec size, real system, building); None if the spec could not size it."""
    c, z = st["sc"], st["sz"]
    over = dict(num_tm_heaters=st["num"]) if c["kind"] == "parallel" else {}
    b = building(c)
    if not z["ok"]:
        try:
            s = size_real(c, b, **over)
        except ValueError:
            return c, z, None, b
        if c["kind"] == "parallel" and abs(3 * fx(c["offTime"]) - fx(c["sf"]) + 1) < 1e-9:
            return c, z, None, b          # exactly on the limit: rounding decides
        raise Mismatch("unservable-is-rejected", dict(kind=c["kind"], sf=fx(c["sf"]), offTime=fx(c["offTime"]), tmOn=fx(c["tmOn"]),
                                                      tmOff=fx(c["tmOff"]), got=s.get_minimum_storage_storageT_gal()))
    return c, z, size_real(c, b, **over), b


def rows_of(trace):
    return [r for s in trace for x in s["run_"] for r in x["recs"]]


def run_sized(trace, sysm, b):
    cfg = trace[-1]["cfg"][0]
    p = trace[-1]["part"]
    if tuple(p) != (100, 100):
        c, z = trace[-1]["sc"], trace[-1]["sz"]
        sysm.storage_tank = StratifiedTank(total_volume_gal=fx(cfg["vol"]), strat_slope=fx(c["slope"]))
        sysm.water_heaters = [WaterHeater.from_nominal_capacity(fx(cfg["heaters"][0]["cap"][0]), list(c["sched"]), cmap(c))]
    run = plantlib.run_real(cfg, sysm, b)
    n, clean = plantlib.compare_rows(cfg, run, rows_of(trace))
    return cfg, run, n, clean
