from vlib import *
from ecoengine.objects.components.storage.EnergyTank import EnergyTank
from ecoengine.objects.components.storage.SlugOverlayTank import SlugOverlayTank


def between(clause, got, lo, hi, slack, **ctx):
    if not (isinstance(got, (int, float)) and math.isfinite(got) and lo - slack <= got <= hi + slack):
        raise Mismatch(clause, dict(got=repr(got), allowed=[lo, hi], slack=slack, **ctx))


def read(tank, s, ctx):
    rd, t = s["rd"], s["tank"]
    act = t["act"]
    cp, mix, sup = t["coldPct"] / SCALE, rd["mix"] / SCALE, s["supply"] / SCALE
    vol = t["vol"] / SCALE
    for x, lo, hi in zip(rd["x"], rd["lo"], rd["hi"]):
        h = x / SCALE
        if abs(h - cp) < 0.02 and cp > 0:
            continue
        if act and abs(h - mix) < 0.3:
            continue
        between("temperature-at-height", tank.get_temperature_at_fraction(h / 100.0), lo / SCALE, hi / SCALE,
                0.08 if act else 1e-5, height=h, **ctx)
    g = rd["g"] / SCALE
    between("draw-temperature", tank.get_average_draw_temp_f(g), rd["gLo"] / SCALE, rd["gHi"] / SCALE,
            0.1 if act else 1e-5, gallons=g, **ctx)
    if not (act and abs(t["st"] / SCALE - sup) < 0.02):
        between("usable-volume", tank.get_usable_volume_supplyT_gal(sup), rd["uLo"] / SCALE, rd["uHi"] / SCALE,
                vol * (1e-4 if act else 1e-8), **ctx)
    if s["slugged"]:
        require("cycle-running", bool(tank.is_slug_active()) == act, **ctx)
        if act and t["sv"] > 0:
            expect("slug-temperature", tank.slug_temp_f, t["st"] / SCALE, abs_=0.03, rel=4e-4, **ctx)


def replay(trace):
    s0 = trace[0]
    vol, slope, hot, cold, cp, iu, sup = [x / SCALE for x in s0["ev"]["a"]]
    if s0["slugged"]:
        kw = {} if cp == 0 else dict(percent_useable=1.0 - cp / 100.0)
        if slope != 2.8:
            kw["strat_slope"] = slope
        tank = SlugOverlayTank(vol, cold + 9.0, hot - 11.0, sup, **kw)
    else:
        tank = EnergyTank(vol, cold + 9.0, hot - 11.0, *([] if slope == 2.8 else [slope]))
    # initialising sets the temperatures, whatever the tank was made with
    tank.initialize(storage_temp_f=hot, cold_temp_f=cold, percent_useable=iu)
    read(tank, s0, dict(step=0, op="init", args=s0["ev"]["a"]))
    n = 0
    for i, s in enumerate(trace[1:], 1):
        op, a = s["ev"]["op"], s["ev"]["a"]
        f = [x / SCALE for x in a]
        if op == "heat":
            tank.heat(f[0], a[1], f[2])
        elif op == "draw":
            tank.draw(f[0], f[1], f[2], hot)
        elif op == "recirc":
            if a[4] == 1:
                tank.add_recirc_return(f[0], f[1], a[2])
            else:
                tank.add_recirc_return(f[0], f[1], a[2], supply_temp_f=f[3])
        elif op == "phys":
            if a[2]:
                tank.draw_physical_gal(f[0], f[1])
            else:
                tank.draw_physical_gal(f[0], f[1], update_internal_cold_temp=False)
        elif op == "add":
            tank.add_energy_btu(f[0])
        elif op == "reinit":
            tank.initialize(storage_temp_f=f[0], cold_temp_f=f[1], percent_useable=f[2])
            hot = f[0]
        elif op == "on":
            tank.activate_slug(f[0])
        elif op == "off":
            if s["slugged"]:
                tank.deactivate_slug()
        elif op == "heatslug":
            tank.heat_slug(f[0], a[1])
        elif op == "grow":
            tank.add_to_slug(f[0], f[1])
        n += 1
        # near the limit of what the specification tracks sharply: stop comparing this history
        if s["tank"]["act"] and s["tank"]["sv"] < s["tank"]["vol"] // 2000 and s["tank"]["sv"] > 0:
            break
        read(tank, s, dict(step=i, op=op, args=f, history=[x["ev"]["op"] for x in trace[:i + 1]][-6:]))
    return dict(ops=n)


def body(ck):
    inv = ["holdsItsHeat", "withinRange", "warmerUp", "cyclesConserve", "slugHeatKept", "slugDrawBalanced", "slugFits"]
    tr = ck.generate("etank.qnt", "etankMachine", ck.n(640, 8000), 40, inv)
    ck.replay(replay, tr, "energy-tank history")


if __name__ == "__main__":
    main("C06", body)
