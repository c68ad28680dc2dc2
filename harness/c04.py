from vlib import *
from ecoengine.objects.components.storage.StratifiedTank import StratifiedTank

FRACS = [0, 50, 100, 200, 250, 300, 400, 500, 600, 700, 750, 800, 900, 950, 1000]
AVGS = [10, 100, 350, 800, 1000, 1300]


def replay(trace):
    tank = None
    draws = full = 0
    for i, s in enumerate(trace):
        op, a = s["ev"]["op"], s["ev"]["a"]
        if op == "init":
            if tank is None:
                slope = a[1] / SCALE
                tank = StratifiedTank(a[0] / SCALE, **({} if slope == 2.8 else dict(strat_slope=slope)))
            tank.initialize(storage_temp_f=a[2] / SCALE, cold_temp_f=a[3] / SCALE, percent_useable=a[4] / SCALE)
        elif op == "draw":
            tank.draw(a[0] / SCALE, a[1] / SCALE, a[2] / SCALE, a[3] / SCALE)
            draws += 1
        elif op == "heat":
            tank.heat(a[0] / SCALE, a[1], a[2] / SCALE)
        elif op == "recirc":
            kw = {} if a[3] < 0 else dict(supply_temp_f=a[3] / SCALE)
            tank.add_recirc_return(a[0] / SCALE, a[1] / SCALE, a[2], **kw)
        elif op == "phys":
            kw = {} if a[2] < 0 else dict(supply_temp_f=a[2] / SCALE)
            tank.draw_physical_gal(a[0] / SCALE, a[1] / SCALE, **kw)
        vol = trace[0]["tank"]["vol"] / SCALE
        sup = s["supply"] / SCALE
        temps = [tank.get_temperature_at_fraction(f / 1000) for f in FRACS]
        ctx = dict(step=i, op=op, args=[x / SCALE for x in a])
        tol_t = 1e-4
        expect("temperature-profile", temps, fx(s["obs"]["temps"]), abs_=tol_t, **ctx)
        if s["tank"]["inlet"] < s["supply"] <= s["tank"]["outlet"]:
            expect("usable-volume", tank.get_usable_volume_supplyT_gal(sup), s["obs"]["usable"] / SCALE, abs_=1e-4 + 1e-7 * vol, **ctx)
        avg = [tank.get_average_draw_temp_f(f / 1000 * vol) for f in AVGS]
        expect("average-draw-temperature", avg, fx(s["obs"]["avg"]), abs_=tol_t, **ctx)
        # heating a tank that was hot already: hot right down to the sensor at its bottom, so that its heater turns off
        was, now = trace[i - 1]["tank"], s["tank"]
        if i and op == "heat" and a[0] > 0 and was["base"] == was["outlet"] == now["base"] == now["outlet"] > now["inlet"]:
            require("fully-hot-at-the-bottom", temps[0] >= now["outlet"] / SCALE, got=repr(temps[0]), want=now["outlet"] / SCALE, **ctx)
            full += 1
        require("monotone", all(x <= y + 1e-9 for x, y in zip(temps, temps[1:])), temps=temps, **ctx)
    return dict(ops=len(trace) - 1, draws=draws, full=full)


def body(ck):
    tr = ck.generate("strat.qnt", "stratMachine", ck.n(1600, 20000), ck.n(30, 60),
                     ["monotone", "bounded", "usableIsProfile", "avgDecreases", "heatWarms", "heatCapped",
                      "drawCools", "drawBalance", "heatBalance"])
    ck.replay(replay, tr, "stratified-tank history")


if __name__ == "__main__":
    main("C04", body)
