from vlib import *
from ecoengine.objects.components.storage.MixedStorageTank import MixedStorageTank


def replay(trace):
    tank = None
    for i, s in enumerate(trace):
        op, a = s["ev"]["op"], s["ev"]["a"]
        f = [x / SCALE for x in a]
        if op == "init":
            if tank is None:
                tank = MixedStorageTank(f[0])
            tank.initialize(storage_temp_f=f[1], cold_temp_f=f[2], percent_useable=0.7)
        elif op == "heat":
            tank.heat(f[0], a[1], f[2])
        elif op == "loss":
            tank.apply_fixed_heat_loss_kbtuh(f[0], a[1])
        elif op == "inflow":
            tank.mix_primary_inflow(f[0], f[1])
        elif op == "phys":
            tank.draw_physical_gal(f[0], f[1])
        elif op == "draw":
            tank.draw(f[0], f[1], f[2], f[2] + 20)
        elif op == "recirc":
            tank.add_recirc_return(f[0], f[1], a[2])
        ctx = dict(step=i, op=op, args=f, before=trace[max(0, i - 1)]["tank"]["temp"] / SCALE)
        want = s["tank"]["temp"] / SCALE
        for h in (0.0, 0.37, 1.0):
            expect("energy-balance", tank.get_temperature_at_fraction(h), want, abs_=1e-6, rel=1e-8, height=h, **ctx)
        expect("draw-temperature", tank.get_average_draw_temp_f(7.0), want, abs_=1e-6, rel=1e-8, **ctx)
        probe = s["probe"] / SCALE
        if abs(probe - want) < 1e-6:          # read exactly at the tank's own temperature
            probe = tank.get_temperature_at_fraction(0.5)
        expect("usable-volume", tank.get_usable_volume_supplyT_gal(probe), s["usable"] / SCALE, **ctx)
    return dict(ops=len(trace) - 1)


def body(ck):
    inv = ["heatAdds", "lossTakes", "inflowMixes", "drawDelivers", "between", "neverBelowCold"]
    tr = ck.generate("mixed.qnt", "mixedMachine", ck.n(2400, 24000), ck.n(40, 80), inv)
    ck.replay(replay, tr, "mixed-tank history")


if __name__ == "__main__":
    main("C05", body)
