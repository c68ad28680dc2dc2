from vlib import *
from ecoengine.objects.components.heating.Controls import Controls
from ecoengine.objects.components.heating.WaterHeater import WaterHeater
from ecoengine.objects.components.storage.StorageTank import StorageTank
from ecoengine.objects.components.storage.MixedStorageTank import MixedStorageTank
from ecoengine.objects.components.storage.StratifiedTank import StratifiedTank

HEIGHTS = [0.05, 0.2, 0.5, 0.75, 1.0]


class Thermometer(StorageTank):
    """A tank that only has a temperature profile (given at five sensor heights)."""
    def __init__(self, temps):
        self.total_volume_gal = 100.0
        self.temps = temps

    def get_temperature_at_fraction(self, fract):
        for h, t in zip(HEIGHTS, self.temps):
            if abs(h - fract) < 1e-9:
                return float(t)
        raise Mismatch("reads-its-sensors", dict(read_height=fract, sensors=HEIGHTS))

    def initialize(self, storage_temp_f, cold_temp_f, percent_useable): pass
    def get_usable_volume_supplyT_gal(self, supply_temp_f): return 100.0
    def draw(self, *a, **k): raise Mismatch("control-does-not-draw", {})
    def heat(self, *a, **k): raise Mismatch("control-does-not-heat", {})
    def add_recirc_return(self, *a, **k): raise Mismatch("control-does-not-recirculate", {})
    def get_average_draw_temp_f(self, draw_gal): return float(self.temps[-1])
    def draw_physical_gal(self, *a, **k): raise Mismatch("control-does-not-draw", {})


def tank_for(temps, i):
    if len(set(temps)) == 1 and i % 2 == 0:
        t = MixedStorageTank(120.0)
        t.initialize(storage_temp_f=float(temps[0]), cold_temp_f=50.0, percent_useable=1.0)
        return t
    return Thermometer(temps)


def replay(trace):
    st = trace[0]
    sched = [st["sched"][h] for h in range(24)]
    cmap = {m: Controls(on_sensor_fract=HEIGHTS[c["onH"]], on_trigger_t_f=float(c["onT"]),
                        off_sensor_fract=HEIGHTS[c["offH"]], off_trigger_t_f=float(c["offT"]),
                        outlet_temp_f=float(c["outT"])) for m, c in st["ctl"].items()}
    cap = float(st["cap"])
    wh = WaterHeater.from_nominal_capacity(cap, list(sched), dict(cmap))
    require("starts-off", wh.is_active() is False)
    require("load-shifting-flag", wh.is_load_shifting() == ("loadUp" in cmap or "shed" in cmap), modes=sorted(cmap))
    ups = 0
    for i, s in enumerate(trace[1:], 1):
        e = s["ev"]
        ctx = dict(step=i, op=e["op"], hour=e["hour"], temps=e["temps"], mode=sched[e["hour"]],
                   controls=st["ctl"].get(sched[e["hour"]]), was_on=trace[i - 1]["on"])
        if e["op"] == "on":
            wh.turn_on()
        elif e["op"] == "off":
            wh.turn_off()
        else:
            ups += 1
            raised = None
            try:
                wh.update_state(tank_for(e["temps"], i), e["hour"])
            except Mismatch:
                raise
            except Exception as x:
                raised = x
            require("refuses-hour-without-setpoints", (raised is not None) == s["failed"], error=repr(raised), **ctx)
            if raised is not None:
                require("refuses-with-value-error", isinstance(raised, ValueError), error=repr(raised), **ctx)
        require("on-off-decision", bool(wh.is_active()) == s["on"], got=bool(wh.is_active()), want=s["on"], **ctx)
        m = sched[e["hour"]]
        out = float(st["ctl"][m]["outT"]) if m in st["ctl"] else 140.0
        expect("output-only-when-on", wh.get_output_kbtuh(47.0, out, 50.0), cap if s["on"] else 0.0, **ctx)
        if m in st["ctl"]:
            expect("outlet-of-the-mode", wh.get_outlet_temp_f(e["hour"]), out, **ctx)
            c = wh.get_controls_for_hour(e["hour"])
            expect("setpoints-of-the-mode", [c.on_sensor_fract, c.on_trigger_t_f, c.off_sensor_fract, c.off_trigger_t_f],
                   [HEIGHTS[st["ctl"][m]["onH"]], st["ctl"][m]["onT"], HEIGHTS[st["ctl"][m]["offH"]], st["ctl"][m]["offT"]], **ctx)
        require("schedule-untouched", wh.control_schedule == sched and set(wh.control_map) == set(cmap), **ctx)
    return dict(updates=ups)


def body(ck):
    inv = ["onlyOnWhenCold", "onlyOffWhenHot", "onWhenCold", "offWhenHot", "refused"]
    tr = ck.generate("aquastat.qnt", "aquastatMachine", ck.n(2400, 24000), ck.n(40, 80), inv)
    ck.replay(replay, tr, "aquastat history")
    ck.verify("aquastat.qnt", "aquastatMachine", ["inv"], ck.n(2, 5), timeout=ck.n(240, 800), optional=True)
    import c03_system
    c03_system.body(ck)


if __name__ == "__main__":
    main("C03", body)
