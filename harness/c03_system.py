"""Heaters inside whole systems: on/off state of every heater after every step."""
from plantlib import *


def replay(trace):
    c = trace[0]["cfg"]
    rows = rows_of(trace)
    sysm, b = make_system(c), make_building(c)
    states = []
    inner = sysm.simulate_step

    def spy(*a, **k):
        before = len(states)
        step = inner(*a, **k)
        tm = getattr(sysm, "tm_water_heater", None)
        states.append(([bool(w.is_active()) for w in sysm.water_heaters], bool(tm.is_active()) if tm else False,
                       step["heater_output_kbtuh"]))
        if len(states) >= len(rows):
            raise StopIteration
        return step
    sysm.simulate_step = spy
    try:
        run_real(c, sysm, b)
    except StopIteration:
        pass
    n = 0
    switches = 0
    for i, r in enumerate(rows):
        if 0 < r["margin"] < TIE * SCALE:
            break
        if i >= len(states):
            break
        on, tm, out = states[i]
        ctx = dict(step=i, kind=c["kind"], hour=(i * c["interval"] // 60) % 24, mode=r["mode"])
        require("heater-states-in-system", on == r["on"], got=on, want=r["on"], **ctx)
        if c["kind"] in ("parallel", "swing"):
            require("loop-heater-state-in-system", tm == r["tmIsOn"], got=tm, want=r["tmIsOn"], **ctx)
        expect("system-output", out, fx(r["out"]), abs_=1e-5, **ctx)
        n += 1
        switches += int(i > 0 and r["on"] != rows[i - 1]["on"])
    return {"system_steps": n, "switches": switches}


def body(ck):
    tr = ck.generate("plant.qnt", "plant3", ck.n(32, 320), 40, label="c03plant")
    ck.replay(replay, tr, "heaters in a system")
