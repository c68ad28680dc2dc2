"""Builds the real multi-pass return-to-primary system of an `mprtp` behaviour and compares its run."""
from plantlib import *
from ecoengine.objects.components.storage.SlugOverlayTank import SlugOverlayTank
from ecoengine.objects.dhwsystems.rtp_systems.MultiPassRTPSystem import MultiPassRTPSystem

MP_TIE = 0.004     # degrees: decisions closer than this excuse the rest of a run
MP_TOL = 0.006


def mp_building(c):
    oat, inlet = weather(c["loc"])
    return Building(ClimateZone(None, oat, inlet), fx(c["daily"]), fx(c["shape"]), fx(c["shape"]))


def mp_system(c):
    tank = SlugOverlayTank(fx(c["vol"]), 50.0, fx(c["storage"]), fx(c["supply"]),
                           percent_useable=1.0 - fx(c["coldPct"]) / 100.0, strat_slope=fx(c["slope"]))
    return MultiPassRTPSystem(make_heaters(c), tank, fx(c["supply"]), fx(c["storage"]), fx(c["ret"]), fx(c["gpm"]))


def mp_compare(c, run, rows):
    vol, cp = fx(c["vol"]), fx(c["coldPct"])
    n = len(run.dhw_demand_supplyT_gal)
    worst = 0.0
    for i, r in enumerate(rows):
        if r["margin"] < MP_TIE * SCALE:
            return i, False, worst
        require("one-record-per-step", i < n, recorded=n, want_at_least=i + 1)
        ctx = dict(step=i, interval=c["interval"], slug=r["act"])
        expect("record-demand", run.dhw_demand_supplyT_gal[i], fx(r["demand"]), **ctx)
        expect("record-oat", run.oat_f[i], fx(r["oat"]), **ctx)
        expect("record-inlet", run.inlet_water_temp_f[i], fx(r["inlet"]), **ctx)
        require("record-mode", run.heater_mode[i] == r["mode"], got=run.heater_mode[i], want=r["mode"], **ctx)
        expect("record-output", run.heater_output_kbtuh[i], fx(r["out"]), rel=1e-6, abs_=1e-5, **ctx)
        expect("record-power", run.heater_power_in_kw[i] or 0.0, fx(r["kw"]), rel=1e-6, abs_=1e-5, **ctx)
        for k, h in enumerate((0, 20, 40, 60, 80, 100)):
            if abs(h - cp) < 0.02 or (r["act"] and abs(h - fx(r["mix"])) < 0.2):
                continue
            worst = max(worst, abs(run.tank_temps_f[k][i] - fx(r["temps"][k])))
            expect("record-tank", run.tank_temps_f[k][i], fx(r["temps"][k]), rel=0, abs_=MP_TOL, height=h, **ctx)
        u = run.usable_volume_supplyT_gal[i]
        expect("record-usable", u, fx(r["usable"]), rel=0, abs_=vol * 1e-3, **ctx)
        if r["usable"] <= 0:
            require("empty-is-zero", u <= 0.0, got=u, **ctx)
        elif r["usable"] > vol * SCALE * 1e-3:
            require("not-empty-is-positive", u > 0.0, got=u, **ctx)
        elif u <= 0.0:
            return i, False, worst
    return len(rows), True, worst
