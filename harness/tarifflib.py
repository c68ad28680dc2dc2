"""Builds the tariffs a `tariff` behaviour describes with the real code."""
from vlib import *
import csv
from ecoengine.objects.building.UtilityCostTracker import UtilityCostTracker

NUL = -999999
DAYS = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]
MONTH = [m for m, d in enumerate(DAYS) for _ in range(24 * d)]      # month of each hour
COLS = ["Energy Rate ($/kWh)", "Demand Rate ($/kW)", "Demand Period", "Monthly Base Charge"]


def num(v, bad=None):
    return bad if v == NUL else v / 10000


def hour(v, bad=None):
    return bad if v == NUL else (v // 10 if v % 10 == 0 else v / 10)


def month(v, bad=None):
    return bad if v == NUL else float(v - 1000) if v >= 999 else v


def params(st):
    r = st["r"]
    bad = "n/a" if st["scalar"] else None
    one = (lambda l: l[0] if st["scalar"] and len(l) == 1 else l)
    kw = dict(monthly_base_charge=num(r["base"], bad))
    for k, name, f in (("ps", "pk_start_hour", hour), ("pe", "pk_end_hour", hour), ("pd", "pk_demand_charge", num), ("pn", "pk_energy_charge", num),
                       ("od", "off_pk_demand_charge", num), ("on", "off_pk_energy_charge", num), ("sm", "start_month", month), ("em", "end_month", month)):
        kw[name] = one([f(v, bad) for v in r[k]])
    if r["sm"] == [0] and r["em"] == [12] and st["scalar"]:
        kw.pop("start_month"), kw.pop("end_month")
    n = len(r["ps"])
    if r["disc"] or any(len(r[k]) != n for k in ("ds", "de", "dd", "dn")):
        kw["include_discount"] = r["disc"]
        for k, name, f in (("ds", "dscnt_start_hour", hour), ("de", "dscnt_end_hour", hour), ("dd", "discnt_demand_charge", num), ("dn", "discnt_energy_charge", num)):
            kw[name] = one([f(v) for v in r[k]])
    return kw


def describe(st):
    return UtilityCostTracker.from_params(**params(st))


def check_hours(t, hours, clause, exact=1e-12, **ctx):
    """every hour of the year (first, middle and last minute, several step lengths) has its slot"""
    for h, k in enumerate(hours):
        ts = (1, 10, 60, 5, 30, 15)[h % 6]
        n = 60 // ts
        for step in (h * n, h * n + n // 2, h * n + n - 1):
            p, e = t.get_demand_period_at_step(step, ts), t.get_energy_charge_at_step(step, ts)
            if p != k["label"] or abs(e - k["energy"] / 10000) > exact:
                raise Mismatch(clause, dict(hour=h, month=MONTH[h], step=step, step_min=ts, got=(p, e), want=(k["label"], k["energy"] / 10000), **ctx))
        if h % 24 == 0 or k["label"] != hours[h - 1]["label"]:
            got = t.get_demand_charge_for_period(k["label"], 12.5)
            expect(clause + "-demand", got, 12.5 * k["demand"] / 10000, abs_=1e-9, hour=h, **ctx)
    labels = {k["label"] for k in hours}
    require(clause + "-labels", labels <= set(t.get_all_demand_period_keys()), **ctx)


def write_file(path, f, rows, drop=None, header=None, short=0, base=None):
    cols = header or ["Date", "Demand Period", "Energy Rate ($/kWh)", "Demand Rate ($/kW)", "Monthly Base Charge"]
    with open(path, "w", newline="") as fh:
        w = csv.writer(fh)
        w.writerow([c for c in cols if c != drop])
        for h, r in enumerate(rows[:len(rows) - short]):
            cell = {"Demand Period": "" if r["label"] == NUL else r["label"], "Energy Rate ($/kWh)": "" if r["energy"] == NUL else r["energy"] / 10000,
                    "Demand Rate ($/kW)": "" if r["demand"] == NUL else r["demand"] / 10000,
                    "Monthly Base Charge": (f["base"] / 10000 if base is None else base) if h == 0 else ""}
            w.writerow([cell.get(c, f"h{h}") for c in cols if c != drop])


def rejected(fn, clause, **ctx):
    try:
        fn()
    except ValueError:
        return
    except Exception as x:
        raise Mismatch(clause, dict(error=f"{type(x).__name__}: {x}", **ctx))
    raise Mismatch(clause, dict(accepted=True, **ctx))


def same_tariff(a, b, clause, **ctx):
    require(clause + "-base", abs(a.get_yearly_base_charge() - b.get_yearly_base_charge()) <= 1e-9, **ctx)
    for h in range(8760):
        x = (a.get_demand_period_at_step(h * 2 + 1, 30), a.get_energy_charge_at_step(h * 2 + 1, 30))
        y = (b.get_demand_period_at_step(h * 2 + 1, 30), b.get_energy_charge_at_step(h * 2 + 1, 30))
        if x != y:
            raise Mismatch(clause, dict(hour=h, written=x, read=y, **ctx))
        if h % 24 == 0 or h % 24 == 17 or x[0] != getattr(same_tariff, "_last", None):
            p, q = a.get_demand_charge_for_period(x[0], 3.0), b.get_demand_charge_for_period(x[0], 3.0)
            require(clause + "-demand", p == q, hour=h, written=p, read=q, **ctx)
        same_tariff._last = x[0]
