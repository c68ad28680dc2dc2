import io
import random
from tarifflib import *


def replay_described(trace):
    good = bad = 0
    for i, st in enumerate(trace):
        r = st["r"]
        ctx = dict(kw={k: v for k, v in r.items()})
        if not st["ok"]:
            rejected(lambda: describe(st), "invalid-description-rejected", **ctx)
            bad += 1
            continue
        given = params(st)
        t = UtilityCostTracker.from_params(**given)
        require("description-untouched", given == params(st), **ctx)
        good += 1
        hours = [st["table"][24 * MONTH[h] + h % 24] for h in range(8760)]
        check_hours(t, hours, "hour-slot", **ctx)
        expect("yearly-base", t.get_yearly_base_charge(), 12 * r["base"] / 10000, abs_=1e-9, **ctx)
        require("month-fee", t.monthly_base_charge == r["base"] / 10000, **ctx)
        rejected(lambda: t.get_demand_charge_for_period(999, 1.0), "unknown-period-rejected", **ctx)
        for k in {(x["label"], x["kind"]) for x in hours}:
            require("period-kind", (bool(t.is_peak_map[k[0]]), bool(t.is_discount_map[k[0]])) == (k[1] == 1, k[1] == 2), label=k[0], **ctx)
        if i % 3 == 0:
            with tempfile.TemporaryDirectory() as d:
                p = os.path.join(d, "t.csv")
                t.to_csv(p)
                same_tariff(t, UtilityCostTracker.from_csv(p), "file-round-trip", **ctx)
            check_hours(t, hours, "hour-slot-after-writing", **ctx)
    return {"descriptions": good, "rejected": bad}


def replay_filed(trace):
    good = bad = 0
    for i, st in enumerate(trace):
        f, rd = st["f"], st["read"]
        ctx = dict(file={k: v for k, v in f.items() if k != "lab"}, lab=f["lab"][:30])
        with tempfile.TemporaryDirectory() as d:
            p, q = os.path.join(d, "t.csv"), os.path.join(d, "u.csv")
            if not rd["ok"]:
                write_file(p, f, rd["rows"])
                rejected(lambda: UtilityCostTracker.from_csv(p), "unreadable-file-rejected", **ctx)
                bad += 1
                continue
            good += 1
            head = ["Demand Period", "Monthly Base Charge", "Date", "Demand Rate ($/kW)", "Energy Rate ($/kWh)"] if i % 2 else None
            write_file(p, f, rd["rows"], header=head)
            t = UtilityCostTracker.from_csv(p)
            check_hours(t, rd["hour"], "file-hour", **ctx)
            expect("file-base", t.get_yearly_base_charge(), 12 * f["base"] / 10000, abs_=1e-9, **ctx)
            with open(p, newline="") as fh:
                same_tariff(t, UtilityCostTracker.from_csv(csv_file=fh), "file-or-path", **ctx)
            t.to_csv(q)
            same_tariff(t, UtilityCostTracker.from_csv(q), "hourly-file-round-trip", **ctx)
            for c in COLS:
                write_file(q, f, rd["rows"], drop=c)
                rejected(lambda: UtilityCostTracker.from_csv(q), "missing-column-rejected", column=c, **ctx)
            write_file(q, f, rd["rows"], short=1 + i * 17)
            rejected(lambda: UtilityCostTracker.from_csv(q), "short-file-rejected", **ctx)
            write_file(q, f, rd["rows"] + rd["rows"][:24])
            rejected(lambda: UtilityCostTracker.from_csv(q), "long-file-rejected", **ctx)
            write_file(q, f, rd["rows"], base="n/a")
            rejected(lambda: UtilityCostTracker.from_csv(q), "unreadable-base-rejected", **ctx)
    rejected(UtilityCostTracker.from_csv, "no-file-rejected")
    rejected(lambda: UtilityCostTracker.from_csv(csv_file=io.StringIO("")), "empty-file-rejected")
    return {"files": good, "unreadable": bad}


def body(ck):
    tr = ck.generate("tariff.qnt", "tariffAny", ck.n(48, 800), 20)
    ck.replay(replay_described, tr, "described")
    tr = ck.generate("tariff.qnt", "tariffAnyFile", ck.n(16, 160), 3)
    ck.replay(replay_filed, tr, "filed")


main("C16", body)
