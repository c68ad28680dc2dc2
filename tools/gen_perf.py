"""Snapshot of the shipped heat-pump models (what each map covers) -> data/perf_models.json.
Run by hand when models are added; the checks compare the code with the snapshot."""
import json, pickle, warnings
warnings.simplefilter("ignore")
D = "/repo/src/ecoengine/data/preformanceMaps/"
out = []
for n, e in json.load(open(D + "maps.json")).items():
    m = dict(name=n, label=e["name"], sgip=bool(e.get("SGIP_avail", False)), multi=n.endswith("_MP"), commercial=n[-5:-3] == "_C")
    if "pkl_prefix" in e:
        b = pickle.load(open(f"{D}pkls/{e['pkl_prefix']}_bounds.pkl", "rb"))
        c = pickle.load(open(f"{D}pkls/{e['pkl_prefix']}_capacity_interpolator.pkl", "rb"))
        ten = lambda v: round(float(v) * 10)
        m.update(kind="lab", prefix=e["pkl_prefix"], two=c.points.shape[1] == 2, hx=ten(e.get("hx_increase", 0.0)) if e.get("secondary_heat_exchanger") else 0,
                 oats=[ten(x) for x in b[0]], grid=[[[ten(i), [ten(o) for o in outs]] for i, outs in l] for l in b[1]],
                 inMax=ten(b[2][1]), hi=[float(x) for x in b[3]], lo=float(b[4][0]))
        if len(e.get("perfmap", [])) == 1:   # the regression the laboratory map has replaced, kept in the registry
            m["regression"] = dict(p=e["perfmap"][0]["inputPower_coeffs"], c=e["perfmap"][0]["COP_coeffs"])
    else:
        m.update(kind="poly", brackets=[dict(t=x["T_F"], p=x["inputPower_coeffs"], c=x["COP_coeffs"]) for x in e["perfmap"]])
    out.append(m)
json.dump(out, open("/verif/data/perf_models.json", "w"), separators=(",", ":"))
print(len(out))
