#!/usr/bin/env python3
"""One-off: freeze the default load-shape tables into spec/loaddata.qnt and spec/cadata.qnt
(the specification's own copy; never run by a check)."""
import json, os
SRC = "/repo/src/ecoengine/data/load_shapes"
OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec")
TYPES = ["multi_family", "apartment", "motel", "office_building", "mens_dorm", "womens_dorm", "nursing_home",
         "food_service_a", "food_service_b", "elementary_school", "junior_high", "senior_high"]
def n(x): return str(round(x * 10**12))
with open(OUT + "/loaddata.qnt", "w") as f:
    f.write("// Frozen default 24-hour load shapes by building type (fraction of daily use per hour, x 10^12).\nmodule loaddata {\n")
    for k, key in (("PEAK", "Stream"), ("AVG", "Stream_Avg")):
        for i, t in enumerate(TYPES):
            d = json.load(open(f"{SRC}/{t}.json"))["loadshapes"]
            f.write(f"  // {t}\n  pure val {k}{i}: List[int] = [{', '.join(n(x) for x in d.get(key, d['Stream']))}]\n")
        f.write(f"  pure val {k}: List[List[int]] = [{', '.join(k + str(i) for i in range(len(TYPES)))}]\n")
    f.write("  pure val NAMES: List[str] = [%s]\n}\n" % ", ".join('"%s"' % t for t in TYPES))
d = json.load(open(f"{SRC}/multi_family.json"))["ca_gpdpp"]
with open(OUT + "/cadata.qnt", "w") as f:
    f.write("// Frozen California daily use per unit by bedroom count, 365 days (gallons x 10^12).\nmodule cadata {\n")
    for b in range(6):
        v = d[f"{b}br"]
        assert len(v) == 365
        for c in range(5):
            f.write(f"  pure val B{b}_{c}: List[int] = [{', '.join(n(x) for x in v[c*73:(c+1)*73])}]\n")
        f.write(f"  pure val B{b}: List[List[int]] = [{', '.join(f'B{b}_{c}' for c in range(5))}]\n")
    f.write("  pure val BR: List[List[List[int]]] = [B0, B1, B2, B3, B4, B5]\n}\n")
