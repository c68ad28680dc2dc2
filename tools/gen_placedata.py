#!/usr/bin/env python3
"""One-off: freeze the climate lookup and the design conditions of every climate zone into
spec/placedata.qnt (the specification's own copy; never run by a check)."""
import csv, os
from fractions import Fraction
SRC = "/repo/src/ecoengine/data/climate_data"
OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec")
def rows(f): return list(csv.reader(open(f"{SRC}/{f}", encoding="utf-8-sig")))
def n(x): return str(int(Fraction(x) * 10**12))
zips = rows("ZipCode_ClimateZone_Lookup.csv")[1:]
stations = rows("WeatherStation_ClimateZone_Lookup.csv")[1:]
inlet = rows("InletWaterTemperatures_ByClimateZone.csv")[1:]
oat = rows("DryBulbTemperatures_ByClimateZone.csv")[1:]
assert len(inlet) == 12 and len(oat) == 8760
pick = sorted(set(range(0, len(zips), 23)) | {0, len(zips) - 1} | {[z[1] for z in zips].index(str(k)) for k in range(1, 17)})
def lst(l): return "[" + ", ".join(l) + "]"
with open(OUT + "/placedata.qnt", "w") as f:
    f.write("// Frozen climate lookup: zip codes (a sample covering all their zones) and weather stations with their zone,\n"
            "// and the design (coldest) outdoor and inlet temperatures of the 96 zones (degF x 10^12).\nmodule placedata {\n")
    for k, t in (("ZIPS", [zips[i] for i in pick]), ("STATIONS", stations)):
        f.write(f"  pure val {k}: List[str] = " + lst('"%s"' % r[0].strip() for r in t) + "\n")
        f.write(f"  pure val {k}_ZONE: List[int] = " + lst(r[1].strip() for r in t) + "\n")
    f.write("  pure val INLETS: List[int] = " + lst(n(min((r[z] for r in inlet), key=Fraction)) for z in range(96)) + "\n")
    f.write("  pure val OATS: List[int] = " + lst(n(min((r[z] for r in oat), key=Fraction)).replace("-", "-") for z in range(96)) + "\n}\n")
