// The engine: what a set of user inputs means.  Optional inputs are lists of length 0 or 1.
// From the inputs follow the schematic, the hourly modes, the setpoints of each mode and the
// size; or an error.
module engine {
  import fixed.* from "./fixed"
  import load.* from "./load"
  import sizing.* from "./sizing"
  import lsdata.* from "./lsdata"
  import placedata.* from "./placedata"

  type Opt = List[int]
  // where the building stands: the form the user named it in, and the name
  type Place = { form: str, key: str, id: int }
  type EIn = { place: Place, model: str, tmModel: str, schematic: str, use: Use, gpdpp: Opt, oat: int, inlet: int, supply: int, storage: int,
               runHr: Opt, defrost: Opt, aq: Opt, offS: Opt, onT: Opt, offT: Opt,
               ls: List[int], luHours: int, shedAq: Opt, luAq: Opt, shedOff: Opt, luOff: Opt, luOffT: Opt, pct: Opt,
               ret: Opt, gpm: Opt, tmOn: Opt, tmOff: Opt, tmTime: Opt, tmSf: Opt,
               vol: Opt, cap: Opt, num: int, tmVol: Opt, tmCap: Opt, tmNum: int }

  pure def or_(o: Opt, d: int): int = if (o.length() > 0) o[0] else d
  pure def given(o: Opt): bool = o.length() > 0

  // the schematic each name stands for
  pure val NAMES_OF: str -> str = Map(
    "primary_no_recirc" -> "primary", "singlepass_norecirc" -> "primary",
    "parallel_loop" -> "parallel", "paralleltank" -> "parallel",
    "swing_tank" -> "swing", "swingtank" -> "swing",
    "single_pass_rtp" -> "sprtp", "sprtp" -> "sprtp",
    "multi_pass_rtp" -> "mprtp", "mprtp" -> "mprtp",
    "instant_wh" -> "instant")
  pure def known(n: str): bool = n.in(NAMES_OF.keys())
  pure def kindOf(n: str): str = NAMES_OF.get(n)

  // ---- climate ---------------------------------------------------------------------------------
  // 5-digit keys are zip codes, numbers from 1 to 96 zones, other strings stations; 0 when there is no such place
  pure def lookup(names: List[str], zones: List[int], k: str): int =
    range(0, names.length()).foldl(0, (z, i) => if (names[i] == k) zones[i] else z)
  pure def zoneOf(p: Place): int =
    if (p.form == "zip" or p.form == "zipInt") lookup(ZIPS, ZIPS_ZONE, p.key)
    else if (p.form == "station") lookup(STATIONS, STATIONS_ZONE, p.key)
    else if (p.form == "zone" and p.id >= 1 and p.id <= 96) p.id
    else 0
  pure def placed(p: Place): bool = p.form == "design" or zoneOf(p) > 0

  // ---- hourly modes and their setpoints ------------------------------------------------------
  pure def firstShedHour(ls: List[int]): int = range(0, 24).foldl(-1, (x, h) => if (x == -1 and ls[h] == 0) h else x)
  pure def sheds(e: EIn): bool = e.ls.length() > 0 and firstShedHour(e.ls) >= 0
  pure def modesOf(ls: List[int], lu: int): List[str] =
    range(0, 24).foldl([], (l, h) => l.append(
      if (ls.length() == 0) "normal"
      else if (ls[h] == 0) "shed"
      else if (h < firstShedHour(ls) and h >= firstShedHour(ls) - lu) "loadUp"
      else "normal"))
  pure def normalCtl(e: EIn): SCtl =
    { onH: or_(e.aq, cent(50)), onT: or_(e.onT, e.supply), offH: or_(e.offS, cent(10)), offT: or_(e.offT, e.storage), outT: e.storage }
  pure def ctlMap(e: EIn): str -> SCtl = {
    val n = normalCtl(e)
    val s = { ...n, onH: or_(e.shedAq, n.onH), offH: or_(e.shedOff, n.offH) }
    val l = { ...n, onH: or_(e.luAq, n.onH), offH: or_(e.luOff, n.offH), offT: or_(e.luOffT, n.offT) }
    if (not(sheds(e))) Map("normal" -> n)
    else if (e.luHours > 0) Map("normal" -> n, "shed" -> s, "loadUp" -> l)
    else Map("normal" -> n, "shed" -> s)
  }

  // ---- the sizing problem the inputs pose ----------------------------------------------------------
  pure def useOf(e: EIn): Use = { ...e.use, gpd: or_(e.gpdpp, toFx(25)) }
  pure def cfgOf(e: EIn): SCfg = {
    val u = useOf(e)
    { kind: kindOf(e.schematic), daily: dailyUse(u), peak: shapeOf(u, false), avg: shapeOf(u, true), inlet: e.inlet,
      supply: e.supply, storage: e.storage, runHr: or_(e.runHr, toFx(16)), defrost: or_(e.defrost, S),
      slope: if (kindOf(e.schematic) == "sprtp") cent(170) else cent(280), ctl: ctlMap(e), sched: modesOf(e.ls, e.luHours),
      fract: if (not(sheds(e))) S else fractOf(or_(e.pct, 95)), gpm: or_(e.gpm, 0), ret: or_(e.ret, e.supply), sf: or_(e.tmSf, cent(175)),
      tmOn: or_(e.tmOn, e.supply), tmOff: or_(e.tmOff, e.supply + toFx(8)), offTime: or_(e.tmTime, cent(50)) }
  }
  pure val LOOPED = Set("parallel", "swing", "sprtp", "mprtp")
  pure def presized(e: EIn): bool = given(e.vol)
  // the inputs that are missing or unknown; an engine is built only when there are none
  pure def lacks(e: EIn): List[str] = {
    val k = if (known(e.schematic)) kindOf(e.schematic) else ""
    val tm = presized(e) and k.in(Set("parallel", "swing"))
    [{ n: "place", b: not(placed(e.place)) }, { n: "schematic", b: k == "" },
     { n: "heating_capacity_kbtuh", b: presized(e) and not(given(e.cap)) and e.model == "" },
     { n: "return_temp_f", b: k.in(LOOPED) and not(given(e.ret)) }, { n: "return_flow_gpm", b: k.in(LOOPED) and not(given(e.gpm)) },
     { n: "tm_storage_vol", b: tm and not(given(e.tmVol)) },
     // the element of a swing tank is electric resistance: a model does not stand in for its capacity
     { n: "tm_capacity_kbtuh", b: tm and not(given(e.tmCap)) and (k == "swing" or e.tmModel == "") }].foldl([], (l, x) => if (x.b) l.append(x.n) else l)
  }
  pure def missing(e: EIn): str = if (lacks(e).length() == 0) "" else lacks(e)[0]

  // an instantaneous heater has no storage and makes the peak hour's draw as it happens
  pure def instantCap(c: SCfg): int =
    dv(mul(mul(mul(c.daily, maxL(c.peak)), RHOCP), c.supply - c.inlet) / 1000, c.defrost)
}

module engineMachine {
  import fixed.* from "./fixed"
  import load.* from "./load"
  import loaddata.* from "./loaddata"
  import sizing.* from "./sizing"
  import placedata.* from "./placedata"
  import engine.*

  const SCHEMATICS: Set[str]
  const SHIFT: Set[int]
  const PRE: Set[int]
  const PLACES: Set[str]
  pure val HP_MODELS = ["MODELS_ColmacCxV_5_C_SP", "MODELS_SANCO2_119_C_SP", "MODELS_SANCO2_43_R_SP", "MODELS_AOSmithHPTS50_R_MP"]

  var e: EIn
  var res: { miss: str, lacks: List[str], one: bool, impossible: bool, cfg: SCfg, size: Size, num: int, vol: int, cap: int, tmVol: int, tmCap: int, tmNum: int }

  pure def optIf(k: int, v: int): Opt = if (k == 0) [] else [v]
  pure def blocks(s0: int, len: int, two: bool): List[int] =
    range(0, 24).foldl([], (l, h) => l.append(if (h >= s0 and h < s0 + len) 0 else if (two and (h + 24 - s0) % 24 == len + 3) 0 else 1))

  action pick = {
    nondet sch = SCHEMATICS.oneOf()
    nondet anyTy = (-1).to(11).oneOf()
    nondet fam = 0.to(2).oneOf()
    nondet mag = 5.to(400).oneOf()
    nondet gp = Set(0, 15, 22, 40).oneOf()
    nondet cp = Set(0, 0, 1).oneOf()
    nondet pm = 0.to(23).setOfMaps(1.to(40)).oneOf()
    nondet am = 0.to(23).setOfMaps(1.to(40)).oneOf()
    nondet inl = 35.to(65).oneOf()
    nondet sup = 115.to(130).oneOf()
    nondet sto = 10.to(40).oneOf()
    nondet g = 0.to(19).setOfMaps(Set(0, 1)).oneOf()
    nondet rh = 10.to(24).oneOf()
    nondet df = Set(1000, 900, 850).oneOf()
    nondet aq = 20.to(60).oneOf()
    nondet os = 2.to(18).oneOf()
    nondet zero = 0.to(4).oneOf()
    nondet onD = (-10).to(5).oneOf()
    nondet offD = 0.to(8).oneOf()
    nondet sh = SHIFT.oneOf()
    nondet s0 = 0.to(21).oneOf()
    nondet sl = 1.to(6).oneOf()
    nondet two = Set(true, false).oneOf()
    nondet lu = 0.to(5).oneOf()
    nondet sAq = 62.to(90).oneOf()
    nondet lAq = 8.to(19).oneOf()
    nondet pct = 25.to(100).oneOf()
    nondet gpm = 50.to(1200).oneOf()
    nondet drop = 40.to(150).oneOf()
    nondet tB = 0.to(15).oneOf()
    nondet tW = 3.to(15).oneOf()
    nondet alone = 0.to(3).oneOf()      // one band limit given without the other
    nondet ot = 20.to(100).oneOf()
    nondet sf = 110.to(260).oneOf()
    nondet pre = PRE.oneOf()
    nondet vol = 50.to(3000).oneOf()
    nondet cap = 10.to(900).oneOf()
    nondet num = 1.to(4).oneOf()
    nondet tv = 40.to(400).oneOf()
    nondet tn = 1.to(3).oneOf()
    nondet drop1 = 0.to(33).oneOf()
    nondet form = PLACES.oneOf()
    nondet pz = 0.to(400).oneOf()
    nondet hm = 0.to(7).oneOf()
    nondet tmm = 0.to(7).oneOf()
    val ty = if (fam == 0) 0 else anyTy
    val supply = toFx(sup)
    val storage = toFx(sup + sto)
    val place = { form: form, id: if (form == "zone") (if (drop1 == 5) 0 - pz % 3 else if (drop1 == 6) 97 + pz else 1 + pz % 96) else 0,
      key: if (form == "station") (if (drop1 == 5) "No Such Station" else STATIONS[pz % STATIONS.length()])
           else if (form == "zip" or form == "zipInt") (if (drop1 == 5) "10001" else ZIPS[pz % ZIPS.length()]) else "" }
    val cold = if (zoneOf(place) > 0) INLETS[zoneOf(place) - 1] else toFx(inl)
    val air = if (zoneOf(place) > 0) OATS[zoneOf(place) - 1] else toFx(inl - 10)
    val modelled = PRE == Set(1)
    val shapeP = range(0, 24).foldl([], (l, h) => l.append(pm.get(h)))
    val shapeA = range(0, 24).foldl([], (l, h) => l.append(am.get(h)))
    val x = { place: place, model: if (modelled and hm < 4) HP_MODELS[hm] else "", tmModel: if (modelled and tmm < 4) HP_MODELS[tmm] else "", schematic: if (drop1 == 0) "no_such_schematic" else sch,
      use: { ty: ty, mag: toFx(mag), gpd: toFx(25), peak: if (ty == -1 or cp == 1) shapeP else [], avg: if (cp == 1) shapeA else [] },
      gpdpp: optIf(gp, toFx(gp)), oat: air, inlet: cold, supply: supply, storage: storage,
      runHr: optIf(g.get(0), toFx(rh)), defrost: optIf(g.get(1), milli(df)), aq: optIf(g.get(2), cent(aq)), offS: optIf(g.get(3), if (zero == 1) 0 else cent(os)),
      onT: optIf(g.get(4), supply + toFx(onD)), offT: optIf(g.get(5), storage - toFx(min2(offD, sto - 2))),
      ls: if (sh == 0) [] else blocks(if (s0 + sl == 1 and not(two)) 30 else s0, sl, two), luHours: if (sh == 0) 0 else lu,
      // a height or a temperature difference of zero is an answer, not a missing one
      shedAq: optIf(if (sh == 0 or g.get(14) + g.get(15) == 2) 0 else 1, cent(sAq)), luAq: optIf(if (sh == 0) 0 else g.get(6), cent(lAq)),
      shedOff: optIf(g.get(7), if (zero == 2) 0 else cent(os + 2)), luOff: optIf(g.get(8), if (zero > 2) 0 else cent(max2(1, min2(os, lAq) - 1))), luOffT: optIf(g.get(9), storage - S),
      pct: optIf(g.get(10), pct),
      ret: if (drop1 == 1) [] else optIf(1, supply - milli(drop * 100)), gpm: if (drop1 == 2) [] else [cent(gpm)],
      tmOn: optIf(g.get(11), supply + toFx(tB)), tmOff: optIf(if (alone == 1) 1 - g.get(11) else g.get(11), supply + toFx(tB + tW)), tmTime: optIf(g.get(12), cent(ot)), tmSf: optIf(g.get(13), cent(sf)),
      vol: optIf(pre, toFx(vol)), cap: if (pre == 0 or drop1 == 7) [] else [toFx(cap)], num: num,
      tmVol: if (pre == 0 or drop1 == 3 or drop1 == 8) [] else [toFx(tv)], tmCap: if (pre == 0 or drop1 == 4 or drop1 == 8 or (drop1 > 8 and drop1 < 14)) [] else [toFx(cap) / 8], tmNum: tn }
    val miss = missing(x)
    val c = if (known(x.schematic)) cfgOf(x) else cfgOf({ ...x, schematic: "instant_wh" })
    val imp = c.kind == "parallel" and not(presized(x)) and not(tmPossible(c))
    val sized = miss == "" and not(imp) and not(presized(x)) and c.kind.in(Set("primary", "parallel", "swing", "sprtp"))
    val z = if (sized) sizeOf(c) else FAIL
    all { e' = x,
          res' = { miss: miss, lacks: lacks(x), one: x.model != "", impossible: imp, cfg: c, size: z, num: if (presized(x)) x.num else 1,
                   vol: if (presized(x)) x.vol[0] else z.sto, cap: if (presized(x)) or_(x.cap, 0) else if (c.kind == "instant") instantCap(c) else z.cap,
                   tmVol: if (presized(x) and given(x.tmVol)) x.tmVol[0] else z.tmVol,
                   tmCap: if (presized(x) and given(x.tmCap)) x.tmCap[0] else z.tmCap,
                   tmNum: if (c.kind == "parallel") x.tmNum else 1 } }
  }
  action init = pick
  action step = pick
  action hold = all { e' = e, res' = res }

  // ---- what the meaning must satisfy -------------------------------------------------------
  val modesFollowSchedule = 0.to(23).forall(h => {
    val m = res.cfg.sched[h]
    and { (m == "shed") == (e.ls.length() > 0 and e.ls[h] == 0), m.in(res.cfg.ctl.keys()) } })
  val loadUpJustBefore = e.ls.length() == 0 or {
    val f = firstShedHour(e.ls)
    0.to(23).forall(h => (res.cfg.sched[h] == "loadUp") == (h < f and h >= f - e.luHours)) }
  val sizedIsServable = not(res.size.ok) or (res.size.cap > 0 and res.size.sto >= 0)
  val splitKeepsTotal = near(res.num * (res.cap / res.num), res.cap, 10)
  // an engine is built only from complete inputs, whatever else they say
  val completeOnly = (res.miss == "") == (res.lacks.length() == 0)
  val inv = and { completeOnly, modesFollowSchedule, loadUpJustBefore, sizedIsServable, splitKeepsTotal }
}

module engineShift { import engineMachine(SCHEMATICS = Set("primary_no_recirc", "singlepass_norecirc"), SHIFT = Set(1), PRE = Set(0), PLACES = Set("design")).* from "./engine" }
module engineAll { import engineMachine(SCHEMATICS = Set("primary_no_recirc", "singlepass_norecirc", "parallel_loop", "paralleltank", "swing_tank", "swingtank", "single_pass_rtp", "sprtp"), SHIFT = Set(0, 1), PRE = Set(0), PLACES = Set("design")).* from "./engine" }
module enginePre { import engineMachine(SCHEMATICS = Set("primary_no_recirc", "singlepass_norecirc", "parallel_loop", "paralleltank", "swing_tank", "swingtank", "single_pass_rtp", "sprtp", "multi_pass_rtp", "mprtp", "instant_wh"), SHIFT = Set(0, 1), PRE = Set(1), PLACES = Set("design", "design", "zip", "zipInt", "zone", "station")).* from "./engine" }
module enginePlaces { import engineMachine(SCHEMATICS = Set("primary_no_recirc", "singlepass_norecirc", "parallel_loop", "paralleltank", "single_pass_rtp", "sprtp", "instant_wh"), SHIFT = Set(0, 1), PRE = Set(0), PLACES = Set("zip", "zipInt", "zone", "station")).* from "./engine" }
module engineMp { import engineMachine(SCHEMATICS = Set("multi_pass_rtp", "mprtp"), SHIFT = Set(0), PRE = Set(0), PLACES = Set("design", "zone")).* from "./engine" }
