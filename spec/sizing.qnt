// Sizing: from a building's design day to heating capacity and storage, for the primary
// plant and for the plants that add a recirculation loop to it.
module sizing {
  import fixed.* from "./fixed"

  type SCtl = { onH: int, onT: int, offH: int, offT: int, outT: int }
  // kind: "primary" | "sprtp" | "parallel" | "swing"; an empty ctl map means "no controls given",
  // an empty schedule "no schedule given"; fract scales the load-shift demand (covered days)
  type SCfg = { kind: str, daily: int, peak: List[int], avg: List[int], inlet: int, supply: int, storage: int,
                runHr: int, defrost: int, slope: int, ctl: str -> SCtl, sched: List[str], fract: int,
                gpm: int, ret: int, sf: int, tmOn: int, tmOff: int, offTime: int }

  pure def has(c: SCfg, m: str): bool = m.in(c.ctl.keys())
  pure def shifting(c: SCfg): bool = has(c, "shed") and c.sched.length() > 0
  pure def nonShed(c: SCfg): int = c.sched.foldl(0, (n, m) => if (m == "shed") n else n + 1)
  // the heaters cannot run in shed hours
  // what sizing assumes when a setting is left out
  pure val DEFAULTS: str -> { runHr: int, slope: int, sf: int, offTime: int } = Map(
    "primary" -> { runHr: toFx(24), slope: cent(280), sf: 0, offTime: 0 },
    "sprtp" -> { runHr: toFx(16), slope: cent(170), sf: 0, offTime: 0 },
    "parallel" -> { runHr: toFx(24), slope: cent(280), sf: cent(120), offTime: cent(50) },
    "swing" -> { runHr: toFx(24), slope: cent(280), sf: cent(120), offTime: 0 })
  pure def runOf(c: SCfg): int = if (shifting(c)) min2(c.runHr, toFx(nonShed(c))) else c.runHr
  pure def lossK(c: SCfg): int = mul(mul(60 * c.gpm, RHOCP), c.supply - c.ret) / 1000
  pure def isRtp(c: SCfg): bool = c.kind == "sprtp"

  // ---- heating capacity [kBTU/h] ---------------------------------------------------------
  pure def kbtuhFor(c: SCfg, gph: int, hot: int): int = dv(mul(mul(gph, RHOCP), hot - c.inlet), c.defrost) / 1000
  pure def loopCap(c: SCfg): int = dv(dv(lossK(c) * 24, runOf(c)), c.defrost)

  // ---- the tank at the moment its ON sensor fires ----------------------------------------
  // Supply-temperature gallons 100 gallons of tank give: water below the sensor counts as cold,
  // above it the profile rises from onT at `slope` degrees per percent up to storage temperature.
  pure def supplyGal(c: SCfg, f: int, t: int): int = {
    val on = 100 * f
    val su = max2(on, on + dv(c.supply - t, c.slope))
    val st = min2(toFx(100), on + dv(c.storage - t, c.slope))
    if (su >= toFx(100)) 0 else {
      val lowT = t + mul(su - on, c.slope)
      val highT = t + mul(st - on, c.slope)
      val mixed = mul(st - su, (lowT + highT) / 2 - c.inlet)
      val hot = mul(toFx(100) - st, c.storage - c.inlet)
      dv(mixed + hot, c.supply - c.inlet)
    }
  }
  // share of the tank counted as shiftable, in percent: the transition zone counts half
  pure def bandPct(c: SCfg, f: int, t: int): int = {
    val on = 100 * f
    val st = min2(toFx(100), on + dv(c.storage - t, c.slope))
    val su = max2(on, on + dv(c.supply - t, c.slope))
    toFx(100) - st + (st - su) / 2
  }
  pure def stratFactor(c: SCfg): int =
    if (c.ctl.keys() == Set()) supplyGal(c, 0, c.supply) / 100
    else if (has(c, "normal")) supplyGal(c, c.ctl.get("normal").onH, c.ctl.get("normal").onT) / 100
    else {
      val all_ = c.ctl.keys().map(m => supplyGal(c, c.ctl.get(m).onH, c.ctl.get(m).onT) / 100)
      all_.fold(1000000 * S, (x, y) => min2(x, y))
    }

  // ---- storage: the worst stretch of the repeated day in which demand outruns heating -----
  pure def worstStretch(surplus: List[int]): int =
    range(0, surplus.length()).foldl(0, (best, s) => {
      val w = range(0, surplus.length()).foldl({ sum: 0, worst: 0 }, (a, k) => {
        val x = a.sum + surplus[(s + k) % surplus.length()]
        { sum: x, worst: min2(a.worst, x) } })
      max2(best, -w.worst) })
  pure def surplusOf(c: SCfg): List[int] = {
    val g = dv(c.daily, runOf(c))
    c.peak.foldl([], (l, x) => l.append(g - mul(c.daily, x)))
  }

  // ---- load shift ----------------------------------------------------------------------------
  pure def firstShed(c: SCfg): List[int] =
    range(0, 24).foldl([], (l, h) =>
      if (c.sched[h] == "shed" and (l.length() == 0 or l[l.length() - 1] == h - 1)) l.append(h) else l)
  pure def loadUpHours(c: SCfg): int = {
    val s0 = firstShed(c)[0]
    range(0, s0).foldl(0, (n, k) => if (n == k and c.sched[s0 - 1 - k] == "loadUp") n + 1 else n)
  }
  // single-pass return-to-primary carries the loop's daily loss as extra demand while shifting
  pure def lsDaily(c: SCfg): int =
    if (isRtp(c)) c.daily + 24 * dv(1000 * lossK(c), mul(RHOCP, c.supply - c.inlet)) else c.daily
  pure def demandOver(c: SCfg, hours: List[int]): int = hours.foldl(0, (a, h) => a + mul(lsDaily(c), c.avg[h]))
  pure def luCtl(c: SCfg): SCtl = if (has(c, "loadUp")) c.ctl.get("loadUp") else c.ctl.get("normal")
  pure def luRate(c: SCfg, shift: int, used: int, base: int): int = {
    val n = c.ctl.get("normal")
    val l = luCtl(c)
    val s = c.ctl.get("shed")
    val lu = bandPct(c, l.onH, l.onT)
    val band = lu - bandPct(c, s.onH, s.onT)
    if (loadUpHours(c) == 0 or band <= 0) base
    else max2(base, (muldiv(shift, lu - bandPct(c, n.onH, n.onT), band) + used) / loadUpHours(c))
  }
  pure def luList(c: SCfg): List[int] = {
    val s0 = firstShed(c)[0]
    range(s0 - loadUpHours(c), s0)
  }
  pure def lsShift(c: SCfg): int = mul(demandOver(c, firstShed(c)), c.fract)
  pure def lsRate(c: SCfg): int = luRate(c, lsShift(c), demandOver(c, luList(c)), dv(lsDaily(c), runOf(c)))
  // what the tank must have gained over its level at the end of the first shed window
  pure def lsDeficit(c: SCfg, rate: int): int = {
    val e = firstShed(c)[firstShed(c).length() - 1] + 1
    val w = range(e, 48).foldl({ sum: 0, worst: 0 }, (a, k) => {
      val h = k % 24
      val x = a.sum + (if (c.sched[h] == "shed") 0 else rate) - mul(lsDaily(c), c.avg[h])
      { sum: x, worst: min2(a.worst, x) } })
    -w.worst
  }
  pure def lsBand(c: SCfg): int =
    (supplyGal(c, luCtl(c).offH, luCtl(c).offT) - supplyGal(c, c.ctl.get("shed").onH, c.ctl.get("shed").onT)) / 100

  // ---- swing tank -------------------------------------------------------------------------------
  pure val SWING_TABLE = [40, 50, 80, 100, 120, 160, 175, 240, 350, 400, 500, 600, 800, 1000, 1250]
  pure val CA_TABLE = [80, 96, 168, 288, 480]
  pure def swingNeed(c: SCfg): int = max2(dv(10 * lossK(c), KBTU_PER_KW), mul(c.daily, maxL(c.peak)) / 60)
  pure def smallest(table: List[int], need: int): int =
    table.foldl(0, (x, v) => if (x == 0 and toFx(v) >= need) v else x)
  pure def swingVol(c: SCfg): int = smallest(SWING_TABLE, swingNeed(c))
  pure def swingCa(c: SCfg): int = if (swingVol(c) < 480) smallest(CA_TABLE, swingNeed(c)) else 480
  pure def swingCap(c: SCfg): int = mul(c.sf, lossK(c))

  // The swing tank alone for a list of hours, minute by minute, fed at storage temperature:
  // how much the primary has to send in each minute.
  type Sw = { ok: bool, heating: bool, t: int, hw: List[int], total: int, margin: int }
  pure def swingRun(c: SCfg, hours: List[int]): Sw = {
    val vol = toFx(swingVol(c))
    val lossT = dv(lossK(c) * 1000 / 60, mul(RHOCP, vol))
    val elT = dv(swingCap(c) * 1000 / 60, mul(RHOCP, vol))
    val off = c.supply + toFx(8)
    range(0, 60 * hours.length()).foldl({ ok: true, heating: false, t: c.supply + S / 10, hw: [], total: 0, margin: 1000 * S }, (s, i) => {
      val d = hours[i / 60] / 60
      if (i == 0) { ...s, hw: [d], total: d }
      else if (not(s.ok)) s
      else {
        val g = if (s.t > c.inlet) muldiv(d, c.supply - c.inlet, s.t - c.inlet) else d
        val t1 = (if (g > 0) dv(mul(g, c.storage) + mul(s.t, vol - g), vol) else s.t) - lossT
        val t2 = if (s.heating) min2(t1 + elT, max2(off, t1)) else if (t1 <= c.supply) min2(t1 + elT, c.supply) else t1
        val on2 = if (s.heating) t1 + elT <= off else t1 <= c.supply
        val m = absI(if (s.heating) t1 + elT - off else t1 - c.supply)
        { ok: g < vol and t2 >= c.supply, heating: on2, t: t2, hw: s.hw.append(g), total: s.total + g,
          margin: min2(s.margin, m) }
      } })
  }
  pure def cyc(l: List[int], from: int, n: int): List[int] = range(0, n).foldl([], (a, k) => a.append(l[(from + k) % l.length()]))
  // worst cumulative shortfall of a constant-by-hour supply against per-minute needs
  pure def shortfall(supplyPerHour: List[int], hw: List[int]): int =
    -(range(0, hw.length()).foldl({ sum: 0, worst: 0 }, (a, i) => {
      val x = a.sum + supplyPerHour[i / 60] / 60 - hw[i]
      { sum: x, worst: min2(a.worst, x) } }).worst)

  // hours to try: where the day turns from surplus to deficit, and the hour after
  pure def turnHours(c: SCfg): List[int] = {
    val g = dv(S, runOf(c))
    def turnAt(i) = c.peak[(i + 23) % 24] <= g and c.peak[i] > g
    range(0, 24).foldl([], (a, h) => if (turnAt(h) or (h > 0 and turnAt(h - 1))) a.append(h) else a)
  }
  pure def turnMargin(c: SCfg): int = {
    val g = dv(S, runOf(c))
    range(0, 24).foldl(1000 * S, (m, h) => if (c.peak[h] == g) m else min2(m, absI(c.peak[h] - g)))
  }
  type SwingNormal = { ok: bool, vol: int, eff: int, margin: int }
  pure def swingNormal(c: SCfg): SwingNormal =
    turnHours(c).foldl({ ok: true, vol: 0, eff: S, margin: turnMargin(c) }, (b, s) =>
      if (not(b.ok)) b else {
        val r = swingRun(c, cyc(c.peak, s, 24).foldl([], (l, x) => l.append(mul(x, c.daily))))
        val eff = dv(r.total, c.daily)
        val g = muldiv(c.daily, eff, runOf(c))
        val v = shortfall(range(0, 24).foldl([], (l, h) => l.append(g)), r.hw)
        val n = if (v > b.vol) { ...b, vol: v, eff: eff } else b
        { ...n, ok: r.ok, margin: min2(b.margin, r.margin) } })

  // ---- the size ---------------------------------------------------------------------------------
  type Size = { ok: bool, cap: int, sto: int, baseCap: int, baseSto: int, running: int, lsRunning: int,
                tmVol: int, tmCa: int, tmCap: int, margin: int }
  pure val FAIL = { ok: false, cap: 0, sto: 0, baseCap: 0, baseSto: 0, running: 0, lsRunning: 0, tmVol: 0, tmCa: 0, tmCap: 0, margin: 1000 * S }

  // parallel-loop settings that can work: the heater outpaces the loss, the off time is at most an hour,
  // there is a dead band, and a heating cycle lasts longer than 20 minutes
  pure def tmPossible(c: SCfg): bool =
    c.sf > S and c.offTime > 0 and c.offTime <= S and c.tmOff > c.tmOn and 3 * c.offTime > c.sf - S

  pure def sizeDirect(c: SCfg): Size = if (c.kind == "parallel" and not(tmPossible(c))) FAIL else {
    val need = worstStretch(surplusOf(c))
    val cap0 = kbtuhFor(c, dv(c.daily, runOf(c)), c.supply) + (if (isRtp(c)) loopCap(c) else 0)
    val sto0 = dv(need, stratFactor(c))
    val par = c.kind == "parallel"
    val tmVol = if (par) dv(muldiv(1000 * lossK(c), c.offTime, RHOCP), c.tmOff - c.tmOn) else 0
    val tmCap = if (par) mul(c.sf, lossK(c)) else 0
    val base = { ok: true, cap: cap0, sto: sto0, baseCap: cap0, baseSto: sto0, running: need, lsRunning: 0,
                 tmVol: tmVol, tmCa: 0, tmCap: tmCap, margin: 1000 * S }
    if (not(shifting(c))) base else {
      val rate = lsRate(c)
      val lsRun = mul(lsDeficit(c, rate), c.fract) + lsShift(c)
      val lsCap = kbtuhFor(c, rate, c.supply) + (if (isRtp(c)) loopCap(c) else 0)
      { ...base, cap: max2(cap0, lsCap), sto: max2(sto0, dv(lsRun, lsBand(c))), lsRunning: lsRun }
    }
  }

  pure def sizeSwing(c: SCfg): Size =
    if (swingVol(c) == 0) FAIL else {
      val k = dv(c.storage - c.inlet, c.supply - c.inlet)
      val n = swingNormal(c)
      if (not(n.ok)) FAIL else {
        val need = mul(n.vol, k)
        val sto0 = dv(need, stratFactor(c))
        val g0 = muldiv(c.daily, n.eff, runOf(c))
        val cap0 = kbtuhFor(c, g0, c.storage)
        val base = { ok: true, cap: cap0, sto: sto0, baseCap: cap0, baseSto: sto0, running: need, lsRunning: 0,
                     tmVol: toFx(swingVol(c)), tmCa: toFx(swingCa(c)), tmCap: swingCap(c), margin: n.margin }
        if (not(shifting(c))) base else {
          val day = c.avg.foldl([], (l, x) => l.append(mul(x, c.daily)))
          def part(hs) = swingRun(c, hs.foldl([], (l, h) => l.append(day[h])))
          val shedS = part(firstShed(c))
          val luS = part(luList(c))
          val shift = if (demandOver(c, firstShed(c)) > 0) mul(shedS.total, c.fract) else 0
          val used = if (loadUpHours(c) > 0 and demandOver(c, luList(c)) > 0) luS.total else 0
          val rate = luRate(c, shift, used, g0)
          val e = firstShed(c)[firstShed(c).length() - 1] + 1
          val r = swingRun(c, cyc(day, e, 24))
          val gen = range(0, 24).foldl([], (l, h) => l.append(if (c.sched[h] == "shed") 0 else rate))
          val lsRun = mul(shortfall(cyc(gen, e, 24), r.hw) + shift, k)
          val okLs = shedS.ok and r.ok and (loadUpHours(c) == 0 or luS.ok)
          if (not(okLs)) FAIL else
          { ...base, cap: max2(cap0, kbtuhFor(c, rate, c.storage)), sto: max2(sto0, dv(lsRun, lsBand(c))), lsRunning: lsRun,
            margin: min2(min2(n.margin, r.margin), min2(shedS.margin, luS.margin)) }
        }
      }
    }
  pure def sizeOf(c: SCfg): Size = if (c.kind == "swing") sizeSwing(c) else sizeDirect(c)

  // ---- curves --------------------------------------------------------------------------------------
  // run hours of the storage/capacity curve, 24 down to where an hour of heating covers the peak hour
  pure def downTo(hi: int, lo: int, step: int): List[int] =
    range(0, if (hi <= lo) 0 else (hi - lo + step - 1) / step).foldl([], (l, i) => l.append(hi - i * step))
  pure def minRun(c: SCfg): int = dv(1001 * S / 1000, maxL(c.peak))
  pure def curveHours(c: SCfg, step: int): { hours: List[int], rec: int } = {
    val a = downTo(24 * S, c.runHr, step)
    val b = downTo(c.runHr, minRun(c), step)
    // no further than where heating keeps up with the peak hour and no storage is needed
    { hours: a.concat(b).foldl([], (l, h) => if (mul(h, maxL(c.peak)) > S) l.append(h) else l), rec: a.length() }
  }
}

// Behaviours: random design days and settings, each sized; the invariants say what a size is for.
module sizingMachine {
  import fixed.* from "./fixed"
  import shapes.* from "./shapes"
  import lsdata.* from "./lsdata"
  import sizing.*

  const KINDS: Set[str]
  const LS: Set[int]

  var c: SCfg
  var pct: int
  var r: Size

  action pick = {
    nondet kind = KINDS.oneOf()
    nondet daily = 40.to(6000).oneOf()
    nondet pk = Set(0, 1, 2, 3, 4, 5, 6).oneOf()
    nondet ak = Set(0, 1, 3, 4, 5).oneOf()
    nondet pm = 0.to(23).setOfMaps(0.to(99)).oneOf()
    nondet am = 0.to(23).setOfMaps(0.to(99)).oneOf()
    nondet inl = 330.to(680).oneOf()
    nondet sup = 1100.to(1300).oneOf()
    nondet sto = 50.to(500).oneOf()
    nondet rh = 24.to(96).oneOf()
    nondet rOdd = 0.to(24).oneOf()
    nondet df = Set(1000, 1000, 950, 870, 700).oneOf()
    nondet sl = Set(170, 280, 280, 95, 400).oneOf()
    nondet ls = LS.oneOf()
    nondet s0 = 0.to(23).oneOf()
    nondet sLen = 1.to(7).oneOf()
    nondet lu = 0.to(5).oneOf()
    nondet two = Set(true, false).oneOf()
    nondet onH = 5.to(60).oneOf()
    nondet dH = 0.to(20).oneOf()
    nondet onT = (-250).to(200).oneOf()
    nondet offT = Set(-200, -100, -50, 0).oneOf()
    nondet shH = 5.to(25).oneOf()
    nondet shT = Set(0, 0, -30, 20).oneOf()
    nondet luMode = Set(0, 1, 2).oneOf()
    nondet cm = Set(0, 1, 1, 1, 2).oneOf()
    nondet p = 25.to(100).oneOf()
    nondet gpm = 20.to(1500).oneOf()
    nondet drop = 30.to(200).oneOf()
    nondet sf = 105.to(300).oneOf()
    nondet tmB = 20.to(250).oneOf()
    nondet tmW = 20.to(200).oneOf()
    nondet ot = 25.to(100).oneOf()
    nondet odd = 0.to(29).oneOf()
    // some leave what they can to the declared defaults
    nondet plain = 0.to(5).oneOf()
    val supply = milli(sup * 100)
    val storage = supply + milli(sto * 100)
    // triggers never above the storage temperature
    val ctl0 = { onH: cent(onH), onT: min2(storage, supply + milli(onT * 100)), offH: cent(max2(0, onH - dH)),
                 offT: max2(supply, storage + milli(offT * 100)), outT: storage }
    val shedC = { ...ctl0, onH: cent(onH + shH), onT: min2(storage, ctl0.onT + milli(shT * 100)) }
    val luC = { ...ctl0, onH: cent(onH / 2), onT: ctl0.onT, offH: cent(max2(0, onH / 2 - dH)), offT: storage }
    val m = if (ls == 0) (if (cm == 0) Map() else if (cm == 1) Map("normal" -> ctl0) else Map("day" -> ctl0, "night" -> { ...ctl0, onH: if (odd % 2 == 0) cent(onH + 7) else cent(max2(2, onH - 3)) }))
            else if (luMode == 0) Map("normal" -> ctl0, "shed" -> shedC)
            else Map("normal" -> ctl0, "shed" -> shedC, "loadUp" -> luC)
    val x = { kind: kind, daily: toFx(daily), peak: weights(pm, pk), avg: weights(am, ak), inlet: milli(inl * 100),
              supply: supply, storage: storage, runHr: if (plain == 0) DEFAULTS.get(kind).runHr else if (pk == 6 and rOdd < 15) toFx(16) else cent(25 * rh - (if (rOdd > 20) rOdd - 20 else 0)), defrost: if (plain == 0) S else milli(df), slope: if (plain < 2) DEFAULTS.get(kind).slope else cent(sl), ctl: m,
              sched: if (ls == 0) (if (two) [] else range(0, 24).foldl([], (l, h) => l.append("normal"))) else sched(1, s0, sLen, if (luMode == 0) 0 else lu, two),
              fract: if (plain == 0 and ls == 0) S else fractOf(p), gpm: if (kind == "swing" and odd > 24) cent(5 * gpm) else cent(gpm), ret: supply - milli(drop * 100),
              // now and then a loop setting at or beyond its limit
              sf: if (plain == 0) DEFAULTS.get(kind).sf else if (kind == "parallel" and odd == 1) S else if (kind == "parallel" and odd == 2) cent(85) else if (kind == "parallel" and odd == 3) S + 3 * cent(ot) else if (kind == "parallel") cent(min2(sf, 85 + 3 * ot)) else cent(sf),
              tmOn: supply + milli(tmB * 100),
              tmOff: if (odd == 4) supply + milli(tmB * 100) else if (odd == 5) supply + milli((tmB - tmW) * 100) else supply + milli((tmB + tmW) * 100),
              offTime: if (plain == 0) DEFAULTS.get(kind).offTime else if (odd == 6) 0 else if (odd == 7) 0 - cent(ot) else if (odd == 8) S else if (odd == 9) S + cent(ot) else cent(ot) }
    all { c' = x, pct' = p, r' = sizeOf(x) }
  }
  action init = pick
  action step = pick
  action keep = all { c' = c, pct' = pct, r' = r }

  // ---- what a size must be for ------------------------------------------------------------
  pure val EPS = 1000000     // 1e-6
  // capacity makes exactly the design day's heat (and the loop's) in the allowed hours
  val capacityCoversDay = (not(r.ok) or c.kind == "swing") or
    near(mul(mul(r.baseCap, runOf(c)), c.defrost) * 1000,
         mul(mul(c.daily, RHOCP), c.supply - c.inlet) + (if (c.kind == "sprtp") 24000 * lossK(c) else 0), 1000 * EPS)
  // a reservoir of the running volume, full at any hour, refilled at the heating rate, never runs dry ...
  pure def lowest(vol: int, surplus: List[int], s: int): int =
    range(0, 48).foldl({ level: vol, low: vol }, (a, k) => {
      val x = min2(vol, a.level + surplus[(s + k) % 24])
      { level: x, low: min2(a.low, x) } }).low
  val neverDry = (not(r.ok) or c.kind == "swing") or 0.to(23).forall(s => lowest(r.running, surplusOf(c), s) >= -EPS)
  // ... and any smaller one does
  val noSmaller = (not(r.ok) or c.kind == "swing" or r.running <= EPS) or
    0.to(23).exists(s => lowest(r.running - EPS, surplusOf(c), s) < 0)
  val dryDayNeedsNone = r.running >= 0
  val shiftNeverLess = r.cap >= r.baseCap and r.sto >= r.baseSto
  val storageHoldsRunning = not(r.ok) or r.running == 0 or near(mul(r.baseSto, stratFactor(c)), r.running, EPS)
  // between load-up and shed sensors the tank holds the first shed window's covered demand
  val shiftCarriesShed = (not(r.ok) or not(shifting(c)) or lsBand(c) <= 0 or c.kind == "swing") or
    mul(r.sto, lsBand(c)) >= lsShift(c) - EPS
  val shiftMakesDay = (not(r.ok) or not(shifting(c)) or c.kind == "swing") or
    mul(mul(r.cap, c.defrost), toFx(nonShed(c))) * 1000 >= mul(mul(c.daily, RHOCP), c.supply - c.inlet) - 1000 * EPS
  // the sized reservoir between the two sensors survives the shifted day, every day
  val inv = and { capacityCoversDay, neverDry, noSmaller, dryDayNeedsNone, shiftNeverLess, storageHoldsRunning, shiftCarriesShed, shiftMakesDay }
}

module sizingPrimary { import sizingMachine(KINDS = Set("primary"), LS = Set(0)).* from "./sizing" }
module sizingShift { import sizingMachine(KINDS = Set("primary"), LS = Set(1)).* from "./sizing" }
module sizingRtp { import sizingMachine(KINDS = Set("sprtp"), LS = Set(0, 1)).* from "./sizing" }
module sizingParallel { import sizingMachine(KINDS = Set("parallel"), LS = Set(0, 1)).* from "./sizing" }
module sizingSwing { import sizingMachine(KINDS = Set("swing"), LS = Set(0, 1)).* from "./sizing" }
