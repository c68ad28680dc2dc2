// Energy-tracked tank and its multi-pass variant with a mixed "slug" at the bottom.
//
// The state is the heat e (BTU above the cold baseline) held in the zone above the cold
// inlet (heights coldPct..100).  The temperature profile is the one ramp of slope `slope`
// between cold and hot that holds exactly that heat.  While a heating cycle runs (act),
// the bottom of the zone is a mixed slug of sv gallons at st; the water above it is what
// the frozen profile had there, pushed up by the gallons the slug has gained since.
module etank {
  import fixed.* from "./fixed"
  type ET = { vol: int, slope: int, cold: int, hot: int, coldPct: int, e: int,
              act: bool, sv: int, st: int, ov: int }
  pure val H = 100 * S

  pure def maxUsable(t: ET): int = mul(t.vol, H - t.coldPct) / 100
  pure def fullE(t: ET): int = max2(0, mul(mul(maxUsable(t), RHOCP), t.hot - t.cold))
  pure def ramp(t: ET): int = dv(t.hot - t.cold, t.slope)
  pure def sq(x: int): int = mul(x, x)

  // heat held by the ramp profile shifted by s percent of height
  pure def heatAt(t: ET, s: int): int =
    if (t.hot <= t.cold) 0 else {
      val a = max2(t.coldPct, min2(H, -s))
      val b = max2(t.coldPct, min2(H, ramp(t) - s))
      val i = mul(t.slope, sq(b + s) - sq(a + s)) / 2 + mul(t.hot - t.cold, H - b)
      mul(mul(RHOCP, t.vol), i) / 100
    }
  // the shift that holds e (bisection: heatAt is increasing)
  pure def shiftFor(t: ET, e: int): int =
    if (t.hot <= t.cold) 0
    else if (e <= 0) -H
    else if (e >= fullE(t)) ramp(t)
    else {
      val r = range(0, 18).foldl({ lo: -H, hi: ramp(t) }, (acc, i) => {
        val m = (acc.lo + acc.hi) / 2
        if (heatAt(t, m) < e) { ...acc, lo: m } else { ...acc, hi: m }
      })
      range(0, 6).foldl((r.lo + r.hi) / 2, (s, i) => clamp(r.lo, r.hi, s + newton(t, s, e)))
    }
  // a Newton step: the heat grows with the shift by the width of the ramp inside the zone
  pure def newton(t: ET, s: int, e: int): int = {
    val w = max2(t.coldPct, min2(H, ramp(t) - s)) - max2(t.coldPct, min2(H, -s))
    val d = mul(mul(mul(RHOCP, t.vol), t.slope), w) / 100
    if (d <= 0) 0 else dv(e - heatAt(t, s), d)
  }
  pure def shiftOf(t: ET): int = shiftFor(t, t.e)

  pure def profileAt(t: ET, s: int, x: int): int =
    if (x < t.coldPct) t.cold else max2(t.cold, min2(t.hot, mul(t.slope, x + s) + t.cold))

  // mean temperature between two heights of the profile
  pure def zoneMean(t: ET, s: int, lo: int, hi: int): int =
    if (hi <= lo) t.cold else {
      val xc = clamp(0, H, -s)
      val xh = clamp(0, H, ramp(t) - s)
      val coldI = mul(t.cold, max2(0, min2(hi, xc) - lo))
      val a = max2(lo, xc)
      val b = min2(hi, xh)
      val midI = if (b > a) mul(t.slope, sq(b + s) - sq(a + s)) / 2 + mul(t.cold, b - a) else 0
      val hotI = mul(t.hot, max2(0, hi - max2(lo, xh)))
      dv(coldI + midI + hotI, hi - lo)
    }

  pure def pct(t: ET, gal: int): int = 100 * dv(gal, t.vol)
  pure def slugTop(t: ET): int = if (t.sv >= maxUsable(t)) H else min2(H, t.coldPct + pct(t, t.sv))
  pure def growth(t: ET): int = pct(t, t.sv - t.ov)

  pure def tempAt(t: ET, s: int, x: int): int =
    if (not(t.act)) profileAt(t, s, x)
    else if (x < t.coldPct) t.cold
    else if (x <= slugTop(t)) max2(t.cold, min2(t.hot, t.st))
    else profileAt(t, s, x - growth(t))

  // mean temperature of the top g gallons
  pure def topMean(t: ET, s: int, g: int): int =
    if (g <= 0) t.hot
    else if (not(t.act)) zoneMean(t, s, max2(0, H - pct(t, min2(g, t.vol))), H)
    else {
      val d = pct(t, g)
      val top = H - growth(t)
      if (H - d >= slugTop(t)) zoneMean(t, s, top - d, top)
      else {
        val above = H - slugTop(t)
        dv(mul(zoneMean(t, s, top - above, top), above) + mul(t.st, d - above), d)
      }
    }

  pure def usableE(t: ET, s: int, supply: int): int =
    if (t.act) (maxUsable(t) - t.sv) + (if (t.st >= supply) t.sv else 0)
    else min2(maxUsable(t), mul(t.vol, H - clamp(0, H, dv(supply - t.cold, t.slope) - s)) / 100)

  // ---- operations -----------------------------------------------------------------
  pure def initE(t: ET, hot: int, cold: int, useable: int): ET = {
    val u = { ...t, hot: hot, cold: cold, act: false, sv: 0, st: cold, ov: 0 }
    { ...u, e: heatAt(u, 100 * (useable - S)) }
  }
  // multi-pass: `useable` of the tank is at or above supply
  pure def initSlug(t: ET, hot: int, cold: int, useable: int, supply: int): ET = {
    val u = { ...t, hot: hot, cold: cold, act: false, sv: 0, st: cold, ov: 0 }
    if (hot <= cold or useable <= 0) { ...u, e: 0 }
    else { ...u, e: clamp(0, fullE(u), heatAt(u, dv(supply - cold, u.slope) - 100 * (S - useable))) }
  }
  pure def btu(kbtuh: int, durMin: int): int = 1000 * kbtuh * durMin / 60
  pure def addHeat(t: ET, b: int): ET = if (b <= 0) t else { ...t, e: min2(t.e + b, fullE(t)) }
  pure def heatE(t: ET, kbtuh: int, durMin: int, outlet: int): ET =
    if (kbtuh <= 0 or outlet <= t.cold) t else addHeat(t, btu(kbtuh, durMin))
  pure def drawE(t: ET, v: int, cold: int, supply: int): ET = {
    val u = { ...t, cold: cold }
    if (v <= 0 or supply <= cold) u else { ...u, e: max2(0, u.e - mul(mul(v, RHOCP), supply - cold)) }
  }
  pure def recircE(t: ET, gpm: int, ret: int, durMin: int, supply: int): ET =
    { ...t, e: max2(0, t.e - mul(mul(gpm * durMin, RHOCP), supply - ret)) }
  pure def activate(t: ET, supply: int): ET = if (t.act) t else activateS(t, shiftOf(t), supply)
  pure def activateS(t: ET, s: int, supply: int): ET =
    if (t.act) t else {
      val x = clamp(t.coldPct, H, dv(supply - t.cold, t.slope) - s)
      val v = if (x >= H) maxUsable(t) else mul(t.vol, x - t.coldPct) / 100
      { ...t, act: true, sv: v, ov: v, st: if (v > 0) zoneMean(t, s, t.coldPct, x) else t.cold }
    }
  pure def growSlug(t: ET, g: int, inlet: int): ET =
    if (not(t.act) or g <= 0) t
    else if (t.sv <= 0) { ...t, sv: g, st: inlet }
    else { ...t, sv: t.sv + g, st: (t.sv * t.st + g * inlet) / (t.sv + g) }
  pure def heatSlug(t: ET, kbtuh: int, durMin: int): ET =
    if (not(t.act) or t.sv <= 0 or kbtuh <= 0) t
    else { ...t, st: t.st + dv(btu(kbtuh, durMin), mul(t.sv, RHOCP)) }
  pure def physE(t: ET, g: int, inlet: int, upd: bool): ET = {
    val u = if (upd and not(t.act)) { ...t, cold: inlet } else t
    physS(u, if (u.act) 0 else shiftOf(u), g, inlet)
  }
  // the same with the profile's shift known
  pure def physS(t: ET, s: int, g: int, inlet: int): ET =
    if (t.act) {
      val avail = max2(0, maxUsable(t) - t.sv)
      if (g <= 0) t
      else if (avail < g) { val r = growSlug({ ...t, sv: t.sv - (g - avail) }, g, inlet)
                            { ...r, sv: maxUsable(t) } }
      else growSlug(t, g, inlet)
    } else if (g <= 0) t
      else { ...t, e: max2(0, t.e - mul(mul(g, RHOCP), max2(0, topMean(t, s, g) - inlet))) }
  // heat in the tank above the baseline, slug and water above it together
  pure def total(t: ET): int = totalS(t, if (t.act) shiftOf(t) else 0)
  pure def totalS(t: ET, s: int): int =
    if (not(t.act)) clamp(0, fullE(t), t.e)
    else {
      val above = H - slugTop(t)
      val top = H - growth(t)
      mul(mul(t.sv, RHOCP), t.st - t.cold)
        + mul(mul(max2(0, maxUsable(t) - t.sv), RHOCP), zoneMean(t, s, top - above, top) - t.cold)
    }
  pure def deactivate(t: ET): ET = if (not(t.act)) t else deactivateS(t, shiftOf(t))
  pure def deactivateS(t: ET, s: int): ET =
    if (not(t.act)) t else {
      val slugE = max2(0, mul(mul(t.sv, RHOCP), t.st - t.cold))
      val above = H - slugTop(t)
      val top = H - growth(t)
      val aboveE = if (above <= 0) 0 else
        max2(0, mul(mul(max2(0, maxUsable(t) - t.sv), RHOCP), zoneMean(t, s, top - above, top) - t.cold))
      { ...t, e: slugE + aboveE, act: false, sv: 0, ov: 0, st: t.cold }
    }
}

module etankMachine {
  import fixed.* from "./fixed"
  import etank.*

  var tank: ET
  var prev: ET
  var slugged: bool            // multi-pass tank
  var supply: int
  var ev: { op: str, a: List[int] }
  // readings: heights, and bounds of the temperature there given the energy tolerance
  var rd: { x: List[int], lo: List[int], hi: List[int], g: int, gLo: int, gHi: int, uLo: int, uHi: int, mix: int }
  var err: int                 // bound of the numerical error an implementation may have accumulated

  pure val XS = [0, 3, 11, 20, 27, 40, 55, 60, 71, 80, 93, 100]
  pure def readings(t: ET, sup: int, n: int, gp: int): { x: List[int], lo: List[int], hi: List[int], g: int, gLo: int, gHi: int, uLo: int, uHi: int, mix: int } = {
    val tol = n + max2(t.e, S) / 400000
    val sL = shiftFor(t, clamp(0, fullE(t), t.e) - tol)
    val sH = shiftFor(t, clamp(0, fullE(t), t.e) + tol)
    val g = mul(maxUsable(t), milli(gp))
    { x: XS.foldl([], (acc, x) => acc.append(toFx(x))),
      lo: XS.foldl([], (acc, x) => acc.append(tempAt(t, sL, toFx(x)))),
      hi: XS.foldl([], (acc, x) => acc.append(tempAt(t, sH, toFx(x)))),
      g: g, gLo: topMean(t, sL, g), gHi: topMean(t, sH, g),
      uLo: usableE(t, sL, sup), uHi: usableE(t, sH, sup),
      mix: if (t.act) slugTop(t) else -S }
  }
  action become(t: ET, op: str, a: List[int]): bool = {
    nondet gp = Set(0, 20, 150, 400, 700, 1000).oneOf()
    val er = if (op == "reinit") 0
             else if (op == "phys" and not(tank.act) or op == "on" or op == "off") err + max2(tank.e, S) / 400000
             else err
    all { tank' = t, prev' = tank, ev' = { op: op, a: a }, rd' = readings(t, supply, er, gp), err' = er,
          slugged' = slugged, supply' = supply }
  }

  action init = {
    nondet v = 30.to(3000).oneOf()
    nondet sl = Set(50, 80, 80, 120, 170, 280, 450).oneOf()
    nondet hot = 1300.to(1700).oneOf()
    nondet cold = 380.to(700).oneOf()
    nondet sup = 1150.to(1290).oneOf()
    nondet kind = Set(false, true).oneOf()
    nondet pu = Set(100, 95, 85, 70).oneOf()
    nondet iu = Set(0, 5, 20, 60, 85, 100).oneOf()
    val cp = if (kind) toFx(100 - pu) else 0
    val t0 = { vol: toFx(v), slope: cent(sl), cold: milli(cold * 100), hot: milli(hot * 100), coldPct: cp, e: 0,
               act: false, sv: 0, st: 0, ov: 0 }
    val t = if (kind) initSlug(t0, t0.hot, t0.cold, cent(iu), milli(sup * 100)) else initE(t0, t0.hot, t0.cold, cent(iu))
    all { tank' = t, prev' = t, slugged' = kind, supply' = milli(sup * 100), err' = 0,
          ev' = { op: "init", a: [t.vol, t.slope, t.hot, t.cold, t.coldPct, cent(iu), milli(sup * 100)] },
          rd' = readings(t, milli(sup * 100), 0, 300) }
  }

  // a heating cycle is only started where the profile fixes the slug's size sharply
  val wellPlaced = {
    val s = shiftOf(tank)
    val x = dv(supply - tank.cold, tank.slope) - s
    and { tank.e > fullE(tank) / 200, x > tank.coldPct + S, x < H - S / 2 or x > H + S,
          tank.e <= fullE(tank) - fullE(tank) / 50 }
  }
  val coldTank = tank.e == 0

  action heatOp = { nondet p = Set(-1, 0, 1, 5, 20, 60, 200).oneOf()
      nondet d = Set(1, 10, 15).oneOf()
      nondet o = Set(0, 1).oneOf()
      val k = muldiv(fullE(tank), p, 60000)        // kBTU/hr relative to the tank
      val out = if (o == 1) tank.hot else tank.cold
      become(heatE(tank, k, d, out), "heat", [k, d, out]) }
  action drawOp = { nondet p = Set(-1, 0, 2, 15, 60, 200).oneOf()
      nondet dc = Set(0, 0, 0, -3, 2).oneOf()
      nondet warm = Set(false, false, false, true).oneOf()
      nondet tiny = Set(false, false, false, false, true).oneOf()
      val v = if (tiny and p > 0) cent(p) / 15 else muldiv(tank.vol, p, 1000)
      val c = if (warm) supply else clamp(toFx(35), toFx(75), tank.cold + toFx(dc))
      all { c <= toFx(75), become(drawE(tank, v, c, supply), "draw", [v, c, supply]) } }
  action recircOp = { nondet p = Set(0, 1, 4, 20).oneOf()
      nondet dt = 0.to(25).oneOf()
      nondet d = Set(1, 10).oneOf()
      nondet dflt = Set(0, 1).oneOf()
      val g = muldiv(tank.vol, p, 1000)
      val sup = if (dflt == 1) tank.hot else supply
      become(recircE(tank, g, sup - toFx(dt), d, sup), "recirc", [g, sup - toFx(dt), d, sup, dflt]) }
  action physOp = { nondet p = Set(0, 2, 15, 60, 300, 900).oneOf()
      nondet it = 0.to(60).oneOf()
      nondet upd = Set(0, 1).oneOf()
      nondet tiny = Set(false, false, false, false, true).oneOf()
      val g = if (tiny and p <= 15) cent(p) / 15 else muldiv(maxUsable(tank), p, 1000)
      val inl = if (upd == 1) clamp(toFx(35), toFx(75), tank.cold + toFx(it / 15 - 2)) else tank.cold + toFx(it)
      become(physE(tank, g, inl, upd == 1 and not(tank.act)), "phys", [g, inl, if (upd == 1 and not(tank.act)) 1 else 0]) }
  action addOp = { nondet p = Set(-10, 0, 1, 30, 300, 2000).oneOf()
      val b = muldiv(fullE(tank), p, 1000)
      become(addHeat(tank, b), "add", [b]) }
  action reinitOp = { nondet iu = Set(0, 5, 20, 60, 85, 100).oneOf()
      nondet dh = Set(0, -4, 6).oneOf()
      nondet dc = Set(0, 0, 5, -3).oneOf()
      val hot = clamp(toFx(130), toFx(172), tank.hot + toFx(dh))
      val cold = clamp(toFx(35), toFx(75), tank.cold + toFx(dc))
      val t = if (slugged) initSlug(tank, hot, cold, cent(iu), supply) else initE(tank, hot, cold, cent(iu))
      become(t, "reinit", [hot, cold, cent(iu)]) }
  action onOp = all { slugged, not(tank.act), wellPlaced or coldTank, become(activate(tank, supply), "on", [supply]) }
  action againOp = all { slugged, tank.act, become(activate(tank, supply), "on", [supply]) }
  action offOp = all { slugged, become(deactivate(tank), "off", []) }
  action heatSlugOp = all { slugged, { nondet p = Set(-1, 0, 3, 12, 40).oneOf()
      nondet d = Set(1, 10).oneOf()
      val k = muldiv(fullE(tank), p, 60000)
      become(heatSlug(tank, k, d), "heatslug", [k, d]) } }
  action growOp = all { slugged, { nondet p = Set(-5, 0, 5, 40).oneOf()
      nondet it = 0.to(60).oneOf()
      val g = muldiv(maxUsable(tank), p, 1000)
      all { tank.sv + g <= maxUsable(tank), become(growSlug(tank, g, tank.cold + toFx(it)), "grow", [g, tank.cold + toFx(it)]) } } }

  action step =
    if (tank.act) any { heatSlugOp, heatSlugOp, physOp, physOp, growOp, offOp, againOp, reinitOp }
    else any { heatOp, drawOp, recircOp, physOp, addOp, onOp, reinitOp, offOp, heatSlugOp, onOp, growOp }

  pure val TOL = S / 100
  pure def rel(t: ET): int = TOL + fullE(t) / 1000000000
  val sameCold = tank.cold == prev.cold
  val holdsItsHeat = not(tank.act) implies near(heatAt(tank, shiftOf(tank)), clamp(0, fullE(tank), tank.e), rel(tank))
  val withinRange = rd.lo.indices().forall(i => or { tank.act, and { rd.lo[i] >= tank.cold, rd.hi[i] <= tank.hot } })
  val warmerUp = tank.act or rd.lo.indices().forall(i => i == 0 or rd.lo[i] >= rd.lo[i - 1])
  val cyclesConserve = (ev.op == "on" or ev.op == "off") implies
    near(max2(0, total(tank)), min2(fullE(tank), max2(0, total(prev))), rel(tank) + (if (prev.act and prev.st > prev.hot) fullE(tank) else 0))
  val slugHeatKept = (ev.op == "heatslug" and prev.act and prev.sv > 0 and ev.a[0] > 0) implies
    near(total(tank) - total(prev), btu(ev.a[0], ev.a[1]), rel(tank))
  val slugDrawBalanced = (ev.op == "phys" and prev.act and ev.a[0] > 0) implies
    near(total(prev) - total(tank), mul(mul(ev.a[0], RHOCP), topMean(prev, shiftOf(prev), ev.a[0]) - ev.a[1]), rel(tank))
  val slugFits = tank.sv <= maxUsable(tank) + S / 1000000
  val inv = and { holdsItsHeat, withinRange, warmerUp, cyclesConserve, slugHeatKept, slugDrawBalanced, slugFits }
}
