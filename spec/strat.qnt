// Stratified tank: a hot layer, a linear ramp of fixed slope, a cold layer.
//
// The whole profile is one number: `base`, the height-0 value of the ramp line
//     line(x) = base + slope * x          (x in percent of tank height)
//     T(x)    = clamp(inlet, outlet, line(x))
// Moving g gallons of hot water in (or out) shifts the line by slope*100*g/vol.
module strat {
  import fixed.* from "./fixed"

  type Strat = { vol: int, slope: int, inlet: int, outlet: int, base: int }

  pure val PCT = 100 * S
  // degF of line shift per gallon
  pure def perGal(t: Strat): int = if (t.vol <= 0) 0 else t.slope * 100 * S / t.vol

  pure def initStrat(vol: int, slope: int, hot: int, cold: int, useable: int): Strat = {
    vol: vol, slope: slope, inlet: cold, outlet: hot,
    // the ramp leaves the cold temperature at height (1 - useable)
    base: cold - mul(slope, mul(S - useable, PCT))
  }

  pure def lineAt(t: Strat, x: int): int = t.base + mul(t.slope, x)
  // (a tank of no volume stores nothing: it reads as the water coming in)
  pure def tempAt(t: Strat, fract: int): int =
    if (t.vol <= 0) t.inlet else max2(t.inlet, min2(t.outlet, lineAt(t, mul(fract, PCT))))

  // gallons at or above `supply`, read off the line
  pure def usable(t: Strat, supply: int): int = {
    val x = clamp(0, PCT, dv(supply - t.base, t.slope))
    mul(dv(PCT - x, PCT), t.vol)
  }

  pure def xCold(t: Strat): int = clamp(0, PCT, dv(t.inlet - t.base, t.slope))
  pure def xHot(t: Strat): int = clamp(0, PCT, dv(t.outlet - t.base, t.slope))

  // integral of T over heights [x0, 100%]  (degF * percent)
  pure def integralAbove(t: Strat, x0: int): int = {
    val xc = xCold(t)
    val xh = xHot(t)
    val cold = mul(t.inlet, max2(0, xc - x0))
    val a = max2(x0, xc)
    val b = min2(PCT, xh)
    val ramp = if (b > a) mul(b - a, (lineAt(t, a) + lineAt(t, b)) / 2) else 0
    val hot = mul(t.outlet, max2(0, PCT - max2(x0, xh)))
    cold + ramp + hot
  }

  // mean temperature of the top `gal` gallons
  pure def avgTop(t: Strat, gal: int): int = {
    val g = min2(gal, t.vol)
    if (g <= 0) t.outlet else {
      val x0 = max2(0, PCT - muldiv(g, PCT, t.vol))
      if (PCT - x0 <= 0) t.outlet else dv(integralAbove(t, x0), PCT - x0)
    }
  }

  pure def shiftGal(t: Strat, gal: int): Strat = { ...t, base: t.base + mul(gal, perGal(t)) }
  // the line may not fall below `low` at the top of the tank
  pure def floorTop(t: Strat, low: int): Strat =
    { ...t, base: max2(t.base, low - 100 * t.slope) }

  // Gallons q of ramp water, starting d0 degrees above cold and cooling g degrees per
  // gallon, whose surplus heat is `need` (degF*gal): d0*q - g*q*q/2 = need.
  pure def rampGallons(d0: int, g: int, need: int): int =
    range(0, 60).foldl(0, (q, _) => {
      val f = mul(d0, q) - mul(mul(g, q), q) / 2
      val slopeQ = d0 - mul(g, q)
      if (f >= need or slopeQ <= 0) q else q + dv(need - f, slopeQ)
    })

  // Physical gallons whose heat above `cold` equals the demand
  // (at most the whole tank, unless the whole tank is at outlet temperature).
  pure def drawnGallons(t: Strat, v: int, cold: int, supply: int): int = {
    val need = mul(v, supply - cold)
    val dOut = t.outlet - cold
    val standard = dv(need, dOut)
    val hotGal = mul(dv(PCT - xHot(t), PCT), t.vol)
    // hot throughout, to a millionth of a degree on average
    if (avgTop(t, standard) >= t.outlet - S / 1000000) standard
    else {
      val rest = need - mul(hotGal, dOut)
      val d0 = min2(t.outlet, lineAt(t, PCT)) - cold
      val rampGal = mul(dv(max2(0, xHot(t) - xCold(t)), PCT), t.vol)
      val g = perGal(t)
      val rampHeat = mul(d0, rampGal) - mul(mul(g, rampGal), rampGal) / 2
      if (d0 <= 0 or rampHeat <= rest) t.vol
      else min2(t.vol, hotGal + rampGallons(d0, g, rest))
    }
  }

  pure def drawStrat(t0: Strat, v: int, cold: int, supply: int, outlet: int): Strat = {
    val t = { ...t0, inlet: cold, outlet: outlet }
    if (outlet <= cold or v <= 0) t
    else floorTop(shiftGal(t, -drawnGallons(t, v, cold, supply)), supply)
  }

  pure def heatStrat(t0: Strat, kbtuh: int, durMin: int, outlet: int): Strat = {
    val t = { ...t0, outlet: outlet }
    if (kbtuh <= 0 or outlet <= t.inlet) t
    else {
      val gal = dv(1000 * kbtuh * durMin / 60, mul(RHOCP, outlet - t.inlet))
      val u = shiftGal(t, gal)
      { ...u, base: min2(u.base, outlet) }
    }
  }

  // loop water leaves at tSupply and returns at ret
  pure def recircStrat(t: Strat, gpm: int, ret: int, durMin: int, tSupply: int): Strat =
    if (t.outlet <= t.inlet) t
    else shiftGal(t, -muldiv(gpm * durMin, tSupply - ret, t.outlet - t.inlet))

  pure def drawPhysStrat(t0: Strat, gal: int, inlet: int, low: int): Strat = {
    val t = { ...t0, inlet: inlet }
    if (gal <= 0) t else floorTop(shiftGal(t, -gal), low)
  }
}

// State machine over one tank: any history of operations.
module stratMachine {
  import fixed.* from "./fixed"
  import strat.*

  type Obs = { temps: List[int], usable: int, avg: List[int] }

  var tank: Strat
  var prev: Strat
  var supply: int
  var ev: { op: str, a: List[int] }
  var obs: Obs

  pure val FRACS = [0, 50, 100, 200, 250, 300, 400, 500, 600, 700, 750, 800, 900, 950, 1000]
  pure val AVGS = [10, 100, 350, 800, 1000, 1300]   // thousandths of the volume

  pure def observe(t: Strat, sup: int): Obs = {
    temps: FRACS.foldl(List(), (l, f) => l.append(tempAt(t, milli(f)))),
    usable: usable(t, sup),
    avg: AVGS.foldl(List(), (l, f) => l.append(avgTop(t, mul(milli(f), t.vol)))),
  }

  action become(t: Strat, sup: int, op: str, args: List[int]): bool = all {
    tank' = t, supply' = sup, prev' = tank, ev' = { op: op, a: args }, obs' = observe(t, sup),
  }

  action init = {
    nondet volG = 20.to(6000).oneOf()
    nondet slopeC = Set(80, 100, 170, 280, 280, 500, 1200).oneOf()
    nondet coldT = 340.to(750).oneOf()
    nondet supT = 1050.to(1350).oneOf()
    nondet hotT = 0.to(550).oneOf()
    nondet usePct = 0.to(100).oneOf()
    val t = initStrat(toFx(volG), cent(slopeC), milli((supT + hotT) * 100), milli(coldT * 100), cent(usePct))
    all {
      tank' = t, prev' = t, supply' = milli(supT * 100),
      ev' = { op: "init", a: [t.vol, t.slope, t.outlet, t.inlet, cent(usePct)] },
      obs' = observe(t, milli(supT * 100)),
    }
  }

  action doDraw(permille: int, coldStep: int, outStep: int): bool = {
    val cold = clamp(toFx(33), toFx(78), tank.inlet + milli(coldStep * 100))
    val out = clamp(supply, toFx(195), tank.outlet + milli(outStep * 100))
    val v = muldiv(tank.vol, permille, 1000)
    become(drawStrat(tank, v, cold, supply, out), supply, "draw", [v, cold, supply, out])
  }
  action doHeat(kbtuh: int, dur: int, outStep: int): bool = {
    val out = clamp(supply, toFx(195), tank.outlet + milli(outStep * 100))
    become(heatStrat(tank, kbtuh, dur, out), supply, "heat", [kbtuh, dur, out])
  }
  action doRecirc(gpmC: int, dropT: int, dur: int, useSupply: bool): bool = {
    val ts = if (useSupply) supply else tank.outlet
    val ret = ts - milli(dropT * 100)
    become(recircStrat(tank, cent(gpmC), ret, dur, ts), supply, "recirc",
           [cent(gpmC), ret, dur, if (useSupply) supply else -1])
  }
  action doPhys(permille: int, coldStep: int, useSupply: bool): bool = {
    val cold = clamp(toFx(33), toFx(78), tank.inlet + milli(coldStep * 100))
    val g = muldiv(tank.vol, permille, 1000)
    become(drawPhysStrat(tank, g, cold, if (useSupply) supply else cold), supply, "phys",
           [g, cold, if (useSupply) supply else -1])
  }
  action doReinit(usePct: int, dOut: int, dIn: int): bool = {
    val out = clamp(supply, toFx(195), tank.outlet + toFx(dOut))
    val inl = clamp(toFx(33), toFx(78), tank.inlet + toFx(dIn))
    become(initStrat(tank.vol, tank.slope, out, inl, cent(usePct)), supply,
           "init", [tank.vol, tank.slope, out, inl, cent(usePct)])
  }

  action step = any {
    { nondet p = 0.to(60).oneOf()
      nondet c = Set(0, 0, 0, 0, -37, 25).oneOf()
      doDraw(p, c, 0) },
    { nondet p = Set(0, 1, 5, 100, 250, 400, 700, 1000, 1200, 2500).oneOf()
      nondet c = Set(0, 0, -120, 80).oneOf()
      nondet o = Set(0, 0, 0, -100, 60).oneOf()
      doDraw(p, c, o) },
    { nondet k = 0.to(2000).oneOf()
      nondet d = Set(1, 10, 15, 60).oneOf()
      nondet o = Set(0, 0, 0, 0, -80, 120).oneOf()
      doHeat(mul(toFx(k), tank.vol) / 1000, d, o) },
    { nondet p = Set(1, 2, 5).oneOf()                 // a trickle
      nondet phys = Set(true, false).oneOf()
      val v = cent(p) / 8
      if (phys) become(drawPhysStrat(tank, v, tank.inlet, supply), supply, "phys", [v, tank.inlet, supply])
      else become(drawStrat(tank, v, tank.inlet, supply, tank.outlet), supply, "draw", [v, tank.inlet, supply, tank.outlet]) },
    { nondet k = Set(0, -5, 40, 20000).oneOf()
      nondet d = Set(1, 10).oneOf()
      nondet o = Set(0, -90, 70).oneOf()               // another outlet, heated or not
      doHeat(toFx(k), d, o) },
    { nondet f = 0.to(4000).oneOf()
      nondet r = 0.to(250).oneOf()
      nondet d = Set(1, 10, 60).oneOf()
      nondet u = Set(true, false).oneOf()
      doRecirc(f, r, d, u) },
    { nondet p = Set(0, 3, 20, 150, 600, 1100).oneOf()
      nondet c = Set(0, 0, -60, 45).oneOf()
      nondet u = Set(true, false).oneOf()
      doPhys(p, c, u) },
    { nondet u = 0.to(100).oneOf()
      nondet o = Set(0, 7, -6).oneOf()
      nondet i = Set(0, 4, -5).oneOf()
      doReinit(u, o, i) },
  }

  // ---- properties checked on the model ------------------------------------------------
  val monotone = 0.to(13).forall(i => obs.temps[i] <= obs.temps[i + 1])
  val bounded = 0.to(14).forall(i => obs.temps[i] >= tank.inlet and obs.temps[i] <= max2(tank.inlet, tank.outlet))
  // usable volume is the part of the profile at or above supply
  val usableIsProfile = tank.outlet < supply or tank.inlet >= supply or and {
    obs.usable >= 0, obs.usable <= tank.vol,
    0.to(14).forall(i => {
      val inside = mul(S - milli(FRACS[i]), tank.vol)       // gallons above this height
      and { obs.temps[i] >= supply implies obs.usable >= inside - 1000,
            obs.temps[i] < supply - 1000 implies obs.usable <= inside + 1000 }
    })
  }
  // deeper draws are never hotter on average
  val avgDecreases = 0.to(4).forall(i => obs.avg[i] + 10 >= obs.avg[i + 1])
  // heating never cools, drawing never warms (same boundary temperatures)
  val heatWarms = (ev.op == "heat" and prev.outlet == tank.outlet) implies
    (tank.base >= prev.base or tank.base == tank.outlet)
  val heatCapped = ev.op == "heat" implies (ev.a[0] <= 0 or tank.outlet <= tank.inlet or tank.base <= tank.outlet)
  val drawCools = (ev.op == "draw" and ev.a[0] > 0 and prev.base >= supply - 100 * prev.slope) implies tank.base <= prev.base
  // the water drawn carries exactly the demanded heat whenever the tank can supply it
  val drawBalance = (ev.op == "draw" and ev.a[0] > 0) implies {
    val before = { ...prev, inlet: tank.inlet, outlet: tank.outlet }
    val g = drawnGallons(before, ev.a[0], tank.inlet, supply)
    val need = mul(ev.a[0], supply - tank.inlet)
    (g >= before.vol) or near(mul(g, avgTop(before, g) - tank.inlet), need, S / 100000 + g / 900000)
  }
  val heatBalance = (ev.op == "heat" and ev.a[0] > 0 and tank.base < tank.outlet and tank.outlet > tank.inlet) implies {
    val gal = dv(tank.base - prev.base, perGal(tank))
    near(mul(gal, mul(RHOCP, tank.outlet - tank.inlet)), 1000 * ev.a[0] * ev.a[1] / 60, S / 100)
  }
  val inv = and { monotone, bounded, usableIsProfile, avgDecreases, heatWarms, heatCapped, drawCools, drawBalance, heatBalance }
}
