// A whole system in a building, advanced one timestep at a time:
//   weather and demand of the step -> aquastats of every heater -> heating -> draw ->
//   (loop) -> record.  Kinds: "primary", "sprtp" (loop returns to the primary),
//   "parallel" (loop kept warm by its own mixed tank), "swing" (mixed tank in series).
module plant {
  import fixed.* from "./fixed"
  import strat.* from "./strat"
  import mixed.* from "./mixed"
  import climate.* from "./climate"
  import aquastat.nextOn from "./aquastat"

  // setpoints of a mode; sensor heights are fractions
  type Ctl = { onH: int, onT: int, offH: int, offT: int, outT: int }
  // output and power are linear in the conditions: v0 + v1*(oat-47) + v2*(outlet-130) + v3*(inlet-50)
  type Heater = { sched: List[str], ctl: str -> Ctl, cap: List[int], kw: List[int] }
  type Loc = { a: int, b: int, lo: int, span: int, base: int, m: int }
  type Loop = { gpm: int, ret: int, tmVol: int, tmOn: int, tmOff: int, tmCap: List[int], tmKw: List[int], num: int,
                // hours in which the loop heater's aquastat works this much lower; [] for none
                eco: List[bool], ecoBy: int }
  type Cfg = { kind: str, loc: Loc, daily: int, peak: List[int], avg: List[int], interval: int,
               supply: int, storage: int, vol: int, slope: int, heaters: List[Heater], loop: Loop,
               defThr: int, defMax: int }
  type St = { tank: Strat, on: List[bool], tm: Mixed, tmOn: bool }
  type Row = { demand: int, oat: int, inlet: int, mode: str, out: int, kw: int, usable: int, temps: List[int],
               tmTemp: int, tmOut: int, tmKw: int, delivery: int, margin: int, on: List[bool], tmIsOn: bool }
  // margin: how far (in degrees) the step's closest comparison was from going the other way,
  // exact ties of undisturbed sensor readings left out; a replay in floating point may only be excused where this is tiny
  pure val FAR = 1000 * S
  pure def tie(d: int): int = if (d == 0) FAR else if (d < 0) -d else d
  pure def nextMargin(on: bool, k: Ctl, tOn: int, tOff: int): int = tie(if (on) tOff - k.offT else tOn - k.onT)

  pure def oatAt(l: Loc, h: int): int = toFx(l.lo + (l.a * h + l.b * (h / 24) * (h / 24) + h * h * h) % l.span)
  pure def inletAt(l: Loc, m: int): int = l.base + toFx((l.m * (m + 1) * (m + 1)) % 37)
  pure def designInlet(l: Loc): int = range(0, 12).foldl(inletAt(l, 0), (x, m) => min2(x, inletAt(l, m)))

  pure def lin(k: List[int], oat: int, out: int, inl: int): int =
    k[0] + mul(k[1], oat - toFx(47)) + mul(k[2], out - toFx(130)) + mul(k[3], inl - toFx(50))

  pure def shifting(h: Heater): bool = "loadUp".in(h.ctl.keys()) or "shed".in(h.ctl.keys())
  pure def usesAvg(c: Cfg): bool = c.heaters.foldl(false, (x, h) => x or shifting(h))
  pure def ctlOf(h: Heater, hr: int): Ctl = h.ctl.get(h.sched[hr])

  pure def lowered(l: Loop, hr: int): int = if (l.eco.length() == 24 and l.eco[hr]) l.ecoBy else 0
  pure def tmOnAt(l: Loop, hr: int): int = l.tmOn - lowered(l, hr)
  pure def tmOffAt(l: Loop, hr: int): int = l.tmOff - lowered(l, hr)

  pure def startUseable(c: Cfg): int = S - c.heaters[0].ctl.get("normal").onH
  pure def startState(c: Cfg): St = {
    val cold = designInlet(c.loc)
    { tank: initStrat(c.vol, c.slope, c.storage, cold, startUseable(c)),
      on: c.heaters.foldl([], (l, h) => l.append(false)),
      tm: { vol: c.loop.tmVol, temp: c.loop.tmOff }, tmOn: false }
  }

  pure val NODES = [0, 200, 400, 600, 800, 1000]
  pure def nodeTemps(t: Strat): List[int] = NODES.foldl([], (l, f) => l.append(tempAt(t, milli(f))))
  pure def lossRate(c: Cfg): int = mul(mul(60 * c.loop.gpm, RHOCP), c.supply - c.loop.ret) / 1000

  // aquastats read the tank as the previous step left it
  pure def decide(c: Cfg, s: St, hr: int): List[bool] =
    range(0, c.heaters.length()).foldl([], (l, i) => {
      val k = ctlOf(c.heaters[i], hr)
      l.append(nextOn(s.on[i], { onH: 0, onT: k.onT, offH: 1, offT: k.offT, outT: k.outT },
                      [tempAt(s.tank, k.onH), tempAt(s.tank, k.offH)]))
    })
  pure def decideMargin(c: Cfg, s: St, hr: int): int =
    range(0, c.heaters.length()).foldl(FAR, (m, i) => {
      val k = ctlOf(c.heaters[i], hr)
      min2(m, nextMargin(s.on[i], k, tempAt(s.tank, k.onH), tempAt(s.tank, k.offH)))
    })
  pure def sumActive(c: Cfg, on: List[bool], hr: int, oat: int, inl: int, pick: (Heater) => List[int]): int =
    range(0, c.heaters.length()).foldl(0, (x, i) =>
      if (on[i]) x + lin(pick(c.heaters[i]), oat, ctlOf(c.heaters[i], hr).outT, inl) else x)
  pure def outletOf(c: Cfg, hr: int): int =
    c.heaters.foldl(ctlOf(c.heaters[0], hr).outT, (x, h) => max2(x, ctlOf(h, hr).outT))

  pure def stepPlant(c: Cfg, s: St, i: int): { st: St, rec: Row } = {
    val minute = minuteOf(i, c.interval)
    val hr = (minute / 60) % 24
    val demand = muldiv(mul(c.daily, (if (usesAvg(c)) c.avg else c.peak)[hr]), c.interval, 60)
    val oat = oatAt(c.loc, hourOfYear(minute))
    val inl = inletAt(c.loc, monthOf(dayOfYear(minute)))
    val outlet = outletOf(c, hr)
    val on = decide(c, s, hr)
    val out = sumActive(c, on, hr, oat, inl, h => h.cap)
    val kw = sumActive(c, on, hr, oat, inl, h => h.kw)
    val heated = heatStrat(s.tank, out, c.interval, outlet)
    val mode = c.heaters[0].sched[hr]
    if (c.kind == "swing") {
      val t0 = s.tm.temp
      val g = if (t0 > c.supply) muldiv(demand, c.supply - inl, t0 - inl) else demand
      val fed = displace(s.tm, g, avgTop(heated, g))
      val cooled = loseMixed(fed, lossRate(c), c.interval)
      val tmOn = nextOn(s.tmOn, { onH: 0, onT: tmOnAt(c.loop, hr), offH: 0, offT: tmOffAt(c.loop, hr), outT: c.loop.tmOff }, [cooled.temp])
      val tmOut = if (tmOn) c.loop.tmCap[0] else 0
      val tm = heatMixed(cooled, tmOut, c.interval)
      val tank = drawPhysStrat(heated, g, inl, c.supply)
      { st: { tank: tank, on: on, tm: tm, tmOn: tmOn },
        rec: { demand: demand, oat: oat, inlet: inl, mode: mode, out: out, kw: kw,
               usable: if (t0 < c.supply) 0 else usable(tank, c.supply), temps: nodeTemps(tank),
               tmTemp: tm.temp, tmOut: tmOut, tmKw: dv(tmOut, KBTU_PER_KW), delivery: tm.temp, on: on, tmIsOn: tmOn,
               margin: min2(min2(decideMargin(c, s, hr), tie(t0 - c.supply)),
                            min2(tie(tm.temp - (c.supply - c.defThr)), absI(cooled.temp - (if (s.tmOn) tmOffAt(c.loop, hr) else tmOnAt(c.loop, hr))))) } }
    } else {
      val drawn = drawStrat(heated, demand, inl, c.supply, outlet)
      val tank = if (c.kind == "sprtp") recircStrat(drawn, c.loop.gpm, c.loop.ret, c.interval, c.supply) else drawn
      val cooled = recircMixed(s.tm, c.loop.gpm, c.loop.ret, c.interval)
      val tmOn = nextOn(s.tmOn, { onH: 0, onT: tmOnAt(c.loop, hr), offH: 0, offT: tmOffAt(c.loop, hr), outT: c.loop.tmOff }, [cooled.temp])
      val mid = (c.loop.tmOn + c.loop.tmOff) / 2
      val tmOut = if (tmOn) c.loop.num * lin(c.loop.tmCap, oat, cooled.temp, mid) else 0
      val tmKw = if (tmOn) c.loop.num * lin(c.loop.tmKw, oat, cooled.temp, mid) else 0
      val par = c.kind == "parallel"
      val tm = if (par) heatMixed(cooled, tmOut, c.interval) else s.tm
      { st: { tank: tank, on: on, tm: tm, tmOn: par and tmOn },
        rec: { demand: demand, oat: oat, inlet: inl, mode: mode, out: out, kw: kw,
               usable: usable(tank, c.supply), temps: nodeTemps(tank),
               tmTemp: if (par) tm.temp else 0, tmOut: if (par) tmOut else 0, tmKw: if (par) tmKw else 0,
               delivery: tempAt(tank, S), on: on, tmIsOn: par and tmOn,
               margin: min2(min2(decideMargin(c, s, hr), tie(tempAt(tank, S) - (c.supply - c.defThr))),
                            if (par) absI(cooled.temp - (if (s.tmOn) tmOffAt(c.loop, hr) else tmOnAt(c.loop, hr))) else FAR) } }
    }
  }

  // run bookkeeping: outages, and stopping once delivery has been short for too long
  type Run = { st: St, recs: List[Row], i: int, outage: int, consec: int, stopped: bool, peakKw: int, kwh60: int }
  pure def advance(c: Cfg, r: Run): Run =
    if (r.stopped) r else {
      val n = stepPlant(c, r.st, r.i)
      val short = n.rec.delivery < c.supply - c.defThr
      val consec = if (short) r.consec + c.interval else 0
      val kwAll = n.rec.kw + n.rec.tmKw
      { st: n.st, recs: r.recs.append(n.rec), i: r.i + 1,
        outage: r.outage + (if (n.rec.usable <= 0) c.interval else 0),
        consec: consec, stopped: consec > c.defMax,
        peakKw: max2(r.peakKw, kwAll), kwh60: r.kwh60 + kwAll * c.interval }
    }
}

// Behaviours: a random system, run hour by hour.
module plantMachine {
  import fixed.* from "./fixed"
  import strat.* from "./strat"
  import mixed.* from "./mixed"
  import shapes.* from "./shapes"
  import plant.*

  const KINDS: Set[str]
  const INTERVAL: int
  const CHUNK: int

  var cfg: Cfg
  var run_: Run
  var prevSt: St

  action init = {
    nondet kind = KINDS.oneOf()
    nondet a = 1.to(97).oneOf()
    nondet b = 0.to(50).oneOf()
    nondet lo = 0.to(55).oneOf()
    nondet sp = 3.to(40).oneOf()
    nondet m = 1.to(36).oneOf()
    nondet daily = 100.to(4000).oneOf()
    nondet pk = Set(0, 1, 2, 3, 4).oneOf()
    nondet ak = Set(0, 1, 3, 4).oneOf()
    nondet pm = 0.to(23).setOfMaps(0.to(99)).oneOf()
    nondet am = 0.to(23).setOfMaps(0.to(99)).oneOf()
    nondet sup = 1150.to(1280).oneOf()
    nondet sto = 80.to(400).oneOf()
    nondet volP = 8.to(90).oneOf()
    nondet tankless = 0.to(24).oneOf()      // now and then a plant sized to no storage at all
    nondet sl = Set(170, 280, 280, 400).oneOf()
    nondet runHr = Set(8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 20, 22, 24, 26, 30, 40, 60, 90).oneOf()
    nondet nh = Set(1, 1, 2, 3).oneOf()
    nondet ls = Set(0, 0, 1).oneOf()
    nondet s0 = 0.to(23).oneOf()
    nondet sLen = 1.to(6).oneOf()
    nondet lu = 0.to(4).oneOf()
    nondet two = Set(true, false).oneOf()
    nondet onH = 15.to(60).oneOf()
    nondet dH = 0.to(14).oneOf()
    nondet onT = (-300).to(40).oneOf()
    nondet offT = Set(-250, -120, -50, -20, 0).oneOf()
    nondet coef = 0.to(3).setOfMaps((-20).to(20)).oneOf()
    nondet gpm = 20.to(600).oneOf()
    nondet drop = 40.to(200).oneOf()
    nondet tmB = 40.to(200).oneOf()
    nondet tmW = 30.to(120).oneOf()
    nondet tmC = Set(10, 40, 70, 90, 100, 110, 120, 130, 140, 150, 170, 190, 210, 250).oneOf()
    nondet tmV = 20.to(200).oneOf()
    nondet num = 1.to(3).oneOf()
    nondet eco = Set(0, 1, 2).oneOf()
    nondet e0 = 1.to(21).oneOf()
    nondet eLen = 2.to(10).oneOf()
    nondet eBy = Set(-40, -15, 25, 60, 120).oneOf()
    nondet dOut = Set(0, 0, 3, 8).oneOf()
    nondet dthr = Set(5, 10, 50, 50, 50, 120).oneOf()
    nondet dmax = Set(0, 5, 10, 10, 10, 30, 100000).oneOf()
    val supply = milli(sup * 100)
    val storage = supply + milli(sto * 100)
    val loc = { a: a, b: b, lo: lo, span: sp, base: toFx(40), m: m }
    val dl = toFx(daily)
    // a heating rate that makes the day's water in about runHr hours, split over the heaters
    val cap0 = mul(mul(dl, RHOCP), supply - toFx(50)) / 1000 / runHr / nh
    val base = { onH: cent(onH), onT: min2(storage - S / 2, supply + milli(onT * 100)), offH: cent(onH - dH), offT: storage + milli(offT * 100), outT: storage }
    val norm = { ...base, offT: max2(base.offT, base.onT + S / 2) }
    val shedC = { ...norm, onH: cent(min2(90, onH + 20)), offH: cent(onH) }
    val luC = { ...norm, onH: cent(onH / 2), offH: cent(onH / 3), offT: storage }
    // a load-up mode may store hotter water (outlet changes between hours)
    val ctl = if (ls == 0) Map("normal" -> norm) else Map("normal" -> norm, "shed" -> shedC,
                "loadUp" -> { ...luC, outT: if (two) storage + 5 * S else storage })
    val hs = range(0, nh).foldl([], (l, i) => l.append({
      sched: sched(ls, s0, sLen, lu, two),
      ctl: ctl.keys().mapBy(k => { ...ctl.get(k), onH: max2(cent(5), ctl.get(k).onH - cent(4 * i)), onT: ctl.get(k).onT - i * S,
                                  outT: ctl.get(k).outT - i * dOut * S }),
      cap: [cap0, muldiv(cap0, coef.get(0), 4000), muldiv(cap0, coef.get(1), 6000), muldiv(cap0, coef.get(2), 6000)],
      kw: [cap0 / 10, muldiv(cap0, coef.get(3), 40000), muldiv(cap0, coef.get(0), 60000), muldiv(cap0, coef.get(1), 60000)] }))
    val g = cent(gpm)
    val ret = supply - milli(drop * 100)
    val loss = mul(mul(60 * g, RHOCP), supply - ret) / 1000
    val tmCap0 = muldiv(loss, tmC, 100)
    val tmOn = if (kind == "swing") supply else supply + milli(tmB * 100)
    // the mixed loop tank loses heat towards its own temperature; keep it at least 2% of its volume per step
    val tmVol = if (kind == "swing") mul(g, cent(tmV * 40)) + toFx(20) else mul(g * INTERVAL, cent(tmV * 30)) + toFx(15)
    val loop = { gpm: g, ret: ret, tmVol: tmVol, tmOn: tmOn,
                 tmOff: if (kind == "swing") supply + toFx(8) else tmOn + milli(tmW * 100),
                 tmCap: if (kind == "swing") [tmCap0, 0, 0, 0] else [muldiv(tmCap0, 13, 10) / num, muldiv(tmCap0, coef.get(1), 9000), muldiv(tmCap0, coef.get(2), 9000), muldiv(tmCap0, coef.get(0), 9000)],
                 tmKw: if (kind == "swing") [0, 0, 0, 0] else [tmCap0 / 8, muldiv(tmCap0, coef.get(3), 90000), 0, muldiv(tmCap0, coef.get(1), 90000)], num: if (kind == "parallel") num else 1,
                 eco: if (eco == 0) [] else range(0, 24).foldl([], (l, h) => l.append(h >= e0 and h < e0 + eLen)), ecoBy: milli(eBy * 100) }
    val c = { kind: kind, loc: loc, daily: dl, peak: weights(pm, pk), avg: weights(am, ak), interval: INTERVAL,
              supply: supply, storage: storage, vol: if (tankless == 0) 0 else muldiv(dl, volP, 100), slope: cent(sl), heaters: hs, loop: loop,
              defThr: milli(dthr * 100), defMax: dmax }
    all { cfg' = c, prevSt' = startState(c),
          run_' = { st: startState(c), recs: [], i: 0, outage: 0, consec: 0, stopped: false, peakKw: 0, kwh60: 0 } }
  }

  action step = all {
    cfg' = cfg, prevSt' = run_.st,
    run_' = range(0, CHUNK).foldl({ ...run_, recs: [] }, (r, k) => advance(cfg, r)),
  }

  // ---- properties of the model ---------------------------------------------------------
  val warmUp = run_.recs.indices().forall(k => {
    val t = run_.recs[k].temps
    0.to(4).forall(n => t[n] <= t[n + 1]) })
  val nonNegative = run_.recs.indices().forall(k => {
    val r = run_.recs[k]
    and { r.usable >= 0, r.usable <= cfg.vol + 1000, r.demand >= 0, r.out >= 0 } })
  val outageIsEmpty = run_.outage % cfg.interval == 0 and run_.outage <= run_.i * cfg.interval
  val stopsForCause = run_.stopped implies (run_.consec > cfg.defMax and run_.recs.length() >= 0)
  val runsOn = run_.stopped or run_.consec <= cfg.defMax
  // the loop tank never falls more than one step's loss below its on temperature once its heater can keep up
  val inv = and { warmUp, nonNegative, outageIsEmpty, stopsForCause, runsOn }
}

module plant3 {
  import plantMachine(KINDS = Set("primary", "primary", "sprtp", "parallel", "swing"), INTERVAL = 1, CHUNK = 60).* from "./plant"
}

// the same plants over a year of ten-minute steps, a day per transition
module plantYear {
  import plantMachine(KINDS = Set("primary", "sprtp", "parallel", "swing"), INTERVAL = 10, CHUNK = 144).* from "./plant"
}

module plantParallel {
  import plantMachine(KINDS = Set("parallel"), INTERVAL = 1, CHUNK = 60).* from "./plant"
}
module plantSwing {
  import plantMachine(KINDS = Set("swing"), INTERVAL = 1, CHUNK = 60).* from "./plant"
}
module plantRtp {
  import plantMachine(KINDS = Set("sprtp"), INTERVAL = 1, CHUNK = 60).* from "./plant"
}
