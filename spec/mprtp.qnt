// Multi-pass return-to-primary plant: a slug tank, a mixing valve that takes building and
// loop draws from storage, and heaters that warm the mixed slug at the tank's bottom.
module mprtp {
  import fixed.* from "./fixed"
  import etank.* from "./etank"
  import valve.* from "./valve"
  import climate.* from "./climate"
  import aquastat.nextOn from "./aquastat"
  import plant.* from "./plant"
  import sizing as z from "./sizing"

  type MCfg = { loc: Loc, daily: int, shape: List[int], interval: int, supply: int, storage: int, vol: int, slope: int,
                coldPct: int, heaters: List[Heater], gpm: int, ret: int, defThr: int, defMax: int }
  type MSt = { t: ET, s: int, on: List[bool] }
  type MRow = { demand: int, oat: int, inlet: int, mode: str, out: int, kw: int, usable: int, temps: List[int],
                delivery: int, margin: int, on: List[bool], mix: int, draw: int, back: int, top: int, top2: int, balanced: bool, act: bool }

  pure val HS = [0, 20, 40, 60, 80, 100]
  pure def mStart(c: MCfg): MSt = {
    val cold = designInlet(c.loc)
    val t0 = { vol: c.vol, slope: c.slope, cold: cold, hot: c.storage, coldPct: c.coldPct, e: 0, act: false, sv: 0, st: cold, ov: 0 }
    val t = initSlug(t0, c.storage, cold, clamp(0, S, S - c.heaters[0].ctl.get("normal").onH), c.supply)
    { t: t, s: shiftOf(t), on: c.heaters.foldl([], (l, h) => l.append(false)) }
  }
  pure def anyOn(on: List[bool]): bool = on.foldl(false, (x, y) => x or y)
  pure def hAt(t: ET, s: int, f: int): int = tempAt(t, s, 100 * f)
  // how close the height is to the jump at the slug's top
  pure def jump(t: ET, f: int): int = if (t.act and slugTop(t) != H and absI(100 * f - slugTop(t)) < S / 100) 0 else FAR

  pure def held(t: ET, s: int): int = if (t.act) totalS(t, s) else t.e

  pure def mStep(c: MCfg, m: MSt, i: int): { st: MSt, rec: MRow } = {
    val minute = minuteOf(i, c.interval)
    val hr = (minute / 60) % 24
    val demand = muldiv(mul(c.daily, c.shape[hr]), c.interval, 60)
    val oat = oatAt(c.loc, hourOfYear(minute))
    val inl = inletAt(c.loc, monthOf(dayOfYear(minute)))
    val t1 = { ...m.t, cold: inl }
    val s1 = if (inl == m.t.cold) m.s else shiftOf(t1)
    val on = range(0, c.heaters.length()).foldl([], (l, k) => {
      val a = ctlOf(c.heaters[k], hr)
      l.append(nextOn(m.on[k], { onH: 0, onT: a.onT, offH: 1, offT: a.offT, outT: a.outT }, [hAt(t1, s1, a.onH), hAt(t1, s1, a.offH)])) })
    val near0 = range(0, c.heaters.length()).foldl(FAR, (x, k) => {
      val a = ctlOf(c.heaters[k], hr)
      min2(min2(x, nextMargin(m.on[k], a, hAt(t1, s1, a.onH), hAt(t1, s1, a.offH))), jump(t1, if (m.on[k]) a.offH else a.onH)) })
    val heating = anyOn(on)
    val t2 = if (heating) activateS(t1, s1, c.supply) else if (anyOn(m.on)) deactivateS(t1, s1) else t1
    val s2 = if (heating or not(t1.act)) s1 else shiftOf(t2)
    val top = hAt(t2, s2, S)
    val out = range(0, c.heaters.length()).foldl(0, (x, k) => if (on[k]) x + lin(c.heaters[k].cap, oat, ctlOf(c.heaters[k], hr).outT, toFx(50)) else x)
    val kw = range(0, c.heaters.length()).foldl(0, (x, k) => if (on[k]) x + lin(c.heaters[k].kw, oat, ctlOf(c.heaters[k], hr).outT, toFx(50)) else x)
    val d = split({ load: demand, flow: c.gpm * c.interval, cold: inl, supply: c.supply, ret: c.ret, sto: top })
    val t3 = if (heating) heatSlug(t2, out, c.interval) else t2
    val t4 = physS(t3, s2, d.draw, d.inlet)
    val s4 = if (t4.act) s2 else shiftOf(t4)
    val tiny = t4.act and t4.sv < c.vol / 1000
    val kept = if (t3.act and d.draw > maxUsable(t3)) 0 else
      held(t4, s4) - (held(t3, s2) - mul(mul(d.draw, RHOCP), topMean(t3, s2, d.draw) - d.inlet))
    { st: { t: t4, s: s4, on: on },
      rec: { demand: demand, oat: oat, inlet: inl, mode: c.heaters[0].sched[hr], out: out, kw: kw,
             usable: usableE(t4, s4, c.supply), temps: HS.foldl([], (l, h) => l.append(tempAt(t4, s4, toFx(h)))),
             delivery: if (heating) c.supply else top, on: on, mix: if (t4.act) slugTop(t4) else -S,
             draw: d.draw, back: d.inlet, top: top, top2: hAt(t4, s4, S), act: t4.act,
             balanced: t4.e == 0 or absI(kept) <= S / 100 + fullE(t4) / 1000000000,
             margin: min2(min2(near0, if (tiny) 0 else FAR),
                          min2(min2(tie(top - c.supply), if (t4.act) absI(t4.st - c.supply) else FAR),
                               min2(jump(t2, S), if (heating) FAR else tie(top - (c.supply - c.defThr))))) } }
  }

  type MRun = { st: MSt, recs: List[MRow], i: int, outage: int, consec: int, stopped: bool, peakKw: int, kwh60: int }
  pure def mAdvance(c: MCfg, r: MRun): MRun =
    if (r.stopped) r else {
      val n = mStep(c, r.st, r.i)
      val consec = if (n.rec.delivery < c.supply - c.defThr) r.consec + c.interval else 0
      { st: n.st, recs: r.recs.append(n.rec), i: r.i + 1,
        outage: r.outage + (if (n.rec.usable <= 0) c.interval else 0),
        consec: consec, stopped: consec > c.defMax, peakKw: max2(r.peakKw, n.rec.kw), kwh60: r.kwh60 + n.rec.kw * c.interval }
    }

  // ---- sizing ------------------------------------------------------------------------------
  // mean temperature of the water at or above supply when an ON sensor fires
  pure def hotMean(c: z::SCfg, f: int, t: int): int = {
    val on = 100 * f
    val su = on + dv(c.supply - t, c.slope)
    val st = on + dv(c.storage - t, c.slope)
    if (su >= H) c.supply else {
      val hiT = if (st > H) t + mul(H - on, c.slope) else c.storage
      val loT = if (su < 0) t - mul(on, c.slope) else c.supply
      val ramp_ = min2(H, st) - max2(0, su)
      val hot_ = max2(0, H - st)
      if (ramp_ + hot_ <= 0) c.supply else dv(mul(ramp_, (hiT + loT) / 2) + mul(hot_, c.storage), ramp_ + hot_)
    }
  }
  pure def hotOf(c: z::SCfg): int =
    c.ctl.keys().map(k => hotMean(c, c.ctl.get(k).onH, c.ctl.get(k).onT)).fold(10000 * S, (x, y) => min2(x, y))
  type Grow = { vol: int, temp: int, most: int, margin: int }
  // two days with the heaters always on: the cold water below grows until it is hot
  pure def grow(c: z::SCfg, cap: int): Grow = {
    val hot_ = hotOf(c)
    val parts = c.peak.foldl([], (l, x) => l.append(split({ load: mul(c.daily, x) / 60, flow: c.gpm, cold: c.inlet, supply: c.supply, ret: c.ret, sto: hot_ })))
    val heat = 1000 * cap / 60
    range(0, 2880).foldl({ vol: 0, temp: c.inlet, most: 0, margin: FAR }, (g, i) => {
      val d = parts[(i / 60) % 24]
      val v = g.vol + d.draw
      val t1 = if (d.draw > 0) (if (g.vol <= 0) d.inlet else (g.vol * g.temp + d.draw * d.inlet) / v) else g.temp
      val t2 = if (v > 0) t1 + dv(heat, mul(v, RHOCP)) else t1
      val done = v > 0 and t2 >= c.storage
      { vol: if (done) 0 else v, temp: if (done) c.inlet else t2, most: if (done) g.most else max2(g.most, v),
        margin: if (v > 0) min2(g.margin, absI(t2 - c.storage)) else g.margin } })
  }
  type MSize = { cap: int, sto: int, baseCap: int, running: int, tries: int, margin: int }
  pure def analytic(c: z::SCfg): MSize = {
    val cap = z::kbtuhFor(c, dv(c.daily, z::runOf(c)), c.supply) + z::loopCap(c)
    val g = grow(c, cap)
    { cap: cap, sto: dv(g.most, z::stratFactor(c)), baseCap: cap, running: g.most, tries: 0, margin: g.margin }
  }
  pure def trialCfg(c: z::SCfg, s: MSize, coldPct: int): MCfg = {
    loc: { a: 0, b: 0, lo: 30, span: 1, base: c.inlet, m: 37 }, daily: c.daily, shape: c.peak, interval: 1,
    supply: c.supply, storage: c.storage, vol: s.sto, slope: c.slope, coldPct: coldPct,
    heaters: [{ sched: if (c.sched.length() == 24) c.sched else range(0, 24).foldl([], (l, h) => l.append("normal")),
                ctl: c.ctl.keys().mapBy(k => { onH: c.ctl.get(k).onH, onT: c.ctl.get(k).onT, offH: c.ctl.get(k).offH, offT: c.ctl.get(k).offT, outT: c.ctl.get(k).outT }),
                cap: [s.cap, 0, 0, 0], kw: [0, 0, 0, 0] }],
    gpm: c.gpm, ret: c.ret, defThr: 5 * S, defMax: 10 }
  // one trial of `days`: the coldest outlet during an outage, and how long heating had then been on
  type Trial = { st: MSt, low: int, mins: int, on: bool, from: int, margin: int }
  pure def trial(m: MCfg, days: int): Trial =
    range(0, 1440 * days).foldl({ st: mStart(m), low: m.supply, mins: 0, on: false, from: 0, margin: FAR }, (t, i) => {
      val n = mStep(m, t.st, i)
      val out = n.rec.out > 0
      val from = if (out and not(t.on)) i else t.from
      val worse = n.rec.usable <= 0 and n.rec.top2 < t.low
      { st: n.st, low: if (worse) n.rec.top2 else t.low, mins: if (worse) i - from else t.mins, on: out, from: from,
        margin: min2(t.margin, min2(n.rec.margin, if (n.rec.usable <= 0 and n.rec.top2 != t.low) 1000 * absI(n.rec.top2 - t.low) else FAR)) } })
  pure def boosted(c: z::SCfg, s: MSize, coldPct: int, t: Trial): MSize =
    if (t.mins <= 0) { ...s, margin: min2(s.margin, t.margin) }
    else {
      val more = mul(mul(mul(s.sto, S - coldPct / 100), RHOCP), c.supply - t.low) / 1000
      { ...s, cap: if (more > 0) s.cap + more * 60 / t.mins else s.cap, tries: s.tries + 1, margin: min2(s.margin, t.margin) }
    }
}

// A random plant, run hour by hour (or a year day by day).
module mprtpMachine {
  import fixed.* from "./fixed"
  import shapes.* from "./shapes"
  import plant.* from "./plant"
  import etank.* from "./etank"
  import mprtp.*
  const INTERVAL: int
  const CHUNK: int

  var cfg: MCfg
  var run_: MRun

  action init = {
    nondet a = 1.to(97).oneOf()
    nondet b = 0.to(50).oneOf()
    nondet lo = 0.to(55).oneOf()
    nondet sp = 3.to(40).oneOf()
    nondet m = 1.to(36).oneOf()
    nondet daily = 100.to(4000).oneOf()
    nondet pk = Set(0, 1, 2, 3, 4).oneOf()
    nondet pm = 0.to(23).setOfMaps(0.to(99)).oneOf()
    nondet sup = 1150.to(1280).oneOf()
    nondet sto = 60.to(350).oneOf()
    nondet volP = 10.to(90).oneOf()
    nondet sl = Set(60, 80, 80, 120, 200).oneOf()
    nondet cp = Set(0, 0, 5, 15, 20).oneOf()
    nondet runHr = Set(9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 20, 24, 30, 60).oneOf()
    nondet nh = Set(1, 1, 2).oneOf()
    nondet off2 = Set(-8, -3, 0, 2, 5).oneOf()       // the second heater stops sooner or later than the first
    nondet night = Set(true, false).oneOf()
    nondet onH = 25.to(60).oneOf()
    nondet dH = 0.to(4).oneOf()
    nondet onT = (-300).to(40).oneOf()
    nondet offT = Set(-250, -120, -50, -20).oneOf()
    nondet coef = 0.to(3).setOfMaps((-20).to(20)).oneOf()
    nondet gpm = 0.to(600).oneOf()
    nondet drop = 40.to(200).oneOf()
    nondet dthr = Set(5, 10, 50, 50, 50, 120).oneOf()
    nondet dmax = Set(0, 5, 10, 10, 30, 100000).oneOf()
    val supply = milli(sup * 100)
    val storage = supply + milli(sto * 100)
    val dl = toFx(daily)
    val ret = supply - milli(drop * 100)
    val g = if (gpm < 40) 0 else cent(gpm)
    val loss = mul(mul(60 * g, RHOCP), supply - ret) / 1000
    val cap0 = (mul(mul(dl, RHOCP), supply - toFx(50)) / 1000 + 24 * loss) / runHr / nh
    val base = { onH: cent(onH), onT: min2(storage - S, supply + milli(onT * 100)), offH: cent(onH - dH), offT: max2(supply + S / 2, storage + milli(offT * 100)), outT: storage }
    val norm = { ...base, offT: max2(base.offT, base.onT + S / 2) }
    val ctl = if (night) Map("normal" -> norm, "night" -> { ...norm, onT: norm.onT - 3 * S, outT: storage - 2 * S }) else Map("normal" -> norm)
    val hs = range(0, nh).foldl([], (l, i) => l.append({
      sched: range(0, 24).foldl([], (q, h) => q.append(if (night and h < 6) "night" else "normal")),
      ctl: ctl.keys().mapBy(k => { ...ctl.get(k), onT: ctl.get(k).onT - i * S, offT: max2(ctl.get(k).onT - i * S + S / 2, ctl.get(k).offT + i * off2 * S) }),
      cap: [cap0, muldiv(cap0, coef.get(0), 4000), muldiv(cap0, coef.get(1), 6000), 0],
      kw: [cap0 / 10, muldiv(cap0, coef.get(3), 40000), muldiv(cap0, coef.get(0), 60000), 0] }))
    val c = { loc: { a: a, b: b, lo: lo, span: sp, base: toFx(40), m: m }, daily: dl, shape: weights(pm, pk), interval: INTERVAL,
              supply: supply, storage: storage, vol: muldiv(dl, volP, 100), slope: cent(sl), coldPct: toFx(cp), heaters: hs,
              gpm: g, ret: ret, defThr: milli(dthr * 100), defMax: dmax }
    all { cfg' = c, run_' = { st: mStart(c), recs: [], i: 0, outage: 0, consec: 0, stopped: false, peakKw: 0, kwh60: 0 } }
  }
  action step = all {
    cfg' = cfg,
    run_' = range(0, CHUNK).foldl({ ...run_, recs: [] }, (r, k) => mAdvance(cfg, r)),
  }
  val balanced = run_.recs.indices().forall(k => run_.recs[k].balanced)
  val slugFits = run_.st.t.sv <= maxUsable(run_.st.t) + S / 1000000
  val heatInRange = run_.st.t.act or (run_.st.t.e >= 0)
  val usableInTank = run_.recs.indices().forall(k => run_.recs[k].usable >= (-1000) and run_.recs[k].usable <= cfg.vol + 1000)
  val inv = and { balanced, slugFits, heatInRange, usableInTank }
}
module mprtp3 { import mprtpMachine(INTERVAL = 1, CHUNK = 60).* from "./mprtp" }
module mprtpYear { import mprtpMachine(INTERVAL = 10, CHUNK = 144).* from "./mprtp" }

// Sizing: the growing-slug storage and analytic capacity, then trial runs that raise capacity.
module mpsizeMachine {
  import fixed.* from "./fixed"
  import shapes.* from "./shapes"
  import etank.* from "./etank"
  import sizing as z from "./sizing"
  import mprtp.*
  const TRIES: int

  var c: z::SCfg
  var coldPct: int
  var days: int
  var s: MSize
  var left: int
  var ended: bool       // a trial without outage ends the search

  action pick = {
    nondet daily = 40.to(6000).oneOf()
    nondet pk = Set(0, 1, 2, 3, 4, 5).oneOf()
    nondet pm = 0.to(23).setOfMaps(0.to(99)).oneOf()
    nondet inl = 330.to(680).oneOf()
    nondet sup = 1100.to(1300).oneOf()
    nondet sto = 50.to(400).oneOf()
    nondet rh = 36.to(72).oneOf()
    nondet df = Set(1000, 1000, 950, 870).oneOf()
    nondet sl = Set(80, 80, 60, 120, 170).oneOf()
    nondet cp = Set(0, 5, 10, 15).oneOf()
    nondet onH = 16.to(60).oneOf()
    nondet dH = 0.to(12).oneOf()
    nondet onT = (-250).to(60).oneOf()
    nondet offT = Set(-100, -50, -20, -10).oneOf()
    nondet cm = Set(0, 0, 1, 2).oneOf()
    nondet gpm = 0.to(800).oneOf()
    nondet drop = 30.to(200).oneOf()
    nondet d = Set(1, 1, 2).oneOf()
    val supply = milli(sup * 100)
    val storage = supply + milli(sto * 100)
    val k = { onH: cent(onH), onT: min2(storage - S, supply + milli(onT * 100)), offH: cent(max2(cp + 1, onH - dH)),
              offT: max2(supply + S, storage + milli(offT * 100)), outT: storage }
    val m = if (cm == 0) Map("normal" -> k)
            else if (cm == 1) Map("normal" -> k, "night" -> { ...k, onH: cent(onH + 7), onT: k.onT - 2 * S })
            else Map("normal" -> k, "loadUp" -> { ...k, onH: cent(max2(cp + 1, onH - 8)) })
    val x = { kind: "mprtp", daily: toFx(daily), peak: weights(pm, pk), avg: weights(pm, pk), inlet: milli(inl * 100),
              supply: supply, storage: storage, runHr: cent(25 * rh), defrost: milli(df), slope: cent(sl), ctl: m,
              sched: range(0, 24).foldl([], (l, h) => l.append(if (cm == 1 and h > 20) "night" else "normal")),
              fract: S, gpm: if (gpm < 40) 0 else cent(gpm), ret: supply - milli(drop * 100), sf: S, tmOn: 0, tmOff: 0, offTime: 0 }
    all { c' = x, coldPct' = toFx(cp), days' = d, s' = analytic(x), left' = TRIES, ended' = false }
  }
  action init = pick
  action tryOnce = {
    val t = trial(trialCfg(c, s, coldPct), days)
    all { c' = c, coldPct' = coldPct, days' = days, left' = left - 1, s' = boosted(c, s, coldPct, t), ended' = t.mins <= 0 }
  }
  action hold = all { c' = c, coldPct' = coldPct, days' = days, s' = s, left' = left, ended' = ended }
  action step = if (TRIES == 0) pick else if (left > 0 and not(ended) and s.sto > 0) tryOnce else hold

  pure val EPS = 1000000
  // capacity makes the day's heat and the loop's in the allowed hours; trials only raise it
  val coversDayAndLoop = near(mul(mul(s.baseCap, c.runHr), c.defrost) * 1000,
                              mul(mul(c.daily, RHOCP), c.supply - c.inlet) + 24000 * z::lossK(c), 1000 * EPS)
  val neverLess = s.cap >= s.baseCap and (s.tries > 0 or s.cap == s.baseCap)
  val storesTheSlug = s.sto >= 0 and near(mul(s.sto, z::stratFactor(c)), s.running, EPS)
  val inv = and { coversDayAndLoop, neverLess, storesTheSlug }
}
module mpsize { import mpsizeMachine(TRIES = 0).* from "./mprtp" }
module mpboost { import mpsizeMachine(TRIES = 3).* from "./mprtp" }
