// The electric-resistance trade-off: a swing system whose primary may be too small for the load,
// and whose swing-tank element is enlarged so that delivered water never falls below supply
// temperature during two peak days, whatever the primary tank holds when the peak begins.
module er {
  import fixed.* from "./fixed"
  import sizing.* from "./sizing"

  // the installed parts: primary capacity and storage, swing volume and element, hours defining the peak
  type Prim = { cap: int, sto: int, vol: int, tmCap: int, runHr: int }
  type Min = { heating: bool, t: int, level: int, worst: int, low: int, ok: bool, margin: int }
  type Er = { ok: bool, deficit: int, er: int, margin: int }

  // first hour that turns from surplus to deficit
  pure def peakHour(c: SCfg, runHr: int): int = {
    val g = dv(S, runHr)
    val h = range(0, 24).foldl((-1), (a, i) => if (a < 0 and c.peak[(i + 23) % 24] <= g and c.peak[i] > g) i else a)
    if (h < 0) 0 else h
  }
  pure def hourMargin(c: SCfg, runHr: int): int = {
    val g = dv(S, runHr)
    range(0, 24).foldl(1000 * S, (m, h) => if (c.peak[h] == g) m else min2(m, absI(c.peak[h] - g)))
  }

  // One minute: the draw takes water through the swing tank from the primary (hot as far as stored and
  // made water go, cold for the rest), the loop takes its loss, the element acts, and what is still
  // missing to supply temperature is the shortfall the extra element has to close.
  pure def minute(c: SCfg, p: Prim, gen: int, lossT: int, elT: int, s: Min, d: int): Min = {
    val off = c.supply + toFx(8)
    val g = if (s.t > c.inlet) muldiv(d, c.supply - c.inlet, s.t - c.inlet) else d
    val hot = s.level + gen
    val feed = if (g <= 0 or hot <= 0) c.inlet else if (g <= hot) c.storage
               else (hot * c.storage + (g - hot) * c.inlet) / g
    val t1 = (if (g > 0) dv(mul(g, feed) + mul(s.t, p.vol - g), p.vol) else s.t) - lossT
    val t2 = if (s.heating) min2(t1 + elT, max2(off, t1)) else if (t1 <= c.supply) min2(t1 + elT, c.supply) else t1
    val m = absI(if (s.heating) t1 + elT - off else t1 - c.supply)
    { heating: if (s.heating) t1 + elT <= off else t1 <= c.supply,
      t: max2(t2, c.supply), level: clamp(0, p.sto, hot - g),
      worst: max2(s.worst, c.supply - t2), low: min2(s.low, t2), ok: s.ok and g < p.vol,
      margin: min2(s.margin, m) }
  }
  pure def peakDays(c: SCfg, p: Prim, daily: int, level: int): Min = {
    val h0 = peakHour(c, p.runHr)
    val gen = dv(p.cap * 1000, mul(RHOCP, c.storage - c.inlet)) / 60
    val lossT = dv(lossK(c) * 1000 / 60, mul(RHOCP, p.vol))
    val elT = dv(p.tmCap * 1000 / 60, mul(RHOCP, p.vol))
    val day = range(0, 24).foldl([], (l, h) => l.append(mul(c.peak[(h0 + h) % 24], daily) / 60))
    range(0, 2880).foldl({ heating: false, t: c.supply, level: level, worst: 0, low: c.supply, ok: true, margin: 1000 * S },
      (s, i) => if (not(s.ok)) s else minute(c, p, gen, lossT, elT, s, day[(i / 60) % 24]))
  }
  pure def erSize(c: SCfg, p: Prim, daily: int, sf: int): Er = {
    val a = peakDays(c, p, daily, 0)
    val b = peakDays(c, p, daily, p.sto)
    val worst = max2(a.worst, b.worst)
    { ok: a.ok and b.ok, deficit: worst, er: mul(mul(p.vol, mul(60 * RHOCP, worst)) / 1000, sf),
      margin: min2(hourMargin(c, p.runHr), min2(a.margin, b.margin)) }
  }
}

// Behaviours: a swing system is sized (or assembled with part of its sized primary), its element is
// sized, and then the trade-off points are worked out one by one from 120 percent of the load down.
module erMachine {
  import fixed.* from "./fixed"
  import sizing.* from "./sizing"
  import er.*
  import sizingMachine(KINDS = Set("swing"), LS = Set(0, 1)) as m from "./sizing"

  const POINTS: bool

  var whole: bool                 // sized from scratch (true) or assembled from parts (false)
  var p: Prim
  var sf: int
  var e: Er
  var pts: List[{ pct: int, kw: int, er: int, ok: bool, margin: int }]
  var phase: int                  // 0 drawn, 1 element sized, 2 points under way, 3 done

  pure val NOP = { cap: 0, sto: 0, vol: 0, tmCap: 0, runHr: 24 * S }
  action init = all { m::init, whole' = true, p' = NOP, sf' = S, e' = { ok: false, deficit: 0, er: 0, margin: 1000 * S }, pts' = [], phase' = 0 }
  action choose = {
    nondet w = Set(true, false).oneOf()
    nondet pc = 10.to(120).oneOf()
    nondet ps = 2.to(120).oneOf()
    nondet f = Set(100, 100, 110, 150, 80).oneOf()
    val r = m::r
    val q = if (w) { cap: r.cap, sto: r.sto, vol: r.tmVol, tmCap: r.tmCap, runHr: m::c.runHr }
            else { cap: r.cap * pc / 100, sto: r.sto * ps / 100, vol: r.tmVol, tmCap: r.tmCap, runHr: 24 * S }
    val x = if (r.ok) erSize(m::c, q, m::c.daily, cent(f)) else { ok: false, deficit: 0, er: 0, margin: 1000 * S }
    all { m::keep, whole' = w, p' = q, sf' = cent(f), e' = x,
          pts' = [], phase' = if (x.ok) 1 else 3 }
  }
  // the next trade-off point
  action point = {
    val i = 120 - 10 * pts.length()
    val x = if (i == 100) e else erSize(m::c, p, m::c.daily * i / 100, sf)
    val n = { pct: i, kw: dv(p.tmCap + x.er, KBTU_PER_KW), er: x.er, ok: x.ok, margin: x.margin }
    all { m::keep, whole' = whole, p' = p, sf' = sf, e' = e, pts' = pts.append(n),
          phase' = if (i == 10 or x.er == 0 or not(x.ok)) 3 else 2 }
  }
  action redraw = all { m::step, whole' = whole, p' = p, sf' = sf, e' = e, pts' = [], phase' = 0 }
  action stay = all { m::keep, whole' = whole, p' = p, sf' = sf, e' = e, pts' = pts, phase' = phase }
  action step = if (phase == 0) choose
                else if (POINTS and (phase == 1 and e.er > 0 or phase == 2)) point
                else if (POINTS) stay else redraw

  // the added element makes up the worst shortfall of a minute within that minute (times the safety factor)
  val closes = or { phase == 0, not(e.ok), near(mul(dv(e.er * 1000, mul(60 * RHOCP, p.vol)), S), mul(e.deficit, sf), 1000) }
  // where hot water always covers the draw no extra element is sized, and a shortfall always gets one
  val onlyWhenShort = phase == 0 or not(e.ok) or ((e.er > 0) == (e.deficit > 0))
  // the points run down from 120 percent in steps of ten, and stop at the first that needs no addition
  val points = range(0, pts.length()).foldl(true, (b, i) => and {
    b, pts[i].pct == 120 - 10 * i, pts[i].kw >= dv(p.tmCap, KBTU_PER_KW), (i == pts.length() - 1) or pts[i].er > 0 })
  val inv = closes and onlyWhenShort and points
}
module erSizes { import erMachine(POINTS = false).* from "./er" }
module erPoints { import erMachine(POINTS = true).* from "./er" }
