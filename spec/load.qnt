// Building demand: daily use, load shapes, and the demand of a timestep.
module load {
  import fixed.* from "./fixed"
  import loaddata.* from "./loaddata"

  // Per-occupant rates (gallons/day per unit of magnitude) in the order of NAMES;
  // multi_family (index 0) uses gallons per person per day instead.
  pure val RATE: List[int] = [ 0, 54600, 21400, 2100, 23600, 19600, 23400, 11032, 6440, 1340, 3750, 3260 ]  // thousandths

  // One use of a building.  ty = -1: custom shape without a named type.
  //  gpd:   gallons per person per day (multi_family only)
  //  mag:   occupancy; -1 with ty = -1 means "take the daily use from the custom shape"
  //  peak/avg: custom hourly weights (empty list = default shape of the type)
  type Use = { ty: int, mag: int, gpd: int, peak: List[int], avg: List[int] }

  pure def normalise(w: List[int]): List[int] = {
    val t = sumL(w)
    w.foldl(List(), (l, x) => l.append(x * S / t))
  }

  pure def dailyUse(u: Use): int =
    if (u.ty == -1) (if (u.mag == -1) toFx(sumL(u.peak)) else u.mag)
    else if (u.ty == 0) mul(u.gpd, u.mag)
    else mul(milli(RATE[u.ty]), u.mag)

  pure def shapeOf(u: Use, useAvg: bool): List[int] =
    if (useAvg) {
      if (u.avg.length() > 0) normalise(u.avg)
      else if (u.ty == -1) normalise(u.peak)
      else AVG[u.ty]
    } else {
      if (u.peak.length() > 0) normalise(u.peak) else PEAK[u.ty]
    }

  pure def hourOf(stepIdx: int, interval: int, n: int): int = (stepIdx * interval / 60) % n

  // demand of one timestep with 24-hour shapes: the sum over the uses of the building
  pure def demand(uses: List[Use], stepIdx: int, interval: int, useAvg: bool): int =
    uses.foldl(0, (acc, u) =>
      acc + muldiv(mul(dailyUse(u), shapeOf(u, useAvg)[hourOf(stepIdx, interval, 24)]), interval, 60))

  pure def totalUse(uses: List[Use]): int = uses.foldl(0, (acc, u) => acc + dailyUse(u))
}

module loadMachine {
  import fixed.* from "./fixed"
  import loaddata.* from "./loaddata"
  import load.*

  var uses: List[Use]
  var annual: bool
  var total: int
  var ev: { op: str, idx: int, interval: int, avg: bool }
  var res: { ok: bool, value: int, hour: int }

  pure val INTERVALS = Set(1, 2, 3, 5, 6, 10, 12, 15, 20, 30, 60)

  pure def weights(m: int -> int, kind: int): List[int] =
    range(0, 24).foldl(List(), (l, h) => l.append(
      if (kind == 0) m.get(h) + 1                                  // anything positive
      else if (kind == 1) (if (m.get(h) > 70) m.get(h) else 0)     // sparse, zero hours
      else if (kind == 2) (if (h == m.get(0) % 24) 900 else 1)     // one spike
      else 5))                                                     // flat
  pure def orOne(l: List[int]): List[int] = if (sumL(l) == 0) l.replaceAt(7, 3) else l

  pure def mkUse(ty: int, magC: int, gpdC: int, noMag: bool, cp: int, ca: int, pm: int -> int, am: int -> int): Use = {
    val peak = if (cp == 4 and ty != -1) List() else orOne(weights(pm, cp % 4))
    val avg = if (ca == 4) List() else orOne(weights(am, ca % 4))
    { ty: ty, mag: if (ty == -1 and noMag) -1 else cent(magC), gpd: cent(gpdC), peak: peak, avg: avg }
  }

  action init = {
    nondet k = Set(1, 1, 2, 3).oneOf()
    nondet mf = Set(true, false, false).oneOf()
    nondet t1 = (-1).to(11).oneOf()
    nondet t2 = (-1).to(11).oneOf()
    nondet t3 = (-1).to(11).oneOf()
    nondet m1 = 100.to(90000).oneOf()
    nondet m2 = 100.to(90000).oneOf()
    nondet m3 = 100.to(90000).oneOf()
    nondet g = 500.to(6000).oneOf()
    nondet nm = Set(true, false).oneOf()
    nondet c1 = Set(0, 1, 2, 3, 4, 4, 4).oneOf()
    nondet c2 = Set(0, 1, 2, 3, 4, 4, 4).oneOf()
    nondet c3 = Set(0, 1, 2, 3, 4, 4, 4).oneOf()
    nondet a1 = Set(0, 1, 2, 4, 4, 4).oneOf()
    nondet a2 = Set(0, 1, 2, 4, 4).oneOf()
    nondet p1 = 0.to(23).setOfMaps(0.to(99)).oneOf()
    nondet p2 = 0.to(23).setOfMaps(0.to(99)).oneOf()
    val u1 = mkUse(if (mf and k == 1) 0 else t1, m1, g, nm, c1, a1, p1, p2)
    val u2 = mkUse(t2, m2, g, nm, c2, a2, p2, p1)
    val u3 = mkUse(t3, m3, g, false, c3, a2, p1, p1)
    val us = if (k == 1) [u1] else if (k == 2) [u1, u2] else [u1, u2, u3]
    all {
      uses' = us, annual' = false, total' = totalUse(us),
      ev' = { op: "init", idx: 0, interval: 1, avg: false },
      res' = { ok: true, value: totalUse(us), hour: 0 },
    }
  }

  val isMF = uses.length() == 1 and uses[0].ty == 0

  action keep = all { uses' = uses, total' = total }
  action query(i: int, iv: int, a: bool): bool = all {
    keep, annual' = annual, ev' = { op: "query", idx: i, interval: iv, avg: a },
    res' = { ok: true, value: if (annual) -1 else demand(uses, i, iv, a), hour: hourOf(i, iv, if (annual) 8760 else 24) },
  }
  action toAnnual = all {
    keep, annual' = (annual or isMF), ev' = { op: "annual", idx: 0, interval: 1, avg: false },
    res' = { ok: isMF, value: 0, hour: 0 },
  }
  action toDaily = all {
    keep, annual' = (annual and not(isMF)), ev' = { op: "daily", idx: 0, interval: 1, avg: false },
    res' = { ok: isMF, value: 0, hour: 0 },
  }
  // demand of one whole day, cut into steps of iv minutes
  action day(d: int, iv: int, a: bool): bool = all {
    not(annual), keep, annual' = annual, ev' = { op: "day", idx: d * 1440 / iv, interval: iv, avg: a },
    res' = { ok: true, value: range(0, 24).foldl(0, (acc, h) =>
               acc + (60 / iv) * demand(uses, (d * 1440 + h * 60) / iv, iv, a)), hour: 0 },
  }

  action step = any {
    { nondet h = 0.to(26500).oneOf()
      nondet m = Set(0, 1, 2, 3).oneOf()
      nondet iv = INTERVALS.oneOf()
      nondet a = Set(true, false).oneOf()
      query((h * 60 + (60 / iv - 1) * iv * m / 3) / iv, iv, a) },
    { nondet h = 0.to(47).oneOf()
      nondet iv = INTERVALS.oneOf()
      nondet a = Set(true, false).oneOf()
      query((h * 60 + 59) / iv, iv, a) },
    // step lengths that straddle hours: the hour is the one the step begins in
    { nondet h = 0.to(600).oneOf()
      nondet iv = Set(7, 8, 14, 24, 25, 40, 45, 50, 90, 120, 180, 720, 1440).oneOf()
      nondet a = Set(true, false).oneOf()
      query((h * 60 + 59) / iv, iv, a) },
    { nondet d = Set(0, 1, 2, 30, 364, 365, 366, 900).oneOf()
      nondet iv = INTERVALS.oneOf()
      nondet a = Set(true, false).oneOf()
      day(d, iv, a) },
    toAnnual,
    toDaily,
  }

  // a day's demand is the daily use, whatever the step length (default tables sum to 1 within 1e-8)
  val dayConserved = ev.op == "day" implies near(res.value, total, total / 10000000 + 1000000)
  val nonNegative = ev.op == "query" implies (annual or res.value >= 0)
  val hourInRange = ev.op == "query" implies (res.hour >= 0 and res.hour < (if (annual) 8760 else 24))
  val inv = and { dayConserved, nonNegative, hourInRange }
}

// California bedroom mix: 98th percentile over the year of the mix's daily use, per unit.
module caMachine {
  import fixed.* from "./fixed"
  import cadata.* from "./cadata"

  var nbr: List[int]
  var gpd: int

  pure def dayTotal(n: List[int], c: int, j: int): int =
    range(0, 6).foldl(0, (a, b) => a + n[b] * BR[b][c][j])

  // insert x into a descending list, keeping the 10 largest
  pure def insTop(l: List[int], x: int): List[int] = {
    val bigger = l.select(y => y >= x)
    val smaller = l.select(y => y < x)
    val r = bigger.append(x).concat(smaller)
    if (r.length() > 10) r.slice(0, 10) else r
  }

  // linear-interpolated percentile: rank 0.98*(365-1) = 356.72 (0-based, ascending)
  pure def p98(n: List[int]): int = {
    val top = range(0, 5).foldl(List(), (l, c) => range(0, 73).foldl(l, (l2, j) => {
      val x = dayTotal(n, c, j)
      if (l2.length() == 10 and x <= l2[9]) l2 else insTop(l2, x) }))
    // ascending rank r corresponds to descending index 364 - r
    val lo = top[8]
    val hi = top[7]
    lo + muldiv(hi - lo, 72, 100)
  }
  pure def round1(x: int): int = (x * 10 + S / 2) / S * S / 10

  pure def gpdOf(n: List[int]): int = p98(n) / sumL(n)

  action pick = {
    nondet k = 0.to(5).setOfMaps(0.to(40)).oneOf()
    nondet z = 0.to(5).setOfMaps(Set(0, 1)).oneOf()
    val raw = range(0, 6).foldl(List(), (l, i) => l.append(k.get(i) * z.get(i)))
    val n = if (sumL(raw) == 0) [0, 3, 2, 0, 0, 0] else raw
    all { nbr' = n, gpd' = gpdOf(n) }
  }
  action init = pick
  action step = pick
  val inv = gpd > 0 and gpd < toFx(400)
}
