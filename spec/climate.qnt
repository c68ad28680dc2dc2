// Calendar and weather: which hour and month a timestep falls in, design conditions,
// and the distribution of daily mean temperatures.
module climate {
  import fixed.* from "./fixed"

  pure val MONTH_DAYS = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]

  pure def minuteOf(idx: int, interval: int): int = idx * interval
  pure def hourOfYear(minute: int): int = (minute / 60) % 8760
  pure def dayOfYear(minute: int): int = (minute / 1440) % 365
  // first month whose end lies beyond the day
  pure def monthOf(day: int): int =
    range(0, 12).foldl({ left: day, m: 0, found: false }, (a, m) =>
      if (a.found) a
      else if (a.left < MONTH_DAYS[m]) { left: a.left, m: m, found: true }
      else { left: a.left - MONTH_DAYS[m], m: m + 1, found: false }).m

  pure def floorDiv(a: int, b: int): int = if (a >= 0) a / b else -((-a + b - 1) / b)
}

module climateMachine {
  import fixed.* from "./fixed"
  import climate.*

  // synthetic location: hourly temperatures (whole degF) from a small integer recipe
  type Loc = { a: int, b: int, lo: int, span: int, m: int }
  pure def oatAt(l: Loc, h: int): int = l.lo + (l.a * h + l.b * (h / 24) * (h / 24) + h * h * h) % l.span
  pure def inletAt(l: Loc, m: int): int = 40 + (l.m * (m + 1) * (m + 1)) % 37
  pure def designOat(l: Loc): int = range(0, 8760).foldl(oatAt(l, 0), (x, h) => min2(x, oatAt(l, h)))
  pure def designInlet(l: Loc): int = range(0, 12).foldl(inletAt(l, 0), (x, m) => min2(x, inletAt(l, m)))
  pure def bucketOf(l: Loc, d: int): int =
    5 * floorDiv(range(0, 24).foldl(0, (x, h) => x + oatAt(l, 24 * d + h)), 120)   // floor(mean/5)
  pure def buckets(l: Loc): int -> int =
    range(0, 365).foldl(Map(), (acc, d) => {
      val b = bucketOf(l, d)
      if (b.in(acc.keys())) acc.setBy(b, n => n + 1) else acc.put(b, 1)
    })

  var loc: Loc
  var ev: { op: str, idx: int, interval: int }
  var hour: int
  var month: int
  var oat: int
  var inlet: int
  var dist: int -> int

  pure val INTERVALS = Set(1, 2, 3, 5, 6, 7, 10, 12, 15, 20, 25, 30, 45, 60, 90, 120, 1440)

  action init = {
    nondet a = 1.to(97).oneOf()
    nondet b = 0.to(50).oneOf()
    nondet lo = (-40).to(60).oneOf()
    nondet sp = 3.to(90).oneOf()
    nondet m = 1.to(36).oneOf()
    all { loc' = { a: a, b: b, lo: lo, span: sp, m: m }, ev' = { op: "init", idx: 0, interval: 1 },
          hour' = 0, month' = 0, oat' = lo, inlet' = 40, dist' = Map() }
  }
  action at(idx: int, iv: int): bool = {
    val mn = minuteOf(idx, iv)
    all { loc' = loc, ev' = { op: "at", idx: idx, interval: iv }, dist' = Map(),
          hour' = hourOfYear(mn), month' = monthOf(dayOfYear(mn)),
          oat' = oatAt(loc, hourOfYear(mn)), inlet' = inletAt(loc, monthOf(dayOfYear(mn))) }
  }
  action design = all { loc' = loc, ev' = { op: "design", idx: 0, interval: 1 }, hour' = 0, month' = 0,
    oat' = designOat(loc), inlet' = designInlet(loc), dist' = buckets(loc) }
  action step = any {
    // any minute of three years
    { nondet mn = 0.to(1576800).oneOf()
      nondet iv = INTERVALS.oneOf()
      at(mn / iv, iv) },
    // around month and year boundaries
    { nondet y = 0.to(2).oneOf()
      nondet m = 0.to(11).oneOf()
      nondet off = (-61).to(61).oneOf()
      nondet iv = INTERVALS.oneOf()
      val firstDay = range(0, m).foldl(0, (a, k) => a + MONTH_DAYS[k])
      at(max2(0, (y * 365 + firstDay) * 1440 + off) / iv, iv) },
    design,
  }
  val hourOk = hour >= 0 and hour < 8760
  val monthOk = month >= 0 and month < 12
  val coldest = ev.op == "design" implies and {
    range(0, 12).foldl(true, (x, m) => x and oat <= oatAt(loc, m * 700)), range(0, 12).foldl(true, (x, m) => x and inlet <= inletAt(loc, m)) }
  val everyDayOnce = ev.op == "design" implies dist.keys().fold(0, (a, k) => a + dist.get(k)) == 365
  // hour and month agree: the month contains the hour's day
  val agree = ev.op == "at" implies {
    val first = range(0, month).foldl(0, (a, k) => a + MONTH_DAYS[k])
    hour / 24 >= first and hour / 24 < first + MONTH_DAYS[month]
  }
  val inv = and { hourOk, monthOk, coldest, everyDayOnce, agree }
}
