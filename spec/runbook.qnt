// What a simulation run keeps of the steps it is given: one record per step, an outage
// minute count, and the decision to stop once delivery has been short for too long.
module runbook {
  type Step = { usable: int, delivery: int, kw: int, tmKw: int, hasKw: bool, hasTm: bool, hasTmKw: bool, tag: int }
  type Book = { n: int, outage: int, consec: int, stopped: bool, energy: int, peak: int }

  pure val start: Book = { n: 0, outage: 0, consec: 0, stopped: false, energy: 0, peak: 0 }
  pure def power(s: Step): int = (if (s.hasKw) s.kw else 0) + (if (s.hasTm and s.hasTmKw) s.tmKw else 0)

  // temperatures are in quarter degrees; interval, limit in minutes
  pure def record(b: Book, s: Step, interval: int, supply: int, margin: int, limit: int): Book =
    if (b.stopped) b else {
      val short = s.delivery < supply - margin
      val consec = if (short) b.consec + interval else 0
      { n: b.n + 1, outage: b.outage + (if (s.usable <= 0) interval else 0), consec: consec,
        stopped: short and consec > limit, energy: b.energy + power(s) * interval,
        peak: if (power(s) > b.peak) power(s) else b.peak }
    }
}

module runbookMachine {
  import runbook.*

  pure val SUPPLY = 480          // 120 F in quarter degrees
  var cfg: { interval: int, margin: int, limit: int, viaTm: bool }
  var book: Book
  var prev: Book
  var last: Step

  action init = {
    nondet iv = Set(1, 10).oneOf()
    nondet mg = Set(0, 4, 20, 20, 21, 48).oneOf()
    nondet li = Set(0, 1, 5, 10, 10, 11, 25, 60).oneOf()
    nondet tm = Set(true, false).oneOf()
    all { cfg' = { interval: iv, margin: mg, limit: li, viaTm: tm }, book' = start, prev' = start,
          last' = { usable: 1, delivery: SUPPLY, kw: 0, tmKw: 0, hasKw: false, hasTm: false, hasTmKw: false, tag: 0 } }
  }
  // delivery hovers around the edge of the margin
  action step = {
    nondet r = Set(0, 1, 2, 3, 4, 5, 6, 7, 8, 9).oneOf()
    nondet d = (-6).to(6).oneOf()
    nondet u = Set(-1, 0, 0, 1, 500).oneOf()
    nondet k = 0.to(400).oneOf()
    nondet t = 0.to(200).oneOf()
    nondet hk = Set(true, true, false).oneOf()
    nondet htk = Set(true, false).oneOf()
    nondet tag = 0.to(9999).oneOf()
    // mostly short (so long deficits happen), sometimes between margin and supply, sometimes above
    val del = if (r < 6) SUPPLY - cfg.margin - 1 - (if (d < 0) -d else d)
              else if (r < 7) SUPPLY - cfg.margin
              else if (r < 9) SUPPLY - cfg.margin / 2
              else SUPPLY + 8 + d
    val s = { usable: u, delivery: del, kw: k, tmKw: t, hasKw: hk, hasTm: cfg.viaTm, hasTmKw: htk, tag: tag }
    all { cfg' = cfg, prev' = book, last' = s, book' = record(book, s, cfg.interval, SUPPLY, cfg.margin, cfg.limit) }
  }

  val stopsForCause = (book.stopped and not(prev.stopped)) implies
    (last.delivery < SUPPLY - cfg.margin and prev.consec + cfg.interval > cfg.limit)
  val goesOnOtherwise = not(book.stopped) implies book.consec <= cfg.limit
  val recovers = (not(prev.stopped) and last.delivery >= SUPPLY - cfg.margin) implies book.consec == 0
  val outageOnlyWhenEmpty = book.outage > prev.outage implies last.usable <= 0
  val inv = and { stopsForCause, goesOnOtherwise, recovers, outageOnlyWhenEmpty, book.outage >= prev.outage, book.peak >= prev.peak }
}
