// What a simulated run costs under a tariff: energy step by step, demand period by period, base charges.
module bill {
  import fixed.* from "./fixed"
  import tariff.* from "./tariff"

  // A recorded run: steps of ts minutes, n of them recorded.  Power is in watts, NUL where there is no
  // figure; step i takes entry (7 i + i / 24) mod length of the pattern, spikes override single steps.
  type Series = { ts: int, n: int, dur: int, prim: List[int], hasTm: bool, tm: List[int], spike: int -> int }
  // what adds up: cost by month and category (peak first), energy by month, largest power by period
  type Tally = { m: int, cost: List[int], wmin: List[int], most: int -> { w: int, m: int }, total: int, peak: int }

  pure def watts(x: int): int = if (x == NUL) 0 else x
  pure def primAt(s: Series, i: int): int =
    if (s.spike.keys().contains(i)) s.spike.get(i) else s.prim[(7 * i + i / 24) % s.prim.length()]
  pure def tmAt(s: Series, i: int): int = s.tm[(5 * i + i / 31) % s.tm.length()]
  pure def powerAt(s: Series, i: int): int = watts(primAt(s, i)) + (if (s.hasTm) watts(tmAt(s, i)) else 0)
  pure def bump(l: List[int], i: int, v: int): List[int] = l.replaceAt(i, l[i] + v)

  pure val Z12 = [0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0]
  // by(m, h) is the tariff slot of hour h (in month m): hourly for a file, by month and hour of day otherwise
  pure def slotOf(tab: List[Slot], m: int, h: int): Slot = if (tab.length() == HOURS) tab[h] else tab[24 * m + h % 24]
  // unit of cost: watt-minutes times 1/10000 dollar per kWh
  pure def tally(tab: List[Slot], s: Series): Tally =
    range(0, s.n).foldl({ m: 0, cost: Z12.concat(Z12), wmin: Z12, most: Map(), total: 0, peak: 0 }, (a, i) => {
      val h = i * s.ts / 60
      val m = if (h >= START[a.m + 1]) a.m + 1 else a.m
      val k = slotOf(tab, m, h)
      val w = powerAt(s, i)
      val c = w * s.ts * k.energy
      { m: m, cost: if (c == 0) a.cost else bump(a.cost, 2 * m + (if (k.kind == 1) 0 else 1), c), wmin: bump(a.wmin, m, w * s.ts),
        most: if (a.most.keys().contains(k.label) and a.most.get(k.label).w >= w) a.most else a.most.put(k.label, { w: w, m: m }),
        total: a.total + c, peak: max2(a.peak, w) }
    })
}

// Behaviours: a tariff, a recorded run, its bill; another run; ...
module billMachine {
  import fixed.* from "./fixed"
  import tariff.* from "./tariff"
  import bill.*

  const LONG: bool
  var s: Series
  var a: Tally

  pure val NONE: Series = { ts: 60, n: 0, dur: 0, prim: [0], hasTm: false, tm: [0], spike: Map() }
  pure val T0 = tally([{ kind: 0, label: 0, energy: 0, demand: 0 }], NONE)
  action none = all { s' = NONE, a' = T0 }
  action hold = all { s' = s, a' = a }
  action record(tab: List[Slot]): bool = {
    nondet ts = (if (LONG) Set(10, 15) else Set(60, 60, 30, 20, 10, 5, 1)).oneOf()
    nondet full = Set(true, true, false).oneOf()
    nondet cut = 1.to(8760).oneOf()
    nondet p = 0.to(12).setOfMaps(0.to(60000)).oneOf()
    nondet gaps = Set(0, 0, 2, 3, 13).oneOf()
    nondet q = 0.to(6).setOfMaps(0.to(9000)).oneOf()
    nondet tgap = Set(0, 2, 7).oneOf()
    nondet tm = Set(true, false).oneOf()
    nondet zero = Set(false, false, false, false, true).oneOf()
    nondet k = 0.to(5).setOfMaps(0.to(8759)).oneOf()
    nondet kw = 0.to(5).setOfMaps(0.to(150000)).oneOf()
    val per = 60 / ts
    val year = HOURS * per
    val most = if (LONG or ts == 60) year else 8760
    val n = if (full) most else min2(most, cut)
    val x = { ts: ts, n: n, dur: if (most == year) 525600 else max2(4320, most * ts),
              prim: range(0, 13).foldl([], (l, i) => l.append(if (gaps > 0 and i % gaps == 0) NUL else if (zero) 0 else p.get(i))),
              hasTm: tm, tm: range(0, 7).foldl([], (l, i) => l.append(if (tgap > 0 and i % tgap == 0) NUL else q.get(i))),
              spike: range(0, 6).foldl(Map(), (f, i) => f.put((if (most == year) k.get(i) * per + i % per else k.get(i)), kw.get(i))) }
    all { s' = x, a' = tally(tab, x) }
  }
  val parts = a.cost.foldl(0, (t, x) => t + x) == a.total
  val peaks = a.most.keys().fold(0, (t, k) => max2(t, a.most.get(k).w)) == a.peak
  val inv = parts and peaks
}

module billOfDescribed {
  import tariffDescribed(HURT = Set(0)) as t from "./tariff"
  const LONG: bool
  import billMachine(LONG = LONG) as b from "./bill"
  var turn: int
  action init = all { t::init, b::none, turn' = 0 }
  action step = if (turn == 0 or turn == 1) all { t::hold, b::record(t::table), turn' = turn + 1 }
                else all { t::draw, b::none, turn' = 0 }
  // a described tariff keeps a period within one month
  val inMonth = b::a.most.keys().forall(k => k / (if (t::r.disc) 3 else 2) == b::a.most.get(k).m)
  val inv = b::inv and inMonth
}
module billOfFiled {
  import tariffFiled(HOLES = Set(0)) as t from "./tariff"
  import billMachine(LONG = false) as b from "./bill"
  var turn: int
  action init = all { t::init, b::none, turn' = 0 }
  action step = if (turn == 0) all { t::hold, b::record(t::read.hour), turn' = 1 } else all { t::hold, b::record(t::read.hour), turn' = 2 }
  val inv = b::inv
}
module billDescribed { import billOfDescribed(LONG = false).* from "./bill" }
module billYear { import billOfDescribed(LONG = true).* from "./bill" }
