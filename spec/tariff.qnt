// Utility tariffs: a year of billing periods built from a description or read from an hourly file.
module tariff {
  import fixed.* from "./fixed"

  pure val DAYS: List[int] = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]
  pure val HOURS = 8760
  pure val START: List[int] = DAYS.foldl([0], (l, d) => l.append(l[l.length() - 1] + 24 * d))
  pure def monthOf(h: int): int = range(0, 12).foldl(0, (m, i) => if (h >= START[i]) i else m)

  // A description as the user writes it: one entry per season.  Hours are in tenths, rates in 1/10000
  // of a dollar, months whole; NUL is a missing or non-numeric entry, 1000 + m a month that is no integer.
  pure val NUL = -999999
  type Raw = { base: int, ps: List[int], pe: List[int], pd: List[int], pn: List[int], od: List[int], on: List[int],
               sm: List[int], em: List[int], disc: bool, ds: List[int], de: List[int], dd: List[int], dn: List[int] }
  // what holds during an hour: 0 off-peak, 1 peak, 2 discount; the period's label; energy and demand rates
  type Slot = { kind: int, label: int, energy: int, demand: int }

  pure def within(h: int, s: int, e: int): bool =
    if (s == NUL or e == NUL) false else if (e < s) (10 * h >= s or 10 * h < e) else (s <= 10 * h and 10 * h < e)

  pure def number(x: int): bool = x != NUL
  pure def whole(x: int): bool = x != NUL and x < 1000
  pure def valid(r: Raw): bool = {
    val n = r.ps.length()
    val same = and { n > 0, r.pe.length() == n, r.pd.length() == n, r.pn.length() == n, r.od.length() == n, r.on.length() == n,
                     r.sm.length() == n, r.em.length() == n, r.ds.length() == n, r.de.length() == n, r.dd.length() == n, r.dn.length() == n }
    if (r.base == NUL or not(same)) false
    else range(0, n).foldl(true, (ok, i) => and {
      ok, number(r.ps[i]), number(r.pe[i]), r.ps[i] >= 0, r.ps[i] <= 230, r.pe[i] >= r.ps[i], r.pe[i] <= 240,
      number(r.pd[i]), number(r.pn[i]), number(r.od[i]), number(r.on[i]),
      whole(r.sm[i]), whole(r.em[i]), r.em[i] > r.sm[i],
      if (i == 0) r.sm[i] == 0 else r.sm[i] == r.em[i - 1], i < n - 1 or r.em[i] == 12,
      or { not(r.disc), r.ds[i] == NUL, r.de[i] == NUL,
           and { number(r.dd[i]), number(r.dn[i]), r.ds[i] >= 0, r.ds[i] <= 240, r.de[i] >= 0, r.de[i] <= 240 } }
    })
  }
  pure def season(r: Raw, m: int): int = range(0, r.sm.length()).foldl(0, (a, i) => if (r.sm[i] <= m) i else a)
  pure def slotAt(r: Raw, m: int, h: int): Slot = {
    val i = season(r, m)
    val n = if (r.disc) 3 else 2
    if (within(h, r.ps[i], r.pe[i])) { kind: 1, label: m * n + 1, energy: r.pn[i], demand: r.pd[i] }
    else if (r.disc and within(h, r.ds[i], r.de[i])) { kind: 2, label: m * n + 2, energy: r.dn[i], demand: r.dd[i] }
    else { kind: 0, label: m * n, energy: r.on[i], demand: r.od[i] }
  }
  pure def tableOf(r: Raw): List[Slot] =
    range(0, 288).foldl([], (l, k) => l.append(slotAt(r, k / 24, k % 24)))

  // An hourly file.  The label of an hour is lab[(month group) * 24 + hour of day]; its energy cell is
  // either blank or  e0 + (hour * e1) mod e2;  a demand cell is given where the label first appears, and
  // elsewhere only now and then (and is then to be ignored).
  type File = { base: int, grp: List[int], lab: List[int], blank: int, e0: int, e1: int, e2: int,
                d0: int, d1: int, d2: int, again: int, hole: int, holeKind: int }
  type Row = { label: int, energy: int, demand: int }
  pure def rowAt(f: File, m: int, h: int, first: bool): Row = {
    val lab = f.lab[f.grp[m] * 24 + h % 24]
    { label: if (f.hole == h and f.holeKind == 1) NUL else lab,
      energy: if (f.hole == h and f.holeKind == 2) NUL
              else if (first or f.blank == 0 or (h * 7 + h / 24) % f.blank == 0) f.e0 + (h * f.e1) % f.e2 else NUL,
      demand: if (f.hole == h and f.holeKind == 3) NUL
              else if (first) f.d0 + (absI(lab) * f.d1) % f.d2 else if (f.again > 0 and h % f.again == 3) h % 97 * 100 else NUL }
  }
  // reading the file row by row: the rates of a period are those of the row it first appears in, and a
  // blank energy cell takes its period's rate
  type Read = { ok: bool, rate: int -> Slot, hour: List[Slot], rows: List[Row], m: int }
  pure def readFile(f: File): Read =
    range(0, HOURS).foldl({ ok: true, rate: Map(), hour: [], rows: [], m: 0 }, (s, h) => {
      val m = if (h >= START[s.m + 1]) s.m + 1 else s.m
      val first = not(s.rate.keys().contains(f.lab[f.grp[m] * 24 + h % 24]))
      val r = rowAt(f, m, h, first)
      if (not(s.ok)) { ...s, rows: s.rows.append(r), m: m }
      else if (r.label == NUL or (first and (r.energy == NUL or r.demand == NUL)))
        { ...s, ok: false, rows: s.rows.append(r), m: m }
      else {
        val k = { kind: if (r.label % 2 != 0) 1 else 0, label: r.label, energy: r.energy, demand: r.demand }
        val rate = if (first) s.rate.put(r.label, k) else s.rate
        val e = if (r.energy == NUL) rate.get(r.label).energy else r.energy
        { ok: true, rate: rate, hour: s.hour.append({ ...rate.get(r.label), energy: e }), rows: s.rows.append(r), m: m }
      }
    })
}

// Behaviours: descriptions come in one after another, some of them with one entry wrong.
module tariffDescribed {
  import fixed.* from "./fixed"
  import tariff.*

  const HURT: Set[int]            // which entries may go wrong (0: none)
  var r: Raw
  var ok: bool
  var table: List[Slot]
  var scalar: bool

  pure def pickL(n: int, f: int -> int): List[int] = range(0, n).foldl([], (l, i) => l.append(f.get(i)))
  pure def putAt(l: List[int], i: int, v: int): List[int] =
    range(0, l.length()).foldl([], (a, j) => a.append(if (j == i) v else l[j]))
  // one entry of the description goes wrong (or merely differs)
  pure def hurt(x: Raw, k: int, i: int, v: int): Raw = {
    val j = i % x.ps.length()
    val n = x.ps.length()
    if (k == 1) { ...x, base: NUL }
    else if (k == 2) { ...x, ps: putAt(x.ps, j, [(-10), 231, 240, NUL, x.pe[j]][v]) }
    else if (k == 3) { ...x, pe: putAt(x.pe, j, [x.ps[j] - 1, 241, 250, NUL, x.ps[j]][v]) }
    else if (k == 4) (if (v == 0) { ...x, pd: putAt(x.pd, j, NUL) } else if (v == 1) { ...x, pn: putAt(x.pn, j, NUL) }
                      else if (v == 2) { ...x, od: putAt(x.od, j, NUL) } else { ...x, on: putAt(x.on, j, NUL) })
    else if (k == 5) { ...x, sm: putAt(x.sm, j, [(-1), x.sm[j] + 1, 1000 + x.sm[j], NUL, max2(0, x.sm[j] - 1)][v]) }
    else if (k == 6) { ...x, em: putAt(x.em, j, [x.sm[j], x.em[j] - 1, 1000 + x.em[j], NUL, x.em[j] + 1][v]) }
    else if (k == 7) (if (v == 0) { ...x, pd: x.pd.append(1) } else if (v == 1) { ...x, on: x.on.append(1) }
                      else if (v == 2) { ...x, sm: x.sm.append(1) } else if (v == 3) { ...x, em: x.em.append(12) } else { ...x, pe: x.pe.append(240) })
    else if (k == 8) (if (v == 0) { ...x, dd: putAt(x.dd, j, NUL) } else if (v == 1) { ...x, dn: putAt(x.dn, j, NUL) }
                      else if (v == 2) { ...x, ds: putAt(x.ds, j, NUL) } else { ...x, de: putAt(x.de, j, NUL) })
    else if (k == 9) { ...x, ds: putAt(x.ds, j, [(-10), 250, 0, 240, x.de[j]][v]) }
    else if (k == 10) (if (v == 0) { ...x, dd: x.dd.append(1) } else if (v == 1) { ...x, dn: x.dn.append(1) }
                       else if (v == 2) { ...x, ds: x.ds.append(1) } else { ...x, de: x.de.append(1) })
    else x
  }
  pure def plain(cuts: Set[int], base: int, disc: bool, a: int -> int, b: int -> int, q: int -> int, u: int -> int, w: int -> int): Raw = {
    val em = range(1, 12).foldl([], (l, i) => if (cuts.contains(i)) l.append(i) else l).append(12)
    val n = em.length()
    val sm = range(0, n).foldl([], (l, i) => l.append(if (i == 0) 0 else em[i - 1]))
    { base: base, ps: range(0, n).foldl([], (l, i) => l.append(min2(min2(a.get(i), b.get(i)), 230))),
      pe: range(0, n).foldl([], (l, i) => l.append(max2(a.get(i), b.get(i)))),
      pd: pickL(n, q), pn: range(0, n).foldl([], (l, i) => l.append(q.get(i + 4) / 100)), od: pickL(n, u),
      on: range(0, n).foldl([], (l, i) => l.append(u.get(i + 4) / 100)), sm: sm, em: em,
      disc: disc, ds: pickL(n, w), de: range(0, n).foldl([], (l, i) => l.append(w.get(i + 4))),
      dd: range(0, n).foldl([], (l, i) => l.append(if (disc) q.get(i) / 3 else NUL)),
      dn: range(0, n).foldl([], (l, i) => l.append(if (disc) u.get(i + 4) / 250 else NUL)) }
  }
  pure val SHAPES: Set[List[int]] = Set([], [4], [6, 9], [5, 10], [1, 2, 11], [1], [11], [3, 6, 9])
  action draw = {
    nondet s = SHAPES.oneOf()
    nondet base = 0.to(4000000).oneOf()
    nondet disc = Set(true, false).oneOf()
    nondet tenth = Set(0, 0, 0, 5).oneOf()
    nondet a = 0.to(3).setOfMaps(0.to(24)).oneOf()
    nondet b = 0.to(3).setOfMaps(0.to(24)).oneOf()
    nondet q = 0.to(7).setOfMaps(0.to(400000)).oneOf()
    nondet u = 0.to(7).setOfMaps(0.to(300000)).oneOf()
    nondet w = 0.to(7).setOfMaps(0.to(24)).oneOf()
    nondet k = HURT.oneOf()
    nondet i = 0.to(3).oneOf()
    nondet v = 0.to(4).oneOf()
    nondet sc = Set(true, false).oneOf()
    val x = hurt(plain(s.foldl(Set(), (z, e) => z.union(Set(e))), base, disc, a.keys().mapBy(x => min2(240, 10 * a.get(x) + tenth)),
                       b.keys().mapBy(x => min2(240, 10 * b.get(x) + tenth)), q, u, w.keys().mapBy(x => 10 * w.get(x))), k, i, v)
    all { r' = x, ok' = valid(x), table' = if (valid(x)) tableOf(x) else [], scalar' = sc }
  }
  action init = draw
  action step = draw
  action hold = all { r' = r, ok' = ok, table' = table, scalar' = scalar }
  // one period per hour, its label naming month and kind, its rates those of the season's description
  val partition = not(ok) or range(0, 288).foldl(true, (g, k) => and {
    g, table[k].kind >= 0, table[k].kind <= 2, (table[k].kind == 2) implies r.disc,
    table[k].label == (k / 24) * (if (r.disc) 3 else 2) + table[k].kind })
  val seasons = not(ok) or range(0, 12).foldl(true, (g, m) => {
    val i = season(r, m)
    g and r.sm[i] <= m and m < r.em[i] })
  val inv = partition and seasons
}

module tariffAny { import tariffDescribed(HURT = 0.to(24)).* from "./tariff" }

// Behaviours: hourly files, a few of them with a cell missing.
module tariffFiled {
  import fixed.* from "./fixed"
  import tariff.*
  const HOLES: Set[int]           // which cells may be missing (0: none)
  var f: File
  var read: Read
  pure val GRPS: Set[List[int]] = Set([0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0], [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11], [0, 0, 0, 0, 0, 1, 1, 1, 1, 0, 0, 0],
    [0, 0, 1, 1, 1, 2, 2, 2, 3, 3, 3, 0])
  action draw = {
    nondet base = 0.to(4000000).oneOf()
    nondet grp = GRPS.oneOf()
    nondet style = 0.to(3).oneOf()
    nondet a = 0.to(23).oneOf()
    nondet b = 0.to(24).oneOf()
    nondet off = Set(0, 0, 5, 40, (-3)).oneOf()
    nondet blank = Set(0, 1, 2, 3, 50, 9999).oneOf()
    nondet e0 = 100.to(3000).oneOf()
    nondet e1 = 0.to(700).oneOf()
    nondet e2 = 1.to(4001).oneOf()
    nondet d0 = 0.to(200000).oneOf()
    nondet d1 = 1.to(30011).oneOf()
    nondet again = Set(0, 0, 11, 500).oneOf()
    nondet hole = Set(0, 1, 23, 24, 743, 744, 5000, 8759).oneOf()
    nondet hk = HOLES.oneOf()
    val lab = range(0, 288).foldl([], (l, k) => {
      val g = k / 24
      val h = k % 24
      val peak = h >= a and h < b
      l.append(off + (if (style == 0) g * 2 + (if (peak) 1 else 0) else if (style == 1) g * 3 + (if (peak) 1 else if (h < 6) 2 else 0)
                      else if (style == 2) (if (peak) 1 else 0) else g * 24 + h)) })
    val x = { base: base, grp: grp, lab: lab, blank: blank, e0: e0, e1: e1, e2: e2, d0: d0, d1: d1, d2: 300000, again: again,
              hole: if (hk == 0) (-1) else hole, holeKind: hk }
    all { f' = x, read' = readFile(x) }
  }
  action init = draw
  action step = draw
  action hold = all { f' = f, read' = read }
  val inv = not(read.ok) or (read.hour.length() == HOURS and Set(0, 743, 744, 8759).forall(h =>
    read.hour[h].label == f.lab[f.grp[monthOf(h)] * 24 + h % 24]))
}
module tariffAnyFile { import tariffFiled(HOLES = Set(0, 1, 2, 3)).* from "./tariff" }
