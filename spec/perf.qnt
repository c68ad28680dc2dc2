// Heat-pump performance: what a model delivers and draws at given outdoor, inlet and outlet temperatures.
// The laboratory data of a model is an uninterpreted partial function of (inlet, outlet, outdoor); the
// specification says which of its values are asked for, in which order, and what stands in for them.
module perf {
  import fixed.* from "./fixed"

  pure val NUL = -999999000000000
  type Row = { t: int, outs: List[int] }
  type Bracket = { t: int, p: List[int], c: List[int] }
  // lab: a map of measured points (two: without outlet temperature); otherwise COP and watts are
  // quadratics of the inlet temperature at a few outdoor temperatures
  type Model = { lab: bool, two: bool, hx: int, oats: List[int], grid: List[List[Row]], inMax: int,
                 hiOut: int, hiIn: int, lo: int, brackets: List[Bracket] }
  type Query = { m: int, units: int, nominal: int, design: int, oat: int, inlet: int, outlet: int }
  type Point = { i: int, o: int, t: int }
  // known: out and inp (kW per unit) are settled; otherwise the first of pts the map has a value at
  // settles them (the last one enlarged by num/den of its output), and if none has, out and inp do
  type Answer = { known: bool, out: int, inp: int, pts: List[Point], num: int, den: int, region: int }

  pure def lastI(l: List[int]): int = l[l.length() - 1]
  pure def nearest(l: List[int], x: int): int =
    range(0, l.length()).foldl(0, (b, i) => if (absI(l[i] - x) < absI(l[b] - x)) i else b)
  pure def atOrAbove(l: List[Row], x: int): int =
    range(0, l.length()).foldl(l.length() - 1, (b, i) => if (l[i].t >= x and (l[b].t < x or l[i].t < l[b].t)) i else b)
  pure def quad(c: List[int], x: int): int = c[0] + mul(c[1], x) + mul(mul(c[2], x), x)
  pure def line(x: int, x0: int, x1: int, y0: int, y1: int): int = y0 + muldiv(x - x0, y1 - y0, x1 - x0)

  pure def polyAt(b: Bracket, inlet: int): { cop: int, kw: int } = { cop: quad(b.c, inlet), kw: quad(b.p, inlet) / 1000 }
  // resistance heat per unit: the stated capacity shared between the units, else the model's own at the cold edge
  pure def resist(m: Model, q: Query): int =
    if (q.nominal != NUL) dv(q.nominal / q.units, KBTU_PER_KW)
    else if (m.lab) m.lo
    else max2(0, mul(max2(0, polyAt(m.brackets[0], q.design).cop), polyAt(m.brackets[0], q.design).kw))

  // a model stated by one regression: 11 terms of outdoor, outlet and inlet temperature, or 6 of outdoor and
  // inlet (multi-pass), of COP and of kW; valid at every outdoor temperature
  pure def regress(c: List[int], oat: int, outl: int, inl: int): int =
    if (c.length() == 6)
      c[0] + mul(c[1], oat) + mul(c[2], inl) + mul(c[3], mul(oat, oat)) + mul(c[4], mul(inl, inl)) + mul(c[5], mul(oat, inl))
    else
      c[0] + mul(c[1], oat) + mul(c[2], outl) + mul(c[3], inl)
        + mul(c[4], mul(oat, oat)) + mul(c[5], mul(outl, outl)) + mul(c[6], mul(inl, inl))
        + mul(c[7], mul(oat, outl)) + mul(c[8], mul(oat, inl)) + mul(c[9], mul(outl, inl))
        + mul(c[10], mul(oat, mul(outl, inl)))

  pure def answer(m: Model, q: Query): Answer = {
    val inlet = if (q.inlet == NUL) q.design else q.inlet
    val er = resist(m, q)
    val cold = { known: true, out: er, inp: er, pts: [], num: 0, den: 1, region: 1 }
    if (not(m.lab)) {
      val n = m.brackets.length()
      if (n == 1) {
        val b = m.brackets[0]
        val kw = regress(b.p, q.oat, q.outlet, inlet)
        { known: true, out: mul(regress(b.c, q.oat, q.outlet, inlet), kw), inp: kw, pts: [], num: 0, den: 1, region: 4 }
      }
      else if (q.oat < m.brackets[0].t) cold
      else {
        val k = range(1, n - 1).foldl(0, (a, i) => if (m.brackets[i].t <= q.oat) i else a)
        val a = m.brackets[k]
        val b = m.brackets[k + 1]
        val cop = line(q.oat, a.t, b.t, polyAt(a, inlet).cop, polyAt(b, inlet).cop)
        val kw = line(q.oat, a.t, b.t, polyAt(a, inlet).kw, polyAt(b, inlet).kw)
        { known: true, out: mul(cop, kw), inp: kw, pts: [], num: 0, den: 1, region: if (q.oat > m.brackets[n - 1].t) 2 else 0 }
      }
    } else {
      val i = min2(inlet + m.hx, m.inMax)
      val o = q.outlet + m.hx
      if (q.oat >= lastI(m.oats)) { known: true, out: m.hiOut, inp: m.hiIn, pts: [], num: 0, den: 1, region: 2 }
      else if (q.oat < m.oats[0]) cold
      else {
        val k = nearest(m.oats, q.oat)
        val row = m.grid[k][atOrAbove(m.grid[k], i)]
        val so = row.outs[nearest(row.outs, o)]
        val grow = so < o and o > row.t
        { known: false, out: er, inp: muldiv(er, 2, 3),
          pts: [{ i: i, o: o, t: q.oat }, { i: row.t, o: o, t: m.oats[k] }, { i: row.t, o: so, t: m.oats[k] }],
          num: if (grow) o - so else 0, den: if (grow) o - row.t else 1, region: 3 }
      }
    }
  }
}

module perfMachine {
  import fixed.* from "./fixed"
  import perf.*
  const MODELS: List[Model]
  var q: Query
  var a: Answer
  // a temperature near one the model knows, or anywhere
  pure def around(l: List[int], k: int, d: int): int = l[k % l.length()] + d
  action ask = {
    nondet m = 0.to(MODELS.length() - 1).oneOf()
    nondet units = Set(1, 1, 2, 3, 5, 12).oneOf()
    nondet nom = Set(0, 1, 2).oneOf()
    nondet nomV = 20.to(900).oneOf()
    nondet des = 350.to(800).oneOf()
    nondet how = 0.to(9).oneOf()
    nondet k = 0.to(40).oneOf()
    nondet k2 = 0.to(40).oneOf()
    nondet k3 = 0.to(40).oneOf()
    nondet d = Set(0, 0, 1, (-1), 30, (-30), 100).oneOf()
    nondet dI = Set(0, 0, 1, (-1), 25, (-25)).oneOf()
    nondet dO = Set(0, 0, 1, (-1), 25, (-25)).oneOf()
    nondet t = (-300).to(1250).oneOf()
    nondet inl = 330.to(1500).oneOf()
    nondet outl = 1000.to(1900).oneOf()
    nondet noIn = 0.to(7).oneOf()
    val x = MODELS[m]
    val tens = S / 10
    val oat = if (how < 4) t * tens
              else if (x.lab) around(x.oats, k, d * tens) else x.brackets[k % x.brackets.length()].t + d * tens
    val g = x.grid[k % x.grid.length()]
    val inlet = if (noIn == 0) NUL else if (how < 3 or not(x.lab)) inl * tens
                else g[k2 % g.length()].t - x.hx + dI * tens
    val outlet = if (how < 3 or how == 9 or not(x.lab)) outl * tens
                 else around(g[k2 % g.length()].outs, k3, dO * tens - x.hx)
    val z = { m: m, units: units, nominal: if (nom == 0) NUL else toFx(nomV), design: des * tens, oat: oat, inlet: inlet, outlet: outlet }
    all { q' = z, a' = answer(x, z) }
  }
  action init = ask
  action step = ask
  // below the coldest mapped temperature the heater is electric resistance: as much in as out
  val resistance = a.region != 1 or (a.known and a.out == a.inp)
  // (a regression may leave the physical range far from its data)
  val positive = a.region == 4 or a.out > 0 and a.inp > 0
  // inside the map the first place looked is the place asked for
  val inside = a.known or (a.pts.length() == 3 and a.pts[0].t == q.oat)
  val inv = resistance and positive and inside
}
