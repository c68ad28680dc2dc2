// Fully mixed tank: one temperature, energy balance per operation.
module mixed {
  import fixed.* from "./fixed"
  type Mixed = { vol: int, temp: int }

  pure def heatMixed(m: Mixed, kbtuh: int, durMin: int): Mixed =
    if (kbtuh <= 0) m
    else { ...m, temp: m.temp + dv(1000 * kbtuh * durMin / 60, mul(m.vol, RHOCP)) }

  pure def loseMixed(m: Mixed, kbtuh: int, durMin: int): Mixed =
    if (kbtuh <= 0 or durMin <= 0) m
    else { ...m, temp: m.temp - dv(1000 * kbtuh * durMin / 60, mul(m.vol, RHOCP)) }

  // g gallons at temperature t displace g gallons of the contents
  pure def displace(m: Mixed, g: int, t: int): Mixed =
    if (g <= 0) m
    else if (g >= m.vol) { ...m, temp: t }
    else { ...m, temp: (g * t + (m.vol - g) * m.temp) / m.vol }

  // demand v at supply temperature: as much tank water as carries the same heat
  pure def drawMixed(m: Mixed, v: int, cold: int, supply: int): Mixed =
    if (m.temp <= cold or v <= 0) m
    else displace(m, muldiv(v, supply - cold, max2(m.temp - cold, S / 1000000)), cold)

  pure def recircMixed(m: Mixed, gpm: int, ret: int, durMin: int): Mixed =
    { ...m, temp: m.temp + muldiv(gpm * durMin, ret - m.temp, m.vol) }

  pure def usableMixed(m: Mixed, supply: int): int = if (m.temp >= supply) m.vol else 0
}

module mixedMachine {
  import fixed.* from "./fixed"
  import mixed.*

  var tank: Mixed
  var prev: Mixed
  var ev: { op: str, a: List[int] }
  var usable: int
  var probe: int       // supply temperature at which usable volume is read

  action become(m: Mixed, op: str, a: List[int]): bool = {
    nondet d = Set(-30, -1, 0, 0, 1, 30).oneOf()
    val q = m.temp + milli(d * 100)
    all { tank' = m, prev' = tank, ev' = { op: op, a: a }, probe' = q, usable' = usableMixed(m, q) }
  }

  action init = {
    nondet v = 10.to(2500).oneOf()
    nondet t = 600.to(1700).oneOf()
    nondet c = 350.to(700).oneOf()
    val m = { vol: toFx(v), temp: milli(t * 100) }
    all { tank' = m, prev' = m, ev' = { op: "init", a: [m.vol, m.temp, milli(c * 100)] }, probe' = m.temp, usable' = m.vol }
  }

  action step = any {
    { nondet k = Set(-3, 0, 1, 5, 12, 50, 300).oneOf()
      nondet d = Set(1, 10, 15, 60).oneOf()
      nondet o = Set(120, 140, 160).oneOf()
      nondet fine = Set(1, 1, 1, 5000).oneOf()
      val q = cent(k * 37) / fine
      become(heatMixed(tank, q, d), "heat", [q, d, toFx(o)]) },
    { nondet k = Set(-3, 0, 1, 5, 12, 50).oneOf()
      nondet d = Set(0, 1, 10, 15).oneOf()
      nondet fine = Set(1, 1, 1, 5000).oneOf()
      val q = cent(k * 31) / fine
      become(loseMixed(tank, q, d), "loss", [q, d]) },
    { nondet p = Set(-5, 0, 1, 7, 40, 120, 500, 1000, 1400).oneOf()
      nondet t = 400.to(1800).oneOf()
      nondet fine = Set(1000, 1000, 1000, 4000000).oneOf()
      val g = muldiv(tank.vol, p, fine)
      become(displace(tank, g, milli(t * 100)), "inflow", [g, milli(t * 100)]) },
    { nondet p = Set(-5, 0, 1, 7, 40, 120, 500, 1000, 1400).oneOf()
      nondet t = 350.to(700).oneOf()
      nondet fine = Set(1000, 1000, 1000, 4000000).oneOf()
      val g = muldiv(tank.vol, p, fine)
      become(displace(tank, g, milli(t * 100)), "phys", [g, milli(t * 100)]) },
    { nondet p = Set(-5, 0, 1, 7, 40, 120, 500, 1000, 1400).oneOf()
      nondet cT = 350.to(750).oneOf()
      nondet sT = 1050.to(1350).oneOf()
      nondet fine = Set(1000, 1000, 1000, 4000000).oneOf()
      val v = muldiv(tank.vol, p, fine)
      become(drawMixed(tank, v, milli(cT * 100), milli(sT * 100)), "draw", [v, milli(cT * 100), milli(sT * 100)]) },
    { nondet f = 0.to(600).oneOf()
      nondet t = 900.to(1400).oneOf()
      nondet d = Set(0, 1, 2, 10).oneOf()
      val gpm = muldiv(tank.vol, f, 10000)     // up to 6% of the tank per minute
      become(recircMixed(tank, gpm, milli(t * 100), d), "recirc", [gpm, milli(t * 100), d]) },
    { nondet t = 900.to(1700).oneOf()
      become({ ...tank, temp: milli(t * 100) }, "init", [tank.vol, milli(t * 100), toFx(50)]) },
  }

  pure def heatOf(m: Mixed): int = mul(mul(m.vol, RHOCP), m.temp)
  pure val TOL = S      // one BTU
  // one clause per operation: change of stored heat = heat carried by the flow
  val heatAdds = (ev.op == "heat" and ev.a[0] > 0) implies
    near(heatOf(tank) - heatOf(prev), 1000 * ev.a[0] * ev.a[1] / 60, TOL)
  val lossTakes = (ev.op == "loss" and ev.a[0] > 0) implies
    near(heatOf(tank) - heatOf(prev), -(1000 * ev.a[0] * ev.a[1] / 60), TOL)
  val inflowMixes = (ev.op == "inflow" and ev.a[0] > 0 and ev.a[0] < prev.vol) implies
    near(heatOf(tank) - heatOf(prev), mul(mul(RHOCP, ev.a[0]), ev.a[1] - prev.temp), TOL)
  val drawDelivers = (ev.op == "draw" and ev.a[0] > 0 and prev.temp > ev.a[1] and tank.temp > ev.a[1]) implies
    near(heatOf(prev) - heatOf(tank), mul(mul(RHOCP, ev.a[0]), ev.a[2] - ev.a[1]), TOL)
  val between = (ev.op == "inflow" or ev.op == "phys") implies
    and { tank.temp >= min2(prev.temp, ev.a[1]) - 1, tank.temp <= max2(prev.temp, ev.a[1]) + 1 }
  val neverBelowCold = ev.op == "draw" implies (tank.temp >= min2(prev.temp, ev.a[1]) - 1)
  val inv = and { heatAdds, lossTakes, inflowMixes, drawDelivers, between, neverBelowCold }
}
