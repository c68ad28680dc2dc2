// The thermostatic valve of a return-to-primary plant.  In one step the building takes
// `load` gallons at supply temperature and the loop circulates `flow` gallons that come
// back at `ret`.  Hot water from storage is blended down with cold make-up and returning
// loop water; whatever leaves storage is replaced by water at the `inlet` temperature.
module valve {
  import fixed.* from "./fixed"
  type V = { load: int, flow: int, cold: int, supply: int, ret: int, sto: int }
  type Split = { draw: int, inlet: int, branch: str }

  pure def split(v: V): Split =
    if (v.load <= 0 and (v.flow <= 0 or v.ret >= v.supply)) { draw: 0, inlet: v.cold, branch: "idle" }
    else if (v.sto == v.supply or v.sto <= v.cold)
      // nothing to blend: all of it passes through storage
      { draw: v.load + v.flow, inlet: (v.load * v.cold + v.flow * v.ret) / (v.load + v.flow), branch: "through" }
    else if (v.sto < v.supply or v.load * (v.sto - v.supply) > v.flow * (v.supply - v.ret))
      // the building takes more than the loop can blend with: all loop water goes to the building
      { draw: (v.load * (v.supply - v.cold) + v.flow * (v.supply - v.ret)) / (v.sto - v.cold), inlet: v.cold, branch: "cold" }
    else {
      // part of the loop water goes back to storage, with the make-up for what the building took
      val d = (v.load + v.flow) * (v.supply - v.ret) / (v.sto - v.ret)
      { draw: d, inlet: (v.load * v.cold + (d - v.load) * v.ret) / d, branch: "return" }
    }
  pure def heatTaken(v: V): int = (v.load * (v.supply - v.cold) + v.flow * (v.supply - v.ret)) / S
}

module valveMachine {
  import fixed.* from "./fixed"
  import valve.*
  var v: V
  var r: Split
  action pick = {
    nondet l = 0.to(3000).oneOf()
    nondet lk = 0.to(5).oneOf()
    nondet f = 0.to(2000).oneOf()
    nondet fk = 0.to(4).oneOf()
    nondet cold = 330.to(750).oneOf()
    nondet sup = 1050.to(1350).oneOf()
    nondet drop = 1.to(400).oneOf()
    nondet rise = (-250).to(450).oneOf()
    nondet sk = 0.to(11).oneOf()
    nondet crit = (-2).to(2).oneOf()
    val supply = milli(sup * 100)
    val ret = if (sk == 11) supply else supply - milli(drop * 100)
    val c = milli(cold * 100)
    val sto = if (sk == 0) supply else if (sk == 1) c else supply + milli(rise * 100)
    val flow = if (fk == 0) 0 else cent(f)
    // now and then exactly (or just beside) the flow at which the loop is fully blended
    val load = if (lk == 0) 0 else if (lk == 1 and sto > supply) max2(0, flow * (supply - ret) / (sto - supply) + crit * 1000) else milli(l * 10)
    val x = { load: load, flow: flow, cold: c, supply: supply, ret: ret, sto: sto }
    all { v' = x, r' = split(x) }
  }
  action init = pick
  action step = pick

  pure val EPS = 1000000
  // heat leaving storage is exactly what building and loop take
  val heatConserved = r.branch == "through" or
    near(mul(r.draw, v.sto - r.inlet), heatTaken(v), EPS)
  // storage, cold and loop water blended together are load + flow at supply temperature
  val blendCold = r.branch != "cold" or v.sto < v.supply or
    and { r.draw <= v.load + EPS,
          near(mul(v.load + v.flow, v.supply), mul(r.draw, v.sto) + mul(v.load - r.draw, v.cold) + mul(v.flow, v.ret), 100 * EPS) }
  val blendReturn = r.branch != "return" or
    and { r.draw >= v.load - EPS, r.draw <= v.load + v.flow + EPS,
          near(mul(v.load + v.flow, v.supply), mul(r.draw, v.sto) + mul(v.load + v.flow - r.draw, v.ret), 100 * EPS) }
  val inletBetween = r.inlet >= min2(v.cold, v.ret) - EPS and r.inlet <= max2(v.cold, v.ret) + EPS
  val noNegative = r.draw >= 0
  // at the critical flow both readings of the valve agree
  val continuous = (v.sto <= v.supply or v.load == 0 or v.flow == 0) or
    (absI(v.load * (v.sto - v.supply) - v.flow * (v.supply - v.ret)) > S * 1000) or near(r.draw, v.load, EPS)
  val inv = and { heatConserved, blendCold, blendReturn, inletBetween, noNegative, continuous }
}
