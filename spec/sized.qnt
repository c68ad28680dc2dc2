// A sized system running on the very day it was sized for: the sizing problem of `sizing`
// is solved, the plant of `plant` built from the answer, and run for three design days.
module sizedMachine {
  import fixed.* from "./fixed"
  import strat.* from "./strat"
  import mixed.* from "./mixed"
  import sizing.* from "./sizing"
  import plant.Cfg from "./plant"
  import plant.Run from "./plant"
  import plant.Loop from "./plant"
  import plant.startState from "./plant"
  import plant.advance from "./plant"
  import plant.lossRate from "./plant"

  const KINDS: Set[str]
  const LS: Set[int]
  // TAME: controls at supply/storage temperature and a defrost allowance, as C20 asks for
  const TAME: bool
  // percent of the sized storage and capacity that is installed
  const INSTALLED: Set[(int, int)]

  import sizingMachine(KINDS = KINDS, LS = LS) as m from "./sizing"

  var sc: SCfg
  var sz: Size
  var part: (int, int)
  var num: int
  var phase: int            // 0: chosen, 1: running, 2: not runnable
  var cfg: List[Cfg]
  var run_: List[Run]
  var tmLow: int            // lowest loop-tank temperature so far, end of step
  var cold: int             // coldest delivery after the first day
  var dry: int              // minutes without usable water after the first day

  pure def ctlNormal(c: SCfg): SCtl =
    if (has(c, "normal")) c.ctl.get("normal")
    else { onH: cent(35), onT: c.supply, offH: cent(10), offT: c.storage, outT: c.storage }
  // what a simulation needs: a schedule and setpoints for each of its modes
  pure def complete(c: SCfg): SCfg =
    { ...c, ctl: if (has(c, "normal")) c.ctl else Map("normal" -> ctlNormal(c)),
            sched: if (c.sched.length() == 24) c.sched else range(0, 24).foldl([], (l, h) => l.append("normal")) }
  pure def tame(c: SCfg): SCfg = {
    val n = ctlNormal(c)
    val up = max2(c.storage, c.supply + toFx(15))
    { ...c, storage: up, defrost: min2(c.defrost, cent(85)), slope: if (c.slope < cent(200)) cent(170) else cent(280),
      runHr: clamp(toFx(12), toFx(22), c.runHr), sched: range(0, 24).foldl([], (l, h) => l.append("normal")),
      ctl: Map("normal" -> { onH: max2(n.onH, cent(20)), onT: c.supply, offH: min2(n.offH, cent(15)), offT: up, outT: up }) }
  }
  pure def runnable(c: SCfg, z: Size): bool =
    and { z.ok, c.sched.length() == 24, has(c, "normal"), z.sto >= toFx(2),
          range(0, 24).foldl(true, (b, h) => b and has(c, c.sched[h])) }

  pure def plantOf(c: SCfg, z: Size, p: (int, int), n: int): Cfg = {
    val sw = c.kind == "swing"
    { kind: c.kind, loc: { a: 0, b: 0, lo: 30, span: 1, base: c.inlet, m: 0 }, daily: c.daily, peak: c.peak, avg: c.avg, interval: 1,
      supply: c.supply, storage: c.storage, vol: z.sto * p._1 / 100, slope: c.slope,
      heaters: [{ sched: c.sched, ctl: c.ctl.keys().mapBy(k => { onH: c.ctl.get(k).onH, onT: c.ctl.get(k).onT, offH: c.ctl.get(k).offH, offT: c.ctl.get(k).offT, outT: c.ctl.get(k).outT }),
                  cap: [z.cap * p._2 / 100, 0, 0, 0], kw: [0, 0, 0, 0] }],
      loop: { gpm: c.gpm, ret: c.ret, tmVol: max2(z.tmVol, S), tmOn: if (sw) c.supply else c.tmOn, tmOff: if (sw) c.supply + toFx(8) else c.tmOff,
              tmCap: [if (c.kind == "parallel") z.tmCap / n else z.tmCap, 0, 0, 0], tmKw: [0, 0, 0, 0], num: if (c.kind == "parallel") n else 1, eco: [], ecoBy: 0 },
      defThr: toFx(500), defMax: 10 }
  }

  action init = all {
    m::init,
    nondet p = INSTALLED.oneOf()
    nondet n = 1.to(4).oneOf()
    all { part' = p, num' = n },
    sc' = NONE, sz' = FAIL, phase' = 0, cfg' = [], run_' = [], tmLow' = 1000 * S, cold' = 1000 * S, dry' = 0,
  }
  pure val NONE = { kind: "none", daily: 0, peak: [], avg: [], inlet: 0, supply: 0, storage: 0, runHr: 0, defrost: 0, slope: 0, ctl: Map(), sched: [],
                    fract: 0, gpm: 0, ret: 0, sf: 0, tmOn: 0, tmOff: 0, offTime: 0 }

  action build = {
    val c = if (TAME) tame(m::c) else complete(m::c)
    val z = sizeOf(c)
    val ok = runnable(c, z)
    val k = plantOf(c, z, part, num)
    all { m::keep, part' = part, num' = num, sc' = c, sz' = z, tmLow' = 1000 * S, cold' = 1000 * S, dry' = 0,
          phase' = if (ok) 1 else 2,
          cfg' = if (ok) [k] else [],
          run_' = if (ok) [{ st: startState(k), recs: [], i: 0, outage: 0, consec: 0, stopped: false, peakKw: 0, kwh60: 0 }] else [] }
  }
  action hour = {
    val r2 = run_.foldl([], (l, x) => l.append(range(0, 60).foldl({ ...x, recs: [] }, (r, k) => advance(cfg[0], r))))
    all { m::keep, part' = part, num' = num, sc' = sc, sz' = sz, phase' = phase, cfg' = cfg, run_' = r2,
          tmLow' = r2.foldl(tmLow, (t, x) => x.recs.foldl(t, (a, w) => min2(a, if (cfg[0].kind == "parallel") w.tmTemp else a))),
          cold' = r2.foldl(cold, (d, x) => if (x.i <= 1440) 1000 * S else x.recs.foldl(d, (a, w) => min2(a, w.delivery))),
          dry' = r2.foldl(dry, (d, x) => if (x.i <= 1440) 0 else x.recs.foldl(d, (a, w) => if (w.usable <= 0) a + 1 else a)) }
  }
  action idle = all { m::keep, part' = part, num' = num, sc' = sc, sz' = sz, phase' = phase, cfg' = cfg, run_' = run_, tmLow' = tmLow, cold' = cold, dry' = dry }
  action step = if (phase == 0) build else if (phase == 1) hour else idle

  val runs = phase == 1
  // ---- the loop stays warm: heaters that outpace the loss at the on temperature never let the tank
  // fall further below it than a step's loss
  val keepsUp = runs and mul(sz.tmCap, S) >= mul(mul(60 * sc.gpm, RHOCP), sc.tmOn - sc.ret) / 1000
  val stepLoss = mul(sc.gpm, sc.tmOn - sc.ret) * S / max2(sz.tmVol, 1)
  val loopWarm = (not(runs) or sc.kind != "parallel" or not(keepsUp)) or tmLow >= sc.tmOn - stepLoss - 1000
  // ---- a fully installed tame system serves its design day once the first day has settled it
  val served = (not(runs) or not(TAME) or part._1 < 100 or part._2 < 100) or
    and { dry == 0, cold >= sc.supply - (if (sc.kind == "swing") S else 1000) }
  // ---- and one that can neither make nor hold the water runs out
  pure def heatGal(c: SCfg, cap: int, hours: int): int = dv(cap * hours * 1000, mul(RHOCP, c.supply - c.inlet))
  val starved = runs and sc.kind == "primary" and not(shifting(sc)) and run_.length() > 0 and run_[0].i == 4320 and
    muldiv(cfg[0].vol, sc.storage - sc.inlet, sc.supply - sc.inlet) + heatGal(sc, cfg[0].heaters[0].cap[0], 72) < 3 * sc.daily - toFx(1)
  val starvedRunsOut = starved implies (run_[0].outage > 0)
  val inv = and { loopWarm, served, starvedRunsOut }
}

module sizedParallel { import sizedMachine(KINDS = Set("parallel"), LS = Set(0, 1), TAME = false, INSTALLED = Set((100, 100))).* from "./sized" }
module sizedSwing { import sizedMachine(KINDS = Set("swing"), LS = Set(0, 1), TAME = false, INSTALLED = Set((100, 100))).* from "./sized" }
module sizedDesign { import sizedMachine(KINDS = Set("primary", "sprtp", "parallel", "swing"), LS = Set(0), TAME = true, INSTALLED = Set((100, 100))).* from "./sized" }
module sizedShort { import sizedMachine(KINDS = Set("primary"), LS = Set(0), TAME = true, INSTALLED = Set((30, 40), (20, 60), (50, 30), (10, 45), (60, 50))).* from "./sized" }
