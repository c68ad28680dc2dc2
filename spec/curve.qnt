// Sizing curves: a sized system, and a walk along the trade-off its designer is shown - fewer and
// fewer run hours (storage against capacity), or more and more days of load shifting covered.
module curveMachine {
  import fixed.* from "./fixed"
  import lsdata.* from "./lsdata"
  import sizing.* from "./sizing"

  const KINDS: Set[str]
  const LS: Set[int]
  // true: coverage curve of a load-shifting system, false: run-hour curve
  const COVER: bool
  import sizingMachine(KINDS = KINDS, LS = LS) as m from "./sizing"

  type Pt = { at: int, i: int, cap: int, sto: int, running: int, ok: bool, margin: int }
  var stepH: int
  var hours: List[int]
  var rec: int
  var pts: List[Pt]
  var phase: int        // 0 drawn, 1 walking, 2 at the end

  // the same system without load shifting, for another number of run hours
  pure def plain(c: SCfg, h: int): SCfg =
    { ...c, runHr: h, sched: if (shifting(c)) range(0, 24).foldl([], (l, i) => l.append("normal")) else c.sched,
            ctl: if (shifting(c)) Map("normal" -> c.ctl.get("normal")) else c.ctl }
  pure def pointAt(c: SCfg, hs: List[int], i: int): Pt = {
    val z = if (COVER) sizeOf({ ...c, fract: fractOf(25 + i) }) else sizeOf(plain(c, hs[i]))
    { at: if (COVER) 25 + i else hs[i], i: i, cap: z.cap, sto: z.sto, running: z.running, ok: z.ok, margin: z.margin }
  }

  action init = all { m::init, stepH' = S / 4, hours' = [], rec' = 0, pts' = [], phase' = 0 }
  action choose = {
    nondet q = Set(25, 50, 100).oneOf()
    nondet i0 = 0.to(12).oneOf()
    val hs = if (COVER) { hours: range(25, 101), rec: m::pct - 25 } else curveHours(m::c, cent(q))
    val n = hs.hours.length()
    all { m::keep, stepH' = cent(q), hours' = hs.hours, rec' = hs.rec,
          pts' = if (m::r.ok and n > 0) [pointAt(m::c, hs.hours, min2(i0, n - 1))] else [],
          phase' = if (m::r.ok and n > 0) 1 else 2 }
  }
  action walk = {
    nondet k = 1.to(9).oneOf()
    val last = pts[pts.length() - 1].i
    val i = if (last < rec and last + k > rec and rec < hours.length()) rec else last + k
    if (i >= hours.length()) all { m::keep, stepH' = stepH, hours' = hours, rec' = rec, pts' = pts, phase' = 2 }
    else all { m::keep, stepH' = stepH, hours' = hours, rec' = rec, pts' = pts.append(pointAt(m::c, hours, i)), phase' = 1 }
  }
  action redraw = all { m::step, stepH' = stepH, hours' = [], rec' = 0, pts' = [], phase' = 0 }
  action step = if (phase == 0) choose else if (phase == 1) walk else redraw

  pure val EPS = 1000000
  val direct = m::c.kind != "swing"
  // the marked point is the system's own size
  val marksOwn = range(0, pts.length()).foldl(true, (b, j) => b and
    (pts[j].i != rec or rec >= hours.length() or (not(COVER) and shifting(m::c)) or
     (near(pts[j].cap, m::r.cap, EPS) and near(pts[j].sto, m::r.sto, EPS))))
  // fewer run hours: more capacity and no more storage; more coverage: no less capacity
  val monotone = pts.length() < 2 or range(1, pts.length()).foldl(true, (b, j) => b and {
    val x = pts[j - 1]
    val y = pts[j]
    or { not(direct), not(x.ok), not(y.ok), if (COVER) y.cap >= x.cap - EPS and (y.cap > x.cap + EPS or y.sto >= x.sto - EPS) else y.cap > x.cap and y.sto <= x.sto + EPS } })
  // every point of the run-hour curve needs storage
  val needsStorage = COVER or not(direct) or range(0, pts.length()).foldl(true, (b, j) => b and (not(pts[j].ok) or pts[j].running > 0))
  val inv = marksOwn and monotone and needsStorage
}
module curveHours3 { import curveMachine(KINDS = Set("primary", "sprtp", "parallel"), LS = Set(0, 1), COVER = false).* from "./curve" }
module curveSwing { import curveMachine(KINDS = Set("swing"), LS = Set(0), COVER = false).* from "./curve" }
module curveCover { import curveMachine(KINDS = Set("primary", "sprtp", "parallel"), LS = Set(1), COVER = true).* from "./curve" }
module curveCoverSwing { import curveMachine(KINDS = Set("swing"), LS = Set(1), COVER = true).* from "./curve" }
