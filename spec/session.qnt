// Histories of calls on one building and its system.  A call may switch the building to its daily
// shape, change run hours or demand while it works, and end in an error; what a user can see between
// calls is only what the user set, and each answer depends on the inputs and that setting alone.
module sessionMachine {
  import fixed.* from "./fixed"
  import sizing.* from "./sizing"
  import lsdata.* from "./lsdata"
  import engine.* from "./engine"

  const SCHEMATICS: Set[str]
  const SHIFT: Set[int]
  const OPS: List[str]
  import engineMachine(SCHEMATICS = SCHEMATICS, SHIFT = SHIFT, PRE = Set(0), PLACES = Set("design")) as g from "./engine"

  // what the building shows: its daily use (percent of the described one) and whether the annual shape is on
  type Env = { load: int, annual: bool }
  type Call = { op: str, arg: int }
  type Ans = { ok: bool, size: List[int] }
  var user: Env            // what the user set
  var env: Env             // what the building holds now
  var call: Call           // the call under way or just finished
  var inside: bool
  var ans: Ans

  val family = g::e.use.ty == 0
  val built = g::res.miss == "" and not(g::res.impossible) and (g::res.size.ok or g::res.cfg.kind == "mprtp")
  pure val NOANS = { ok: true, size: [] }
  pure val SIZING = Set("results", "hours", "cover", "resize", "live", "points", "blind", "plot", "unsized")

  action init = all { g::init, user' = { load: 100, annual: false }, env' = { load: 100, annual: false }, call' = { op: "new", arg: 0 },
                      inside' = false, ans' = { ok: true, size: [] } }
  action same = all { g::hold }
  // the user's own switches
  action setAnnual = all { same, user' = if (family) { ...user, annual: true } else user, env' = if (family) { ...env, annual: true } else env,
    call' = { op: "annual", arg: 0 }, inside' = false, ans' = { ok: family, size: [] } }
  action setDaily = all { same, user' = if (family) { ...user, annual: false } else user, env' = if (family) { ...env, annual: false } else env,
    call' = { op: "daily", arg: 0 }, inside' = false, ans' = { ok: family, size: [] } }
  // a call begins: sizing calls put the daily shape on, trade-off points change the demand
  action begin = {
    nondet i = 0.to(OPS.length() - 1).oneOf()
    nondet a = 0.to(4).oneOf()
    // a swing plant has a curve only once sized: its points rest on the sized swing tank
    val o = if (OPS[i] == "unsized" and g::res.cfg.kind == "swing") "hours" else OPS[i]
    all { same, user' = user, call' = { op: o, arg: a }, inside' = true, ans' = ans,
          env' = { load: if (o == "points") 120 else env.load, annual: env.annual and not(o.in(SIZING)) } }
  }
  // and ends, with an answer or an error; either way the building is as the user set it
  pure def altered(c: SCfg, a: int): SCfg =
    if (a == 0) c else if (a == 1) { ...c, runHr: toFx(20) } else if (a == 2) { ...c, runHr: toFx(11) } else if (a == 3) { ...c, daily: c.daily }
    else { ...c, gpm: 4000 * S }
  // the system itself sized again, for another building or with other settings (and then as before)
  pure def another(c: SCfg, a: int): SCfg =
    if (a == 0) { ...c, daily: 2 * c.daily } else if (a == 1) { ...c, fract: cent(90) } else if (a == 2) { ...c, ctl: Map(), sched: [] } else { ...c, slope: cent(400) }
  action finish = {
    val c = g::res.cfg
    val z = if (call.op == "resize" and c.kind != "mprtp") sizeOf(altered(c, call.arg)) else if (call.op == "live") sizeOf(another(c, call.arg)) else g::res.size
    val fails = or { call.op == "blind", call.op == "live" and (call.arg == 4 or not(z.ok)), call.op == "cover" and not(shifting(c)), call.op == "resize" and not(z.ok) and c.kind != "mprtp" }
    all { same, user' = user, call' = call, inside' = false, env' = user,
          ans' = { ok: not(fails), size: if (call.op.in(Set("results", "resize", "live")) and not(fails) and c.kind != "mprtp" and z.margin > 2000) [z.cap, z.sto] else [] } }
  }
  action step = if (not(built)) all { g::step, user' = user, env' = env, call' = { op: "new", arg: 0 }, inside' = false, ans' = NOANS }
    else if (inside) finish
    else any { begin, begin, begin, setAnnual, setDaily }

  // between calls the building is what the user made it
  val asSet = inside or env == user
  val onlyFamilies = not(user.annual) or family
  val inv = asSet and onlyFamilies
}
module sessionAll { import sessionMachine(SCHEMATICS = Set("primary_no_recirc", "parallel_loop", "swing_tank", "single_pass_rtp"), SHIFT = Set(0, 1), OPS = ["results", "hours", "cover", "resize", "live", "live", "unsized", "unsized", "blind", "plot", "sim3"]).* from "./session" }
module sessionYear { import sessionMachine(SCHEMATICS = Set("primary_no_recirc", "parallel_loop", "swing_tank", "single_pass_rtp"), SHIFT = Set(0), OPS = ["results", "sim3", "year", "cost", "cost"]).* from "./session" }
module sessionMp { import sessionMachine(SCHEMATICS = Set("multi_pass_rtp"), SHIFT = Set(0), OPS = ["results", "hours", "resize", "sim3"]).* from "./session" }
