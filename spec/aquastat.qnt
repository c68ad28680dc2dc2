// Aquastat controller of one heater: hysteresis between an ON sensor and an OFF sensor,
// with the sensors and triggers of the mode scheduled for the hour.
module aquastat {
  // heights are indices into a list of sensor temperatures
  type Controls = { onH: int, onT: int, offH: int, offT: int, outT: int }

  pure def nextOn(on: bool, c: Controls, temps: List[int]): bool =
    if (on) not(temps[c.offH] >= c.offT) else temps[c.onH] < c.onT
}

module aquastatMachine {
  import aquastat.*

  pure val MODES = Set("normal", "loadUp", "shed")
  pure val NH = 5                       // number of sensor heights

  var sched: int -> str                 // hour -> mode
  var ctl: str -> Controls              // setpoints by mode (a mode may have none)
  var cap: int                          // capacity of the heater (kBTU/hr)
  var on: bool
  var wasOn: bool
  var failed: bool                      // the last update was refused
  var ev: { op: str, hour: int, temps: List[int] }

  action init = {
    nondet s = 0.to(23).setOfMaps(MODES).oneOf()
    nondet plain = Set(true, false, false).oneOf()
    nondet have = Set(Set("normal"), Set("normal", "shed"), Set("normal", "loadUp"), MODES, MODES, MODES, Set("shed", "loadUp")).oneOf()
    nondet onH = MODES.setOfMaps(0.to(NH - 1)).oneOf()
    nondet offH = MODES.setOfMaps(0.to(NH - 1)).oneOf()
    nondet onT = MODES.setOfMaps(118.to(124)).oneOf()
    nondet offT = MODES.setOfMaps(118.to(126)).oneOf()
    nondet outT = MODES.setOfMaps(130.to(180)).oneOf()
    nondet k = 5.to(2000).oneOf()
    all {
      sched' = 0.to(23).mapBy(h => if (plain) "normal" else s.get(h)),
      ctl' = have.mapBy(m => { onH: onH.get(m), onT: onT.get(m), offH: offH.get(m), offT: offT.get(m), outT: outT.get(m) }),
      cap' = k, on' = false, wasOn' = false, failed' = false,
      ev' = { op: "init", hour: 0, temps: [0, 0, 0, 0, 0] },
    }
  }

  action keep = all { sched' = sched, ctl' = ctl, cap' = cap, wasOn' = on }

  action update(hour: int, t: List[int]): bool = {
    val m = sched.get(hour)
    all {
      keep,
      ev' = { op: "update", hour: hour, temps: t },
      if (m.in(ctl.keys()))
        all { on' = nextOn(on, ctl.get(m), t), failed' = false }
      else
        all { on' = on, failed' = true },
    }
  }
  action force(v: bool): bool = all {
    keep, on' = v, failed' = false, ev' = { op: if (v) "on" else "off", hour: 0, temps: [0, 0, 0, 0, 0] },
  }

  action step = any {
    { nondet h = 0.to(23).oneOf()
      nondet t = 0.to(NH - 1).setOfMaps(116.to(128)).oneOf()
      update(h, [t.get(0), t.get(1), t.get(2), t.get(3), t.get(4)]) },
    { nondet h = 0.to(23).oneOf()
      nondet u = 117.to(127).oneOf()
      update(h, [u, u, u, u, u]) },
    { nondet h = 0.to(23).oneOf()
      nondet u = 117.to(124).oneOf()
      nondet d = Set(0, 1, 2, 3).oneOf()
      update(h, [u, u + d, u + 2 * d, u + 3 * d, u + 4 * d]) },
    { nondet b = Set(true, false).oneOf()
      force(b) },
  }

  val updated = ev.op == "update" and not(failed)
  val c = ctl.get(sched.get(ev.hour))
  // turns on only below the ON trigger, turns off only at or above the OFF trigger
  val onlyOnWhenCold = (updated and on and not(wasOn)) implies ev.temps[c.onH] < c.onT
  val onlyOffWhenHot = (updated and not(on) and wasOn) implies ev.temps[c.offH] >= c.offT
  val onWhenCold = (updated and not(wasOn) and ev.temps[c.onH] < c.onT) implies on
  val offWhenHot = (updated and wasOn and ev.temps[c.offH] >= c.offT) implies not(on)
  val refused = (ev.op == "update" and not(sched.get(ev.hour).in(ctl.keys()))) implies (failed and on == wasOn)
  val inv = and { onlyOnWhenCold, onlyOffWhenHot, onWhenCold, offWhenHot, refused }
}
