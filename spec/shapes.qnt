// Generators of daily load shapes and mode schedules shared by the machines.
module shapes {
  import fixed.* from "./fixed"

  // a day in 64ths, many of its hours drawing exactly a sixteenth of it (what 16 run hours make in an hour)
  pure def level(m: int -> int): List[int] = {
    val d = range(0, 24).foldl({ left: 64, l: [] }, (a, i) => {
      val k = m.get(i)
      val want = if (k < 45) 4 else if (k < 70) k % 4 else 5 + k % 6
      val v = min2(a.left, if (i == 23) a.left else want)
      { left: a.left - v, l: a.l.append(v * (S / 64)) } }).l
    range(0, 24).foldl([], (l, h) => l.append(d[(h + m.get(0)) % 24]))
  }

  // 24 fractions adding up to (almost) one; `kind` picks the family of shapes
  pure def weights(m: int -> int, kind: int): List[int] = if (kind == 6) level(m) else {
    val w = range(0, 24).foldl([], (l, h) => l.append(
      if (kind == 0) m.get(h) + 1
      else if (kind == 1) (if (m.get(h) > 70) m.get(h) else 0)
      else if (kind == 2) (if (h == m.get(0) % 24) 60 else 2)
      else if (kind == 3) (if (h == 7 or h == 8 or h == 19) 30 else m.get(h) / 10 + 1)
      else if (kind == 5) (if ((h + m.get(0)) % 24 < 1 + m.get(1) % 5) 40 + m.get(h) else if ((h + m.get(2)) % 24 < 1 + m.get(3) % 4) 25 + m.get(h) else m.get(h) / 12)
      else 5))
    val w2 = if (sumL(w) == 0) w.replaceAt(7, 3) else w
    val t = sumL(w2)
    w2.foldl([], (l, x) => l.append(x * S / t))
  }

  // kind 0: no shifting; otherwise a shed block of `len` hours from s0 (cyclic), preceded by
  // `lu` load-up hours, and a second one-hour shed later when `two`
  pure def sched(kind: int, s0: int, len: int, lu: int, two: bool): List[str] =
    range(0, 24).foldl([], (l, h) => l.append(
      if (kind == 0) "normal"
      else if ((h + 24 - s0) % 24 < len) "shed"
      else if ((s0 + 24 - h) % 24 <= lu) "loadUp"
      else if (two and (h + 24 - s0) % 24 == len + 4) "shed"
      else "normal"))
}
