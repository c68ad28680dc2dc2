// Fixed-point arithmetic and small helpers shared by every module.
//
// A real number r is represented by the (unbounded) integer  r * S, truncated.
// Quint integers are unbounded, so products never overflow; the truncation error
// of one operation is below 1/S.
module fixed {
  pure val S = 1000000000000                 // 10^12

  pure def toFx(i: int): int = i * S
  pure def mul(a: int, b: int): int = a * b / S
  pure def dv(a: int, b: int): int = a * S / b
  // a*b/c with a single truncation
  pure def muldiv(a: int, b: int, c: int): int = a * b / c

  pure def min2(a: int, b: int): int = if (a < b) a else b
  pure def max2(a: int, b: int): int = if (a > b) a else b
  pure def clamp(lo: int, hi: int, x: int): int = max2(lo, min2(hi, x))
  pure def absI(a: int): int = if (a < 0) -a else a
  pure def near(a: int, b: int, tol: int): bool = absI(a - b) <= tol
  // hundredths / thousandths -> fixed
  pure def cent(i: int): int = i * S / 100
  pure def milli(i: int): int = i * S / 1000

  pure def sumL(l: List[int]): int = l.foldl(0, (a, x) => a + x)
  pure def maxL(l: List[int]): int = l.foldl(l[0], (a, x) => max2(a, x))
  pure def minL(l: List[int]): int = l.foldl(l[0], (a, x) => min2(a, x))

  // Volumetric heat capacity of water, BTU / (gal * degF)
  pure val RHOCP = 8353535000000
  // kBTU/hr per kW
  pure val KBTU_PER_KW = 3412142000000
}
