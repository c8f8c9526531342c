// Integer arithmetic used by the whole specification. Quint integers are unbounded; `/` and `%`
// truncate, so every operator below is applied to non-negative operands unless it says otherwise.
module base {
  pure def imin(a: int, b: int): int = if (a < b) a else b
  pure def imax(a: int, b: int): int = if (a > b) a else b
  pure def iabs(a: int): int = if (a < 0) -a else a
  pure def isgn(a: int): int = if (a < 0) -1 else if (a > 0) 1 else 0
  pure def p2(n: int): int = 2^n

  // floor and ceiling of a/b for b > 0 and any a
  pure def fdiv(a: int, b: int): int = if (a >= 0) a / b else -((b - 1 - a) / b)
  pure def cdiv(a: int, b: int): int = -fdiv(-a, b)
  pure def fmod(a: int, b: int): int = a - b * fdiv(a, b)

  // number of binary digits of n >= 0
  pure def bitlen(n: int): int =
    if (n <= 0) 0 else {
      val k = range(0, 26).foldl((0, false), (a, i) =>
        if (a._2) a else if (n < 2^(2^i)) (i, true) else (i + 1, false))._1
      range(0, k).foldl((0, n), (acc, i) => {
        val sh = 2^(k - 1 - i)
        if (acc._2 >= 2^sh) (acc._1 + sh, acc._2 / 2^sh) else acc
      })._1 + 1
    }

  // number of trailing zero bits of n > 0
  pure def tz(n: int): int =
    if (n <= 0) 0 else {
      val k = range(0, 26).foldl((0, false), (a, i) =>
        if (a._2) a else if (n % 2^(2^i) != 0) (i, true) else (i + 1, false))._1
      range(0, k).foldl((0, n), (acc, i) => {
        val sh = 2^(k - 1 - i)
        if (acc._2 % 2^sh == 0) (acc._1 + sh, acc._2 / 2^sh) else acc
      })._1
    }

  // a * 2^k for any sign of k, truncating toward zero (a >= 0) when k < 0
  pure def shl(a: int, k: int): int = if (k >= 0) a * 2^k else a / 2^(-k)

  // floor of the square root of n >= 0
  pure def isqrt(n: int): int =
    if (n < 2) n else {
      val s0 = 2^((bitlen(n) + 1) / 2)
      // Newton from above decreases until it reaches the floor of the root
      range(0, 64).foldl((s0, false), (a, _) =>
        if (a._2) a else {
          val y = (a._1 + n / a._1) / 2
          if (y >= a._1) (a._1, true) else (y, false)
        })._1
    }

  // floor of the cube root of n >= 0
  pure def icbrt(n: int): int =
    if (n < 2) n else {
      val s0 = 2^((bitlen(n) + 2) / 3)
      range(0, 96).foldl((s0, false), (a, _) =>
        if (a._2) a else {
          val y = (2 * a._1 + n / (a._1 * a._1)) / 3
          if (y >= a._1) (a._1, true) else (y, false)
        })._1
    }

  pure def gcd(a: int, b: int): int =
    range(0, 2 * imax(bitlen(a), bitlen(b)) + 2).foldl((a, b), (x, _) =>
      if (x._2 == 0) x else (x._2, x._1 % x._2))._1
}
