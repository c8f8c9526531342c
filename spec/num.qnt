// The numbers of the library and correct rounding.
module num {
  import base.* from "./base"

  // The exponent range of the library (value = 0.m * 2^e).
  pure val EMIN: int = -2147483648
  pure val EMAX: int = 2147483647
  pure val WORD: int = 64

  // rounding modes (the discriminants of the library)
  pure val RNONE: int = 1
  pure val RUP: int = 2
  pure val RDOWN: int = 4
  pure val RZERO: int = 8
  pure val RAWAY: int = 16
  pure val REVEN: int = 32
  pure val RODD: int = 64

  // error codes carried by NaN
  pure val ENONE: int = 0
  pure val EOVERP: int = 1
  pure val EOVERN: int = 2
  pure val EDIV0: int = 3
  pure val EINVAL: int = 4
  pure val EMEM: int = 5

  // kinds
  pure val KFIN: int = 0
  pure val KINF: int = 1
  pure val KNAN: int = 2
  pure val KPANIC: int = 3
  pure val KABORT: int = 4
  pure val KHANG: int = 5

  // A number. Finite: value = s * m * 2^(e - p), 0 <= m < 2^p, p a multiple of the word size,
  // n = number of significant bits the library reports, ix = inexact flag.
  // Infinity: sign s. NaN: error code in e.
  type Num = { k: int, s: int, m: int, e: int, p: int, n: int, ix: bool }

  pure def fin(s: int, m: int, e: int, p: int, ix: bool): Num =
    { k: KFIN, s: s, m: m, e: e, p: p, n: bitlen(m), ix: ix }
  pure def inf(s: int): Num = { k: KINF, s: s, m: 0, e: 0, p: 0, n: 0, ix: false }
  pure def nan(err: int): Num = { k: KNAN, s: 0, m: 0, e: err, p: 0, n: 0, ix: false }
  pure def zero(s: int, p: int, ix: bool): Num = fin(s, 0, 0, p, ix)

  pure def isFin(x: Num): bool = x.k == KFIN
  pure def isInf(x: Num): bool = x.k == KINF
  pure def isNan(x: Num): bool = x.k == KNAN
  pure def isZero(x: Num): bool = x.k == KFIN and x.m == 0
  pure def sgn(x: Num): int = if (isZero(x)) 0 else x.s

  // precision rounded up to whole words
  pure def roundP(p: int): int = (p + WORD - 1) / WORD * WORD

  // A finite number is well formed: whole words, reported length right, normalized unless at EMIN,
  // zero has exponent 0.
  pure def wellFormed(x: Num): bool =
    if (x.k == KFIN) and {
      x.p >= 0, x.p % WORD == 0,
      x.s == 1 or x.s == -1,
      x.m >= 0, bitlen(x.m) <= x.p,
      EMIN <= x.e, x.e <= EMAX,
      x.n == bitlen(x.m),
      x.m == 0 or x.e == EMIN or x.n == x.p,
      x.m == 0 implies x.e == 0
    } else x.k == KINF or x.k == KNAN

  // Numbers as exact dyadic values: v = s * m * 2^x
  pure def lsb(x: Num): int = x.e - x.p     // weight of the last mantissa bit

  // ---------------------------------------------------------------- rounding
  // increment decision. q: truncated magnitude, half: -1/0/1 = remainder below/at/above one half,
  // some: remainder is not zero.
  pure def incr(s: int, q: int, half: int, some: bool, rm: int): bool =
    if (not(some)) false
    else if (rm == RUP) s > 0
    else if (rm == RDOWN) s < 0
    else if (rm == RAWAY) true
    else if (rm == REVEN) half > 0 or (half == 0 and q % 2 == 1)
    else if (rm == RODD) half > 0 or (half == 0 and q % 2 == 0)
    else false                                   // RZERO, RNONE

  // The real number s * (a/b) * 2^x (a, b > 0) rounded once to precision p in mode rm, in the
  // unbounded-above, gradual-underflow-below format of the library.
  pure def roundRat(s: int, a: int, b: int, x: int, p: int, rm: int): Num = {
    // exponent e with 2^(e-1) <= a/b*2^x < 2^e
    val d = bitlen(a) - bitlen(b)
    // 2^(d-1) < a/b < 2^(d+1)
    val big = if (d >= 0) a >= b * 2^d else a * 2^(-d) >= b
    val e = (if (big) d + 1 else d) + x
    val ee = imax(e, EMIN)
    // unit in the last place is 2^(ee-p); quotient a*2^(x-(ee-p))/b
    val sh = x - (ee - p)
    val num = if (sh >= 0) a * 2^sh else a
    val den = if (sh >= 0) b else b * 2^(-sh)
    val q = num / den
    val rem = num - q * den
    val half = isgn(2 * rem - den)
    val inc = incr(s, q, half, rem != 0, rm)
    val q1 = if (inc) q + 1 else q
    val carry = q1 == 2^p
    val m = if (carry) 2^(p - 1) else q1
    val e1 = if (carry) ee + 1 else ee
    if (e1 > EMAX) inf(s)
    else if (m == 0) zero(s, p, true)
    else fin(s, m, e1, p, rem != 0)
  }

  // far below the subnormal range the quotient computation would need a huge shift: clamp
  // the position (only "non-zero and smaller than a quarter of the smallest subnormal" matters)
  pure def roundDy(s: int, a: int, x: int, p: int, rm: int): Num =
    if (a == 0) zero(s, p, false)
    else {
      val e = bitlen(a) + x
      if (e < EMIN - p - 2) roundRat(s, 1, 1, EMIN - p - 3, p, rm)
      else if (e > EMAX + 2) inf(s)
      else roundRat(s, a, 1, x, p, rm)
    }

  pure def roundQ(s: int, a: int, b: int, x: int, p: int, rm: int): Num =
    if (a == 0) zero(s, p, false)
    else {
      val e = bitlen(a) - bitlen(b) + x
      if (e < EMIN - p - 4) roundRat(s, 1, 1, EMIN - p - 5, p, rm)
      else if (e > EMAX + 4) inf(s)
      else roundRat(s, a, b, x, p, rm)
    }

  // compare exact values a*2^x and b*2^y (a, b >= 0): -1, 0, 1
  pure def cmpDy(a: int, x: int, b: int, y: int): int =
    if (a == 0 or b == 0) isgn(a - b)
    else {
      val ea = bitlen(a) + x
      val eb = bitlen(b) + y
      if (ea != eb) isgn(ea - eb)
      else if (x >= y) isgn(a * 2^(x - y) - b)
      else isgn(a - b * 2^(y - x))
    }

  pure def cmpAbs(a: Num, b: Num): int = cmpDy(a.m, lsb(a), b.m, lsb(b))
  pure def cmpNum(a: Num, b: Num): int = {
    val sa = sgn(a)
    val sb = sgn(b)
    if (sa != sb) isgn(sa - sb) else if (sa == 0) 0 else sa * cmpAbs(a, b)
  }

  // same number up to the inexact flag (value, sign, precision, exponent) / same value
  pure def sameRep(a: Num, b: Num): bool =
    a.k == b.k and a.s == b.s and a.m == b.m and a.e == b.e and a.p == b.p
  pure def sameVal(a: Num, b: Num): bool =
    if (a.k == KFIN and b.k == KFIN) cmpNum(a, b) == 0 else a.k == b.k and a.s == b.s
}
