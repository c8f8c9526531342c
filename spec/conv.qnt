// Building numbers from machine values, words and raw parts, and taking them apart.
module conv {
  import base.* from "./base"
  import num.* from "./num"
  import fun.* from "./fun"
  import lib.* from "./lib"
  import order.* from "./order"

  pure val OINTC: int = 90      // from_i8 .. from_u128 (c: 0-4 signed 8..128 bits, 5-9 unsigned; +16: From)
  pure val OF64: int = 91
  pure val OF32: int = 92
  pure val OWORDS: int = 93
  pure val OWORD: int = 95
  pure val OACC: int = 96
  pure val OSETE: int = 97
  pure val OSIGN: int = 99      // c: 0 inv_sign, 1 set_sign(+), 2 set_sign(-), 3 set_inexact(true), 4 set_inexact(false), 5 clone
  pure val OMAKE: int = 100     // c: 0 new, 1 max_value, 2 min_value, 3 min_positive, 4 min_positive_normal, 5 default, 6 from_word, 7 nan
  pure val OFROMEXT: int = 101  // like OINTC/OF64/OF32 by c (10: f64, 11: f32), through precision 128
  pure val ORANDOM: int = 110
  pure val ODESERNUM: int = 88     // deserialized from a machine number: c 0 u64, 1 f64, 2 i64 (y with sign flag), 3 f32

  pure val DEFP: int = 128
  pure def sizeOf(c: int): int = 2^(3 + c % 16 % 5)

  // s * m * 2^x at precision p, rounded if it must be
  pure def dy(s: int, m: int, x: int, p: int, rm: int): Num =
    if (m == 0) zero(s, roundP(p), false) else roundDy(s, m, x, roundP(p), rm)

  // exact conversion to precision p: p too small to hold the type gives an invalid-argument NaN
  pure def expInt128(s: int, m: int, bits: int, p: int): Exp =
    if (p < bits or p >= PLIM) eInval else eNum(dy(s, m, 0, p, RZERO))

  // IEEE bits: value or special
  pure def ieee(b: int, eb: int, mb: int): Exp = {
    val s = if (b / 2^(eb + mb) % 2 == 1) -1 else 1
    val e = b / 2^mb % 2^eb
    val f = b % 2^mb
    val bias = 2^(eb - 1) - 1
    if (e == 2^eb - 1) (if (f == 0) eInf(s) else eInval)
    else if (e == 0) eVal(rexact(s, f, 1, 1 - bias - mb), false)
    else eVal(rexact(s, f + 2^mb, 1, e - bias - mb), false)
  }
  // the sign of zero is not observable through the machine types' value
  pure def judgeIeee(ev: Ev, b: int, eb: int, mb: int, p: int): List[int] = {
    val ex = ieee(b, eb, mb)
    if (p >= PLIM) verdict(14, ev, eInval, true)
    else if (p == 0) verdict(14, ev, eAny, true)
    else if (ex.t != TVAL) verdict(14, ev, ex, true)
    else if (ex.r.lo == 0)
      (if (stopped(ev, 14000).length() > 0) stopped(ev, 14000) else if (noMem(ev)) []
       else if (ev.r.k == KFIN and ev.r.m == 0 and ev.r.e == 0) tagIf(ev.r.p != roundP(p), 14005).concat(tagIf(ev.r.p != roundP(p), 16005)).concat(tagIf(ev.r.ix, 15007)) else [14004])
    // known finding: a subnormal f64 becomes half its value
    else if (eb == 11 and b / 2^mb % 2^eb == 0 and verdict(14, ev, eNum(dy(ex.r.s, ex.r.lo, ex.r.x - 1, p, RZERO)), false).length() == 0) [14500]
    else verdict(14, ev, eNum(dy(ex.r.s, ex.r.lo, ex.r.x, p, RZERO)), false)
  }
  // integer of event: magnitude y with sign flag
  pure def evSign(ev: Ev): int = if (ev.neg) -1 else 1

  // words: y = sum of the words, z = number of words, x exponent
  pure def expWords(ev: Ev): Exp = {
    val p = ev.z * WORD
    if (ev.y == 0) eNum(zero(evSign(ev), p, false))
    else {
      val sh = imin(p - bitlen(ev.y), ev.x - EMIN)
      eNum(fin(evSign(ev), ev.y * 2^sh, ev.x - sh, p, false))
    }
  }
  pure def expSetE(a: Num, e: int): Exp =
    if (a.k != KFIN or a.m == 0) eNum(a)
    else {
      val sh = imin(a.p - bitlen(a.m), e - EMIN)
      eNum(fin(a.s, a.m * 2^sh, e - sh, a.p, a.ix))
    }
  pure def expSign(a: Num, c: int): Exp =
    if (c == 5 or isNan(a)) eNum(a)
    else if (c == 0) eNum(a.with("s", -a.s))
    else if (c == 1) eNum(a.with("s", 1))
    else if (c == 2) eNum(a.with("s", -1))
    else if (isInf(a)) eNum(a)
    else eNum(a.with("ix", c == 3))
  pure def expMake(c: int, p: int, w: int): Exp =
    if (c == 5) eNum(zero(1, DEFP, false))
    else if (c == 7) eNan
    else if (eBad(p)) eInval
    else {
      val P = roundP(p)
      if (c == 0) eNum(zero(1, P, false))
      else if (P == 0) eAny
      else if (c == 1) eNum(fin(1, 2^P - 1, EMAX, P, false))
      else if (c == 2) eNum(fin(-1, 2^P - 1, EMAX, P, false))
      else if (c == 3) eNum(fin(1, 1, EMIN, P, false))
      else if (c == 4) eNum(fin(1, 2^(P - 1), EMIN, P, false))
      else eNum(dy(1, w, 0, P, RZERO))
    }
  // conversion through the default precision, then to p in mode rm
  pure def judgeFromExt(ev: Ev): List[int] = {
    val ex = if (ev.c == 10) ieee(ev.y, 11, 52) else if (ev.c == 11) ieee(ev.y, 8, 23) else eVal(rexact(evSign(ev), ev.y, 1, 0), false)
    if (ex.t != TVAL) verdict(14, ev, ex, true)
    else if (ev.p >= PLIM) verdict(14, ev, eInval, true)
    else if (ev.p == 0) verdict(14, ev, eAny, true)
    else if (ex.r.lo == 0) (if (stopped(ev, 14000).length() > 0) stopped(ev, 14000) else if (ev.r.k == KFIN and ev.r.m == 0) [] else [14004])
    else {
      def judgeAs(x) = {
        val v = dy(ex.r.s, ex.r.lo, x, DEFP, RZERO)
        // set_precision rounds to exactly p bits
        val w = if (ev.rm == RNONE) between(setp(v, ev.p, RZERO), setp(v, ev.p, RAWAY), ev.r) else setp(v, ev.p, ev.rm)
        verdict(14, ev, eNum(w), false)
      }
      if (ev.c == 10 and ev.y / 2^52 % 2^11 == 0 and judgeAs(ex.r.x - 1).length() == 0) [14500]
      else judgeAs(ex.r.x)
    }
  }
  // accessors: the number rebuilt from them must be the register; y: bit 0 precision() agrees with as_raw_parts,
  // bit 1 mantissa_digits agrees, bit 2 err agrees
  pure def judgeAcc(a: Num, ev: Ev): List[int] =
    if (stopped(ev, 14000).length() > 0) stopped(ev, 14000)
    else tagIf(not(same(a, ev.r) and a.n == ev.r.n and a.e == ev.r.e), 14004).concat(tagIf(ev.y != 0, 14010))

  // x: lower bound of the exponent; z: upper bound + 2^40
  pure def judgeRandom(ev: Ev): List[int] = {
    val hi = ev.z - 2^40
    if (stopped(ev, 22000).length() > 0) stopped(ev, 22000)
    else if (eBad(ev.p)) (if (ev.r.k == KNAN and ev.r.e == EINVAL) [] else [22008])
    else if (ev.p == 0) []
    else if (noMem(ev)) []
    else if (ev.r.k != KFIN) [22002]
    else tagIf(not(wellFormed(ev.r)), 22006).concat(tagIf(not(wellFormed(ev.r)), 16006))
      .concat(tagIf(ev.r.p != roundP(ev.p), 22005))
      .concat(tagIf(ev.r.m == 0 or bitlen(ev.r.m) != ev.r.p, 22006))
      .concat(tagIf(ev.r.ix, 22007))
      .concat(tagIf(if (ev.x <= hi) not(ev.x <= ev.r.e and ev.r.e <= hi) else ev.r.e != ev.x, 22004))
  }

  // a number from a serialized machine number (c 0: u64, 1: f64, 2: i64, 3: f32): its value, or an error
  pure def isValue(a: Num, s: int, m: int, x: int): bool = {
    val low = imin(a.e - a.p, x)
    if (a.m == 0 or m == 0) a.m == m
    else if (a.e < -9999 or a.e > 9999) false
    else a.s == s and a.m * 2^(a.e - a.p - low) == m * 2^(x - low)
  }
  pure def judgeDeserNum(ev: Ev): List[int] = {
    val ex = if (ev.c == 1) ieee(ev.y, 11, 52) else if (ev.c == 3) ieee(ev.y, 8, 23) else eVal(rexact(evSign(ev), ev.y, 1, 0), false)
    if (stopped(ev, 21000).length() > 0) stopped(ev, 21000)
    else if (ev.r.k == KERR or noMem(ev)) []
    else if (ex.t != TVAL) tagIf(ev.r.k != ex.v.k or (isInf(ev.r) and ev.r.s != ex.v.s), 21002)
    else if (ev.r.k != KFIN) [21002]
    else if (not(wellFormed(ev.r))) [21006, 16006]
    else if (isValue(ev.r, ex.r.s, ex.r.lo, ex.r.x)) tagIf(ev.r.ix, 15007)
    // known finding: a subnormal f64 becomes half its value
    else if (ev.c == 1 and ev.y / 2^52 % 2^11 == 0 and isValue(ev.r, ex.r.s, ex.r.lo, ex.r.x - 1)) [21500]
    else [21004]
  }

  pure def judgeConv(a: Num, ev: Ev): List[int] =
    if (ev.op == OINTC) verdict(14, ev, expInt128(evSign(ev), ev.y, sizeOf(ev.c), if (ev.c >= 16) DEFP else ev.p), false)
    else if (ev.op == OF64) judgeIeee(ev, ev.y, 11, 52, if (ev.c >= 16) DEFP else ev.p)
    else if (ev.op == OF32) judgeIeee(ev, ev.y, 8, 23, if (ev.c >= 16) DEFP else ev.p)
    else if (ev.op == OWORDS) verdict(14, ev, expWords(ev), false)
    else if (ev.op == OACC) judgeAcc(a, ev)
    else if (ev.op == OSETE) verdict(14, ev, expSetE(a, ev.x), a.k != KFIN)
    else if (ev.op == OSIGN) verdict(14, ev, expSign(a, ev.c), a.k != KFIN)
    else if (ev.op == OMAKE) verdict(14, ev, expMake(ev.c, ev.p, ev.y), false)
    else if (ev.op == OFROMEXT) judgeFromExt(ev)
    else if (ev.op == ORANDOM) judgeRandom(ev)
    else if (ev.op == ODESERNUM) judgeDeserNum(ev)
    else []
}
