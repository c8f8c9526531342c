// The library as a specification: what each public operation may return.
// An observed event is judged against the state of the model (the register file that holds every
// number the trace has produced so far); the verdict is a list of tags property*1000 + reason.
module lib {
  import base.* from "./base"
  import num.* from "./num"
  import fixed.* from "./fixed"
  import fun.* from "./fun"

  // operation codes
  pure val OLOADRAW: int = 94
  pure val OADD: int = 1
  pure val OSUB: int = 2
  pure val OMUL: int = 3
  pure val ODIV: int = 4
  pure val ORECIP: int = 5
  pure val OSQRT: int = 6
  pure val OCBRT: int = 7
  pure val OADDF: int = 10
  pure val OSUBF: int = 11
  pure val OMULF: int = 12
  pure val OREM: int = 13
  pure val ONEG: int = 14
  pure val OABS: int = 15
  pure val OINT: int = 16
  pure val OFRACT: int = 17
  pure val OFLOOR: int = 18
  pure val OCEIL: int = 19
  pure val OSETP: int = 20
  pure val OROUND: int = 21
  pure val OTRYP: int = 22
  pure val OEXP: int = 30
  pure val OPOW: int = 31
  pure val OPOWI: int = 32
  pure val OLN: int = 33
  pure val OLOG2: int = 34
  pure val OLOG10: int = 35
  pure val OLOG: int = 36
  pure val OSIN: int = 40
  pure val OCOS: int = 41
  pure val OTAN: int = 42
  pure val OASIN: int = 43
  pure val OACOS: int = 44
  pure val OATAN: int = 45
  pure val OSINH: int = 50
  pure val OCOSH: int = 51
  pure val OTANH: int = 52
  pure val OASINH: int = 53
  pure val OACOSH: int = 54
  pure val OATANH: int = 55
  pure val OPI: int = 60
  pure val OE: int = 61
  pure val OLN2: int = 62
  pure val OLN10: int = 63

  pure val OSPECIAL: int = 98

  // result kinds beyond those of numbers
  pure val KERR: int = 6                 // Result::Err, code in e
  pure val KINT: int = 7                 // plain integer or boolean, value in e
  pure val KTEXT: int = 8                // text or digits, in ev.z

  // precisions the library refuses
  pure val PLIM: int = 4611686016279904255     // isize::MAX / 2 + EXPONENT_MIN
  pure val PAUTO: int = 18446744073709551615   // usize::MAX
  pure val ROUNDLIM: int = 4611686018427387903 // isize::MAX / 2

  // An observed call. op, rounding mode, destination and operand registers, memo slot, precision
  // argument, integer arguments x, y, z, flags, and the observed result (r; text results in z).
  type Ev = { op: int, rm: int, dst: int, a: int, b: int, c: int, sl: int, p: int, x: int, y: int, z: int,
              neg: bool, ixin: bool, mut: bool, fault: bool, r: Num }

  // ------------------------------------------------------------------ what is allowed
  pure val TNUM: int = 0       // exactly v
  pure val TNEAR: int = 1      // finite within u units of the real value r (rounding mode None)
  pure val TUND: int = 2       // undetermined by the model: only well-formedness is checked
  pure val TANY: int = 3       // unspecified: only well-formedness is checked
  pure val TVAL: int = 4       // the exact value r, at any precision
  type Exp = { t: int, v: Num, r: R, u: int, ix: bool }
  pure def eNum(v: Num): Exp = { t: TNUM, v: v, r: runk, u: 0, ix: v.ix }
  pure def eNear(r: R, p: int, u: int, ix: bool): Exp = { t: TNEAR, v: zero(1, p, ix), r: r, u: u, ix: ix }
  pure def eVal(r: R, ix: bool): Exp = { t: TVAL, v: zero(1, 0, ix), r: r, u: 0, ix: ix }
  pure val eAny: Exp = { t: TANY, v: nan(0), r: runk, u: 0, ix: false }
  pure val eUnd: Exp = { t: TUND, v: nan(0), r: runk, u: 0, ix: false }
  pure val eInval: Exp = eNum(nan(EINVAL))
  pure val eNan: Exp = eNum(nan(ENONE))
  pure def eInf(s: int): Exp = eNum(inf(s))

  pure def orIx(e: Exp, ix: bool): Exp = e.with("v", e.v.with("ix", e.v.ix or ix)).with("ix", e.ix or ix)

  // what is known about the real value, rounded as asked
  pure def eR(r: R, p: int, rm: int, u: int): Exp =
    if (r.k == RUNK) eUnd
    else if (rm == RNONE) eNear(r, p, u, false)
    else {
      val o = roundR(r, p, rm)
      if (o.ok) eNum(o.v) else eUnd
    }

  // increasing working precision until the rounding is determined
  pure def ziv(f: (int) => R, p: int, px: int, rm: int, u: int): Exp =
    [p + 40, p + 168, 2 * p + px + 300, 2 * (p + px) + 1000, 4 * (p + px) + 4000].foldl((false, eUnd), (a, w) =>
      if (a._1) a else {
        val e = eR(f(w), p, rm, u)
        (e.t != TUND, e)
      })._2

  pure def lt(a: Num): int = bitlen(a.m) + lsb(a)         // |a| < 2^lt(a)
  pure def one(p: int): Num = if (p <= 0) zero(1, 0, true) else fin(1, 2^(p - 1), 1, p, false)

  // ------------------------------------------------------------------ exact sums, products, quotients
  pure def rdy(s: int, m: int, x: int): R = if (m < 0) rexact(-s, -m, 1, x) else rexact(s, m, 1, x)
  pure def rsum(a: Num, b: Num): R =
    if (a.m == 0) rexact(b.s, b.m, 1, lsb(b)) else if (b.m == 0) rexact(a.s, a.m, 1, lsb(a)) else {
    val x = imin(lsb(a), lsb(b))
    val v = a.s * a.m * 2^(lsb(a) - x) + b.s * b.m * 2^(lsb(b) - x)
    if (v == 0) rzero else rdy(1, v, x)
  }
  // sum for rounding to p bits: a far smaller operand only decides the side
  pure def rsumP(a: Num, b: Num, p: int): R =
    if (a.m == 0 and b.m == 0) rzero
    else if (a.m == 0 or b.m == 0) rsum(a, b)
    else {
      val g = lt(a) - lt(b)
      val big = if (g >= 0) a else b
      val small = if (g >= 0) b else a
      val W = p + big.p + 12
      if (iabs(g) > W + 4) (if (big.s == small.s) rabove(dOf(big), W) else rbelow(dOf(big), W))
      else rsum(a, b)
    }
  pure def rprod(a: Num, b: Num): R =
    if (a.m == 0 or b.m == 0) rexact(a.s * b.s, 0, 1, 0) else rexact(a.s * b.s, a.m * b.m, 1, lsb(a) + lsb(b))
  pure def rquot(a: Num, b: Num): R =
    if (a.m == 0) rexact(a.s * b.s, 0, 1, 0) else rexact(a.s * b.s, a.m, b.m, lsb(a) - lsb(b))
  pure def rsqrt(a: Num, p: int): R = {
    val x = lsb(a)
    // a.m * 2^x with an even exponent and at least 2p + 6 bits
    val k = imax(0, 2 * p + 8 - bitlen(a.m))
    val k2 = k + fmod(x - k, 2)
    val n = a.m * 2^k2
    val h = fdiv(x - k2, 2)
    val t = isqrt(n)
    if (t * t == n) rexact(1, t, 1, h) else ropen(1, t, t + 1, h)
  }
  pure def rcbrt(a: Num, p: int): R = {
    val x = lsb(a)
    val k = imax(0, 3 * p + 12 - bitlen(a.m))
    val k3 = k + fmod(x - k, 3)
    val n = a.m * 2^k3
    val h = fdiv(x - k3, 3)
    val t = icbrt(n)
    if (t * t * t == n) rexact(a.s, t, 1, h) else ropen(a.s, t, t + 1, h)
  }
  // remainder of |a| by |b| with the sign of a, exactly (needs a moderate exponent gap)
  pure def rrem(a: Num, b: Num): R =
    if (a.m == 0) rexact(a.s, 0, 1, 0)
    else if (cmpAbs(a, b) < 0) rexact(a.s, a.m, 1, lsb(a))
    else {
      val x = imin(lsb(a), lsb(b))
      val v = (a.m * 2^(lsb(a) - x)) % (b.m * 2^(lsb(b) - x))
      rexact(a.s, v, 1, x)
    }

  // ------------------------------------------------------------------ rounding to exactly p bits
  pure def setp(v: Num, p: int, rm: int): Num =
    if (v.m == 0) zero(v.s, roundP(p), v.ix)
    else if (v.p <= p) v.with("m", v.m * 2^(roundP(p) - v.p)).with("p", roundP(p)).with("n", if (roundP(p) > v.p) bitlen(v.m) + roundP(p) - v.p else v.n)
    else {
      val u = 2^(v.p - p)
      val q = v.m / u
      val rem = v.m - q * u
      val q1 = if (incr(v.s, q, isgn(2 * rem - u), rem != 0, rm)) q + 1 else q
      val carry = q1 == 2^p
      val e = if (carry) v.e + 1 else v.e
      val m = (if (carry) q1 / 2 else q1) * 2^(roundP(p) - p)
      if (e > EMAX) inf(v.s)
      else if (m == 0) zero(v.s, roundP(p), true)
      else fin(v.s, m, e, roundP(p), v.ix or rem != 0)
    }
  // real value v known only within d = 2^(e-s): does every value within round alike?
  pure def tryPSound(v: Num, p: int, rm: int, s: int): bool = {
    // scale everything to quarter units of min(lsb, 2^(e-s))
    val w = imax(v.p, s) + 2
    val m = v.m * 2^(w - v.p)
    val d = 2^(w - s)
    // p-bit grid: unit 2^(w-p); ties at half units
    val u = 2^(w - p)
    val lo = 2 * m - 2 * d + 1           // half-unit steps inside the open interval
    val hi = 2 * m + 2 * d - 1
    def f(t) = { val q = t / (2 * u)   val rem = t - q * 2 * u
                     if (incr(v.s, q, isgn(rem - u), rem != 0, rm)) q + 1 else q }
    lo > 0 and f(lo) == f(hi)
  }
  // rounded to n binary places
  pure def rplaces(v: Num, n: int, rm: int): Num =
    if (v.m == 0 or lsb(v) >= -n) v
    else {
      val sh = -n - lsb(v)
      val far = sh > bitlen(v.m) + 2
      val q = if (far) 0 else v.m / 2^sh
      val rem = if (far) 1 else v.m - q * 2^sh
      val half = if (far) -1 else isgn(2 * rem - 2^sh)
      val q1 = if (incr(v.s, q, half, rem != 0, rm)) q + 1 else q
      val r = if (q1 == 0) zero(v.s, v.p, false) else roundDy(v.s, q1, -n, v.p, RZERO)
      r.with("ix", v.ix or rem != 0)
    }

  // ------------------------------------------------------------------ operations on two numbers
  pure def eBad(p: int): bool = p >= PLIM

  pure def expAdd(a: Num, b0: Num, sub: bool, p: int, rm: int): Exp = {
    val b = if (sub) b0.with("s", -b0.s) else b0
    if (isNan(a)) eNum(a) else if (isNan(b)) eNum(b)
    else if (isInf(a)) (if (isInf(b) and a.s != b.s) eNan else eInf(a.s))
    else if (isInf(b)) eInf(b.s)
    else if (eBad(p)) eInval
    else if (p == 0) eAny
    else if (a.m == 0 and b.m == 0) eNum(zero(b.s, roundP(p), a.ix or b.ix))
    else orIx(eR(rsumP(a, b, roundP(p)), roundP(p), rm, 0), a.ix or b.ix)
  }
  pure def expMul(a: Num, b: Num, p: int, rm: int): Exp =
    if (isNan(a)) eNum(a) else if (isNan(b)) eNum(b)
    else if (isInf(a) or isInf(b)) (if (isZero(a) or isZero(b)) eNan else eInf(a.s * b.s))
    else if (eBad(p)) eInval
    else if (p == 0) eAny
    else orIx(eR(rprod(a, b), roundP(p), rm, 0), a.ix or b.ix)
  pure def expDiv(a: Num, b: Num, p: int, rm: int): Exp =
    if (isNan(a)) eNum(a) else if (isNan(b)) eNum(b)
    else if (isInf(a)) (if (isInf(b)) eNan else eInf(a.s * b.s))
    else if (isInf(b)) eVal(rexact(1, 0, 1, 0), false)
    else if (isZero(b)) (if (isZero(a)) eInval else eInf(a.s * b.s))
    else if (eBad(p)) eInval
    else if (p == 0) eAny
    else orIx(eR(rquot(a, b), roundP(p), rm, 0), a.ix or b.ix)
  pure def expRecip(a: Num, p: int, rm: int): Exp =
    if (isNan(a)) eNum(a)
    else if (isInf(a)) (if (eBad(p)) eAny else eNum(zero(a.s, roundP(p), false)))
    else if (isZero(a)) eInf(a.s)
    else if (eBad(p)) eInval
    else if (p == 0) eAny
    else orIx(eR(rexact(a.s, 1, a.m, -lsb(a)), roundP(p), rm, 0), a.ix)
  pure def expSqrt(a: Num, p: int, rm: int): Exp =
    if (isNan(a)) eNum(a)
    else if (isInf(a)) (if (a.s > 0) eInf(1) else eNan)
    else if (eBad(p)) eInval
    else if (p == 0) eAny
    else if (isZero(a)) eNum(zero(a.s, roundP(p), a.ix))
    else if (a.s < 0) eInval
    else orIx(eR(rsqrt(a, roundP(p)), roundP(p), rm, 0), a.ix)
  pure def expCbrt(a: Num, p: int, rm: int): Exp =
    if (isNan(a)) eNum(a)
    else if (isInf(a)) eInf(a.s)
    else if (eBad(p)) eInval
    else if (p == 0) eAny
    else if (isZero(a)) eNum(zero(a.s, roundP(p), a.ix))
    else orIx(eR(rcbrt(a, roundP(p)), roundP(p), rm, 0), a.ix)

  pure def expAddF(a: Num, b0: Num, sub: bool): Exp = {
    val b = if (sub) b0.with("s", -b0.s) else b0
    if (isNan(a)) eNum(a) else if (isNan(b)) eNum(b)
    else if (isInf(a)) (if (isInf(b) and a.s != b.s) eNan else eInf(a.s))
    else if (isInf(b)) eInf(b.s)
    else eVal(if (a.m == 0 and b.m == 0) rexact(b.s, 0, 1, 0) else rsum(a, b), a.ix or b.ix)
  }
  pure def expMulF(a: Num, b: Num): Exp =
    if (isNan(a)) eNum(a) else if (isNan(b)) eNum(b)
    else if (isInf(a) or isInf(b)) (if (isZero(a) or isZero(b)) eNan else eInf(a.s * b.s))
    else eVal(rprod(a, b), a.ix or b.ix).with("u", 1)
  pure def expRem(a: Num, b: Num): Exp =
    if (isNan(a)) eNum(a) else if (isNan(b)) eNum(b)
    else if (isInf(a)) eNan
    else if (isInf(b)) eNum(a)
    else if (isZero(b)) eInval
    else eVal(rrem(a, b), a.ix or b.ix)

  // integer part as (quotient magnitude, is there a fraction)
  pure def intPart(a: Num): (int, bool) =
    if (lsb(a) >= 0) (-1, false)                       // an integer already
    else if (lt(a) <= 0) (0, a.m != 0)
    else { val q = a.m / 2^(-lsb(a))   (q, q * 2^(-lsb(a)) != a.m) }
  pure def expInt(a: Num, mode: int): Exp =     // 0 int, 1 fract, 2 floor, 3 ceil
    if (isNan(a)) eNum(a)
    else if (isInf(a)) (if (mode <= 1) eNan else eInf(a.s))
    else if (isZero(a)) eNum(a)
    else {
      val q = intPart(a)
      if (q._1 < 0) (if (mode == 1) eNum(zero(a.s, a.p, a.ix)) else eNum(a))
      else {
        def z(t) = if (t == 0) zero(a.s, a.p, a.ix) else roundDy(a.s, t, 0, a.p, RZERO).with("ix", a.ix)
        if (mode == 0) eNum(z(q._1))
        else if (mode == 1) {
          val f = if (q._1 == 0) a.m else a.m - q._1 * 2^(-lsb(a))
          eNum(if (f == 0) zero(a.s, a.p, a.ix) else roundDy(a.s, f, lsb(a), a.p, RZERO).with("ix", a.ix))
        }
        else if (q._2 and ((mode == 2 and a.s < 0) or (mode == 3 and a.s > 0))) eNum(z(q._1 + 1))
        else eNum(z(q._1))
      }
    }

  // ------------------------------------------------------------------ elementary functions
  pure val FULP: int = 4
  // finite non-zero argument inside the domain
  pure def fz(f: (int) => R, a: Num, p: int, rm: int): Exp = orIx(ziv(f, roundP(p), a.p, rm, FULP), a.ix)
  pure def eZero(a: Num, p: int): Exp = eNum(zero(a.s, roundP(p), a.ix))
  pure def eOne(p: int, ix: bool): Exp = eNum(one(roundP(p)).with("ix", ix))
  pure def eHalfPi(s: int, p: int, rm: int, ix: bool): Exp =
    orIx(ziv(W => rball({ m: cPi(W).m / 2, r: cPi(W).r + 1 }, W, 0).with("s", s), roundP(p), 0, rm, FULP), ix)
  pure def ePi(p: int, rm: int, ix: bool): Exp = orIx(ziv(W => rball(cPi(W), W, 0), roundP(p), 0, rm, FULP), ix)

  // limits at infinity
  pure def atInf(op: int, s: int, p: int, rm: int): Exp =
    if (op == OEXP) (if (s > 0) eInf(1) else eNum(zero(1, roundP(p), false)))
    else if (op == OLN or op == OLOG2 or op == OLOG10 or op == OACOSH) (if (s > 0) eInf(1) else eNan)
    else if (op == OSINH or op == OASINH) eInf(s)
    else if (op == OCOSH) eInf(1)
    else if (op == OTANH) eNum(one(roundP(p)).with("s", s))
    else if (op == OATAN) eHalfPi(s, p, rm, false)
    else eNan
  pure def atZero(op: int, a: Num, p: int, rm: int): Exp =
    if (op == OEXP or op == OCOS or op == OCOSH) eOne(p, a.ix)
    else if (op == OLN or op == OLOG2 or op == OLOG10) eInf(-1)
    else if (op == OACOS) eHalfPi(1, p, rm, a.ix)
    else if (op == OACOSH) eInval
    else eZero(a, p)
  pure def fnOf(op: int, d: D, W: int): R =
    if (op == OEXP) rExp(d, W)
    else if (op == OLN) rLn(d, W)
    else if (op == OLOG2) rLog(d, DTWO, W)
    else if (op == OLOG10) rLog(d, DTEN, W)
    else if (op == OSIN) rSin(d, W)
    else if (op == OCOS) rCos(d, W)
    else if (op == OTAN) rTan(d, W)
    else if (op == OASIN) rAsin(d, W)
    else if (op == OACOS) rAcos(d, W)
    else if (op == OATAN) rAtan(d, W)
    else if (op == OSINH) rSinhCosh(d, W, true)
    else if (op == OCOSH) rSinhCosh(d, W, false)
    else if (op == OTANH) rTanh(d, W)
    else if (op == OASINH) rAsinh(d, W)
    else if (op == OACOSH) rAcosh(d, W)
    else rAtanh(d, W)
  pure def cmpOne(a: Num): int = cmpDy(a.m, lsb(a), 1, 0)      // |a| against 1
  pure def inDomain(op: int, a: Num): bool =
    if (op == OLN or op == OLOG2 or op == OLOG10) a.s > 0
    else if (op == OASIN or op == OACOS or op == OATANH) cmpOne(a) <= 0
    else if (op == OACOSH) a.s > 0 and cmpOne(a) >= 0
    else true
  pure def expFn(op: int, a: Num, p: int, rm: int): Exp =
    if (isNan(a)) eNum(a)
    else if (isInf(a)) (if (eBad(p) or p == 0) eAny else atInf(op, a.s, p, rm))
    else if (eBad(p)) (if (isZero(a)) eAny else eInval)
    else if (p == 0) eAny
    else if (isZero(a)) atZero(op, a, p, rm)
    else if (not(inDomain(op, a))) eInval
    else if (op == OATANH and cmpOne(a) == 0) eInf(a.s)
    else fz(W => fnOf(op, dOf(a), W), a, p, rm)

  // is the non-zero finite number an integer / an odd integer
  pure def isInt(a: Num): bool = a.m == 0 or lsb(a) + tz(a.m) >= 0
  pure def isOdd(a: Num): bool = a.m != 0 and lsb(a) + tz(a.m) == 0
  pure def expPow(a: Num, n: Num, p: int, rm: int): Exp =
    if (isNan(a)) eNum(a) else if (isNan(n)) eNum(n)
    else if (eBad(p)) eAny
    else if (p == 0) eAny
    else if (isInf(a)) {
      if (isInf(n)) (if (n.s > 0) eInf(1) else eNum(zero(1, roundP(p), false)))
      else if (isZero(n)) eOne(p, false)
      else if (n.s > 0) eInf(if (a.s < 0 and isOdd(n)) -1 else 1)
      else eVal(rexact(1, 0, 1, 0), false)
    }
    else if (isInf(n)) {
      // mathematical limits for positive bases (zero included); negative bases have none (see also knownPowInf)
      if (isZero(a)) (if (n.s > 0) eNum(zero(1, roundP(p), false)) else eInf(1))
      else if (a.s < 0) eAny
      else {
        val c = cmpOne(a)
        if (c == 0) eOne(p, false)
        else if (c * n.s > 0) eInf(1)
        else eNum(zero(1, roundP(p), false))
      }
    }
    else {
      val ix = a.ix or n.ix
      if (isZero(n)) eOne(p, ix)
      else if (isZero(a)) {
        val s = if (isOdd(n)) a.s else 1
        if (n.s > 0) eNum(zero(s, roundP(p), ix)) else eInf(s)
      }
      else if (a.s < 0 and not(isInt(n))) eInval
      else {
        val s = if (a.s < 0 and isOdd(n)) -1 else 1
        orIx(ziv(W => { val r = rPow(dOf(a).with("s", 1), dOf(n), roundP(p), W)   if (s < 0) rneg(r) else r },
                 roundP(p), a.p + n.p, rm, FULP), ix)
      }
    }
  // listed in known-findings.txt: for a finite base and the exponent -Inf the library returns -Inf above
  // one and zero below one (a unit test asks for it); the limits are 0 and +Inf
  pure def knownPowInf(a: Num, n: Num, r: Num): bool =
    isFin(a) and isInf(n) and n.s < 0 and (a.m == 0 or a.s > 0) and (a.m == 0 or cmpOne(a) != 0) and
      (if (a.m != 0 and cmpOne(a) > 0) r.k == KINF and r.s < 0 else r.k == KFIN and r.m == 0)
  pure def expPowi(a: Num, n: int, p: int, rm: int): Exp =
    if (isNan(a)) eNum(a)
    else if (eBad(p)) eAny
    else if (p == 0) eAny
    else if (n == 0) eOne(p, if (isFin(a)) a.ix else false)
    else if (isInf(a)) eInf(if (a.s < 0 and n % 2 == 1) -1 else 1)
    else {
      val s = if (n % 2 == 1) a.s else 1
      if (isZero(a)) eNum(zero(s, roundP(p), a.ix))
      else orIx(ziv(W => { val r = rPow(dOf(a).with("s", 1), { s: 1, m: n, x: 0 }, roundP(p), W)   if (s < 0) rneg(r) else r },
                    roundP(p), a.p + 64, rm, FULP), a.ix)
    }
  pure def expLog(a: Num, b: Num, p: int, rm: int): Exp =
    if (isNan(a)) eNum(a) else if (isNan(b)) eNum(b)
    else if (eBad(p)) eAny
    else if (p == 0) eAny
    else if (isInf(a)) {
      if (a.s < 0 or isInf(b)) eNan
      else if (isZero(b) or b.s < 0) eAny
      else { val c = cmpOne(b)   if (c == 0) eAny else eInf(c) }
    }
    else if (isInf(b)) (if (b.s < 0) eNan else if (isZero(a) or a.s < 0) eAny else eNum(zero(1, roundP(p), false)))
    else if (isZero(a) or isZero(b)) (if (isZero(a) and not(isZero(b)) and b.s > 0 and cmpOne(b) != 0) eInf(-cmpOne(b)) else eAny)
    else if (a.s < 0 or b.s < 0) eInval
    else if (cmpOne(b) == 0) (if (cmpOne(a) == 0) eInval else eAny)
    else orIx(ziv(W => rLog(dOf(a), dOf(b), W), roundP(p), a.p + b.p, rm, FULP), a.ix or b.ix)
  pure def expConst(op: int, p: int, rm: int): Exp =
    if (eBad(p)) eInval
    else if (p == 0) eAny
    else ziv(W => if (op == OPI) rball(cPi(W), W, 0) else if (op == OE) rball(cE(W), W, 0)
                  else if (op == OLN2) rball(cLn2(W), W, 0) else rball(cLn10(W), W, 0), roundP(p), 0, rm, FULP)

  // ------------------------------------------------------------------ verdicts
  pure def tagIf(c: bool, t: int): List[int] = if (c) [t] else []
  pure def isSub(v: Num): bool = v.k == KFIN and v.m != 0 and v.e == EMIN and bitlen(v.m) < v.p

  // finite result within u units of what is known about the real value
  pure def nearOk(v: Num, r: R, p: int, u: int): bool = {
    val zl = if (r.k == REXACT) roundQ(r.s, r.lo, r.hi, r.x, p, RZERO) else roundDy(r.s, r.lo, r.x, p, RZERO)
    val zh = if (r.k == REXACT) roundQ(r.s, r.lo, r.hi, r.x, p, RAWAY) else roundDy(r.s, 4 * r.hi - 1, r.x - 2, p, RAWAY)
    if (r.k == REXACT and r.lo == 0) v.k == KFIN and v.m == 0
    else if (zl.k == KINF) v.k == KINF and v.s == r.s
    else if (v.k == KINF) zh.k == KINF and v.s == r.s
    else if (v.k != KFIN) false
    else {
      val uu = if (r.k == REXACT and not(zl.ix)) imax(u, 1) else u
      val xl = imax(lt(zl), EMIN) - p
      val lom = zl.m - uu
      val lox = if (zl.m == 0) EMIN - p else lsb(zl)
      and {
        v.s == r.s,
        lom <= 0 or cmpDy(v.m, lsb(v), lom, lox) >= 0,
        zh.k == KINF or cmpDy(v.m, lsb(v), zh.m + uu, if (zh.m == 0) EMIN - p else lsb(zh)) <= 0
      }
    }
  }
  pure def nearExact(v: Num, r: R): bool =
    r.k == REXACT and v.k == KFIN and
      (if (r.lo == 0) v.m == 0 else v.s == r.s and cmpDy(v.m * r.hi, lsb(v), r.lo, r.x) == 0)

  // Verdict on a number result. prop: the property the operation belongs to; spec: some operand is
  // infinite, NaN, zero or out of the domain.
  // precisions that are legal but whose numbers do not fit in memory
  pure def huge(p: int): bool = p >= 2^33 and p < PLIM
  pure def noMem(ev: Ev): bool = (ev.fault or huge(ev.p)) and (ev.r.k == KNAN or ev.r.k == KERR) and ev.r.e == EMEM
  pure def verdict(prop: int, ev: Ev, ex: Exp, spec: bool): List[int] = {
    val r = ev.r
    val P = prop * 1000
    if (r.k == KPANIC or r.k == KABORT or r.k == KHANG)
      [P + 1, 18001].concat(tagIf(ev.fault, 17001)).concat(tagIf(spec or ex.v.k != KFIN, 9001))
    else if (noMem(ev)) []
    else {
      val fl = tagIf(ev.mut, 8009).concat(tagIf(ev.mut, P + 9))
      val wf = if (wellFormed(r)) [] else [16006, P + 6]
      val body =
        if (ex.t == TANY) []
        else if (ex.t == TUND) [99000]
        else if (ex.t == TNUM) {
          val v = ex.v
          val exc = v.k == KINF or isSub(v) or (v.k == KFIN and v.m == 0 and v.ix)
                    or r.k == KINF or isSub(r)
          val normal = v.k == KFIN and not(isSub(v)) and not(v.m == 0 and v.ix)
          def tg(t) = tagIf(normal or prop > 10, P + t).concat(tagIf(exc and v.k != KNAN, 10000 + t)).concat(tagIf(spec or v.k == KNAN, 9000 + t))
          if (v.k != r.k) tg(2)
          else if (v.k == KNAN) tagIf(v.e != r.e, 9008).concat(tagIf(v.e != r.e and prop > 10, P + 8))
          else if (v.s != r.s) tg(3)
          else if (v.k == KINF) []
          else {
            val val1 = v.m == r.m and v.e == r.e
            val val2 = val1 or cmpNum(v, r) == 0
            tagIf(v.p != r.p, P + 5).concat(tagIf(v.p != r.p, 16005))
              .concat(if (val2) (if (val1 or v.p != r.p or v.m == 0) [] else [16006]) else tg(4))
              .concat(tagIf(v.ix != r.ix, 15007))
          }
        }
        else if (ex.t == TNEAR) {
          val sub = r.k == KINF or isSub(r) or (r.k == KFIN and r.m == 0)
          (if (nearOk(r, ex.r, ex.v.p, ex.u)) [] else [P + 4].concat(tagIf(sub, 10004)))
            .concat(tagIf(r.k == KFIN and ex.v.p != r.p, P + 5)).concat(tagIf(r.k == KFIN and ex.v.p != r.p, 16005))
            // an approximation (u > 0) that happens to be the real value may stay flagged
            .concat(tagIf(r.k == KFIN and r.ix != (ex.ix or not(nearExact(r, ex.r))) and not(ex.u > 0 and r.ix), 15007))
        }
        else {  // TVAL
          val big = ex.r.lo != 0 and bitlen(ex.r.lo) + ex.r.x > EMAX
          if (big) (if (r.k == KINF and r.s == ex.r.s) [] else [10002])
          else if (r.k != KFIN) [P + 2].concat(tagIf(spec, 9002)).concat(tagIf(r.k == KINF, 10002))
          else if (ex.u == 1 and ex.r.lo != 0 and bitlen(ex.r.lo) + ex.r.x <= EMIN)
            // a full product below the normal range: within one unit of the subnormal spacing
            tagIf(not(nearOk(r, ex.r, r.p, 1)), 10004).concat(tagIf(r.ix != (ex.ix or not(nearExact(r, ex.r))), 15007))
          else (if (nearExact(r, ex.r)) [] else [P + 4].concat(tagIf(spec, 9004)).concat(tagIf(isSub(r), 10004)))
            .concat(tagIf(r.s != ex.r.s, P + 3))
            .concat(tagIf(r.ix != ex.ix, 15007))
        }
      fl.concat(wf).concat(body)
    }
  }

  pure def specialOf(c: int): Num =
    if (c == 0) nan(ENONE) else if (c == 1) inf(1) else if (c == 2) inf(-1) else if (c == 3) nan(EINVAL) else if (c == 4) nan(EMEM) else nan(EDIV0)

  // ------------------------------------------------------------------ construction, precision changes
  pure def loadRaw(ev: Ev): Num = {
    val n = bitlen(ev.y)
    if (ev.p >= PLIM) nan(EINVAL)
    else if (ev.z != n) nan(EINVAL)
    else if (n > 0 and n < ev.p and ev.x > EMIN) nan(EINVAL)
    else fin(if (ev.neg) -1 else 1, ev.y, if (n == 0) 0 else ev.x, ev.p, ev.ixin)
  }
  pure def expRound(a: Num, n: int, rm: int): Exp =
    if (isNan(a)) eNum(a)
    else if (isInf(a)) eInf(a.s)
    else if (n >= ROUNDLIM) eInval
    else eNum(rplaces(a, n, rm))
  // rounding mode None leaves the digits alone as far as the words allow: any value between the
  // roundings toward and away from zero, flagged
  pure def between(lo: Num, hi: Num, v: Num): Num =
    if (v.k == KFIN and lo.k == KFIN and v.s == lo.s and v.p == lo.p and cmpAbs(lo, v) <= 0 and (hi.k != KFIN or cmpAbs(v, hi) <= 0)
        and (v.ix or not(hi.ix))) v else lo
  pure def judgeRound(a: Num, ev: Ev): List[int] =
    if (isFin(a) and ev.rm == RNONE and ev.y < ROUNDLIM)
      verdict(3, ev, eNum(between(rplaces(a, ev.y, RZERO), rplaces(a, ev.y, RAWAY), ev.r)), false)
    else verdict(3, ev, expRound(a, ev.y, ev.rm), not(isFin(a)) or a.m == 0)
  pure def setpAs(a: Num, ev: Ev): Num =
    if (ev.rm == RNONE) between(setp(a, ev.p, RZERO), setp(a, ev.p, RAWAY), ev.r) else setp(a, ev.p, ev.rm)
  pure def judgeSetP(a: Num, ev: Ev): List[int] =
    if (not(isFin(a))) verdict(3, ev, eNum(a), true)
    else if (ev.p >= PLIM) (if (ev.r.k == KERR and ev.r.e == EINVAL) [] else [3002, 18002])
    else if (ev.p == 0) verdict(3, ev, eAny, false)
    else {
      val v = setpAs(a, ev)
      if (v.k == KINF and ev.r.k == KERR) (if (ev.r.e == (if (v.s > 0) EOVERP else EOVERN)) [] else [3008])
      else verdict(3, ev, eNum(v), false)
    }
  // x: claimed number of correct digits; y = 1 when the call reported success
  pure def judgeTryP(a: Num, ev: Ev): List[int] =
    if (not(isFin(a))) verdict(3, ev, eNum(a), true).concat(tagIf(ev.y != 1, 3010))
    else if (ev.p >= PLIM) (if (ev.r.k == KNAN and ev.r.e == EINVAL) [] else [3002, 18002])
    else if (ev.p == 0 or ev.y != 1) (if (ev.r.k <= KNAN) [] else [3001, 18001])
    else {
      val v = setpAs(a, ev)
      if (v.k == KINF) (if (ev.r.k == KINF or (ev.r.k == KNAN and ev.r.e == (if (v.s > 0) EOVERP else EOVERN))) [] else [3008])
      else verdict(3, ev, eNum(v), false).concat(
        tagIf(a.ix and ev.rm != RNONE and a.m != 0 and ev.p < a.p and not(tryPSound(a, ev.p, ev.rm, ev.x)), 3011))
    }
}
