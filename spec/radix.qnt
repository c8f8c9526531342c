// Text and digits: the grammar as an automaton, the number a text denotes, and what formatting must say.
module radix {
  import base.* from "./base"
  import num.* from "./num"
  import fun.* from "./fun"
  import lib.* from "./lib"
  import order.* from "./order"
  import conv.* from "./conv"

  pure val OPARSE: int = 80        // text z, radix c
  pure val OFORMAT: int = 81
  pure val OFROMRADIX: int = 82    // digits z, exponent x, sign flag
  pure val OTORADIX: int = 83
  pure val OFROMSTR: int = 84
  pure val ODISPLAY: int = 85
  pure val OSER: int = 86          // serialized text
  pure val ODESER: int = 87        // deserialized from text z

  pure def bytesOf(z: int): List[int] = {
    val n = (bitlen(z) - 1) / 8          // closing marker byte
    range(0, n).foldl(([], z), (a, _) => (a._1.append(a._2 % 256), a._2 / 256))._1
  }

  // ------------------------------------------------------------------ the automaton
  // 0 start, 1 after the sign, 2 integer digits, 3 fraction digits, 4 after "_", 5 after the exponent mark,
  // 6 after the sign of the exponent, 7 exponent digits, 20-22 i n f, 30-32 n a n, 90 something follows a number,
  // 91 something follows a word, 99 not a number
  type Scan = { st: int, neg: bool, D: int, nd: int, ns: int, ni: int, nf: int, X: int, xneg: bool }
  pure def digitOf(c: int): int = if (48 <= c and c <= 57) c - 48 else if (97 <= c and c <= 102) c - 87 else 99
  pure def lower(c: int): int = if (65 <= c and c <= 90) c + 32 else c
  pure def mantDigit(s: Scan, d: int, r: int, frac: bool): Scan =
    s.with("st", if (frac) 3 else 2).with("D", s.D * r + d).with("nd", s.nd + 1)
     .with("ns", if (s.D > 0 or d > 0) s.ns + 1 else 0)
     .with("nf", if (frac) s.nf + 1 else s.nf)
     .with("ni", if (not(frac) and (s.D > 0 or d > 0)) s.ni + 1 else s.ni)
  pure def step(s: Scan, c0: int, r: int): Scan = {
    val c = lower(c0)
    val d = digitOf(c)
    val isd = d < r
    val st = s.st
    if (st == 0 and (c == 43 or c == 45)) s.with("st", 1).with("neg", c == 45)
    else if (st <= 1) {
      if (isd) mantDigit(s, d, r, false)
      else if (c == 105) s.with("st", 20)
      else if (c == 110) s.with("st", 30)
      else if (c == 46) s.with("st", 3)
      else s.with("st", 99)
    }
    else if (st == 2 or st == 3) {
      if (isd) mantDigit(s, d, r, st == 3)
      else if (st == 2 and c == 46) s.with("st", 3)
      else if (r < 16 and c == 101) s.with("st", 5)
      else if (r == 16 and c == 95) s.with("st", 4)
      else s.with("st", 90)
    }
    else if (st == 4) s.with("st", if (c == 101) 5 else 90)
    else if (st == 5 and (c == 43 or c == 45)) s.with("st", 6).with("xneg", c == 45)
    else if (st == 5 or st == 6 or st == 7) {
      if (isd) s.with("st", 7).with("X", imin(s.X * r + d, 10^12)) else s.with("st", 90)
    }
    else if (st == 20) s.with("st", if (c == 110) 21 else 99)
    else if (st == 21) s.with("st", if (c == 102) 22 else 99)
    else if (st == 30) s.with("st", if (c == 97) 31 else 99)
    else if (st == 31) s.with("st", if (c == 110) 32 else 99)
    else if (st == 22 or st == 32) s.with("st", 91)
    else s
  }
  pure val scan0: Scan = { st: 0, neg: false, D: 0, nd: 0, ns: 0, ni: 0, nf: 0, X: 0, xneg: false }
  pure def scan(z: int, r: int): Scan = bytesOf(z).foldl(scan0, (s, c) => step(s, c, r))
  pure def complete(s: Scan): bool = s.nd > 0 and (s.st == 2 or s.st == 3 or s.st == 5 or s.st == 6 or s.st == 7)
  pure def isNumText(s: Scan): bool = complete(s)
  pure def isNanText(s: Scan): bool = s.st == 99 or s.st == 32 or s.st == 20 or s.st == 21 or s.st == 30 or s.st == 31 or s.st <= 1 or (s.nd == 0 and s.st != 22 and s.st != 91)

  // ------------------------------------------------------------------ the value of digits
  pure def rdxOf(c: int): int = if (c == 0) 2 else if (c == 1) 8 else if (c == 2) 10 else 16
  pure def rdxBits(r: int): int = if (r == 2) 1 else if (r == 8) 3 else 4
  // 5^n as lo * 2^x <= 5^n <= hi * 2^x with about W bits (lo = hi when exact), n >= 0
  pure def pow5(n: int, W: int): { lo: int, hi: int, x: int } = {
    val k = bitlen(n)
    range(0, k).foldl({ lo: 1, hi: 1, x: 0 }, (a, i) => {
      val odd = n / 2^(k - 1 - i) % 2 == 1
      val l = if (odd) 5 * a.lo * a.lo else a.lo * a.lo
      val h = if (odd) 5 * a.hi * a.hi else a.hi * a.hi
      val sh = imax(0, bitlen(h) - W)
      { lo: l / 2^sh, hi: if (sh == 0) h else h / 2^sh + 1, x: 2 * a.x + sh }
    })
  }
  // s * D * 10^n
  pure def rdec(s: int, D: int, n: int, W: int): R =
    if (n >= 0 and n <= 1500) rexact(s, D * 5^n, 1, n)
    else if (n < 0 and n >= -1500) rexact(s, D, 5^(-n), n)
    else {
      val q = pow5(iabs(n), W + 8)
      if (n > 0) (if (q.lo == q.hi) rexact(s, D * q.lo, 1, q.x + n) else ropen(s, D * q.lo, D * q.hi, q.x + n))
      else if (q.lo == q.hi) rexact(s, D, q.lo, n - q.x)
      else { val S = W + 2 * bitlen(q.hi)   ropen(s, D * 2^S / q.hi, D * 2^S / q.lo + 1, n - q.x - S) }
    }
  pure def expDigits(s: int, D: int, r: int, n: int, p: int, rm: int): Exp =
    if (D == 0) eNum(zero(s, roundP(p), false))
    else if (r != 10) eR(rexact(s, D, 1, n * rdxBits(r)), roundP(p), rm, 1)
    else ziv(W => rdec(s, D, n, W + 64), roundP(p), bitlen(D), rm, FULP)
  pure def expAuto(s: int, D: int, r: int, n: int, nd: int, ev: Ev): Exp =
    if (r != 10) (if (D == 0) eVal(rexact(s, 0, 1, 0), false) else eVal(rexact(s, D, 1, n * rdxBits(r)), false))
    // decimal: precision enough for the digits
    else if (D == 0) eVal(rexact(s, 0, 1, 0), false)
    else expDigits(s, D, r, n, if (ev.r.k == KFIN and ev.r.p >= nd * 3321 / 1000 and ev.r.p > 0) ev.r.p else nd * 3321 / 1000 + 1, ev.rm)

  pure def alts(prop: int, ev: Ev, es: List[Exp]): List[int] = {
    val vs = es.foldl([], (a, e) => a.append(verdict(prop, ev, e, false)))
    if (vs.foldl(false, (f, v) => f or v.length() == 0)) [] else vs[0]
  }
  pure def judgeText(ev: Ev, prop: int, r: int, p: int, rm: int): List[int] = {
    val s = scan(ev.z, r)
    val sg = if (s.neg) -1 else 1
    if (s.st == 22) verdict(prop, ev, eInf(sg), true)
    else if (isNanText(s)) (if (stopped(ev, prop * 1000).length() > 0) stopped(ev, prop * 1000)
                            else if (ev.r.k == KNAN) [] else [prop * 1000 + 2])
    else if (not(complete(s))) verdict(prop, ev, eAny, false)
    else if (p != PAUTO and p >= PLIM) verdict(prop, ev, eInval, true)
    else if (p == 0) verdict(prop, ev, eAny, false)
    else {
      val X = if (s.xneg) -s.X else s.X
      val sc = X + s.ni
      val e = if (p == PAUTO) expAuto(sg, s.D, r, X - s.nf, s.ns, ev) else expDigits(sg, s.D, r, X - s.nf, p, rm)
      // a scientific exponent beyond the exponent type may saturate
      if (s.D == 0) alts(prop, ev, [e, eVal(rexact(sg, 0, 1, 0), false)])
      else if (sc > EMAX) alts(prop, ev, [e, eInf(sg)])
      else if (sc < EMIN) alts(prop, ev, [e, eVal(rexact(sg, 0, 1, 0), false), eVal(rexact(sg, 0, 1, 0), true)])
      else verdict(prop, ev, e, false)
    }
  }
  pure def judgeFromRadix(ev: Ev): List[int] = {
    val ds = bytesOf(ev.z)
    val r = rdxOf(ev.c)
    val sg = if (ev.neg) -1 else 1
    val badDigit = ds.foldl(false, (f, d) => f or d >= r)
    if (ev.p != PAUTO and ev.p >= PLIM) verdict(12, ev, eInval, true)
    else if (ev.p == 0) verdict(12, ev, eAny, false)
    else if (badDigit)
      (if (stopped(ev, 12000).length() > 0) stopped(ev, 12000)
       else if (ev.r.k == KNAN and ev.r.e == EINVAL) [] else if (ev.r.k == KINF) [] else [12008, 18002])
    else {
      val D = ds.foldl(0, (a, d) => a * r + d)
      val nz = ds.foldl((false, 0), (a, d) => if (a._1 or d > 0) (true, a._2 + 1) else a)._2
      val n = ev.x - ds.length()
      verdict(12, ev, if (ev.p == PAUTO) expAuto(sg, D, r, n, nz, ev) else expDigits(sg, D, r, n, ev.p, ev.rm), false)
    }
  }

  // ------------------------------------------------------------------ formatting
  // m * 2^x against M * 10^t: -1, 0, 1, or 9 when not determined
  pure def cmpDec(m: int, x: int, M: int, t: int): int =
    if (m == 0 or M == 0) isgn(m - M)
    else if (iabs(t) <= 1500) (if (t >= 0) cmpDy(m, x - t, M * 5^t, 0) else cmpDy(m * 5^(-t), x - t, M, 0))
    else [160, 600, 3000, 30000].foldl(9, (a, W) =>
      if (a != 9) a else {
        val q = pow5(iabs(t), W + bitlen(m) + bitlen(M))
        val lo = if (t >= 0) cmpDy(m, x - t, M * q.lo, q.x) else cmpDy(m * q.lo, x - t + q.x, M, 0)
        val hi = if (t >= 0) cmpDy(m, x - t, M * q.hi, q.x) else cmpDy(m * q.hi, x - t + q.x, M, 0)
        if (q.lo == q.hi or lo == hi) lo else 9
      })
  pure def declen(n: int): int =
    if (n <= 0) 0 else {
      val k = (bitlen(n) * 30103 + 99999) / 100000
      range(0, 3).foldl(imax(0, k - 2), (a, _) => if (n >= 10^a) a + 1 else a)
    }
  // Is D * 10^t the value |v| (v finite, not zero) correctly rounded to at least p * log10(2) digits?
  // 1 yes, 0 no, 9 not determined
  pure def decOk(v: Num, D: int, t: int, rm: int): int = {
    val N = declen(D)
    val n = imax(N, v.p * 30102 / 100000 + 1)
    val D1 = D * 10^(n - N)
    val t1 = t - (n - N)
    // in units of 10^t1 / 20
    val T = 20 * D1
    val lowStep = if (D1 == 10^(n - 1)) 2 else 20
    def c(M) = cmpDec(v.m * 20, lsb(v), M, t1)
    val at = c(T)
    val below = c(T - lowStep)
    val above = c(T + 20)
    val dirUp = rm == RAWAY or (rm == RUP and v.s > 0) or (rm == RDOWN and v.s < 0)
    if (D == 0 or at == 9 or below == 9 or above == 9) (if (D == 0) 0 else 9)
    else if (at == 0) 1
    else if (rm == RNONE) (if (c(T - 2 * lowStep) >= 0 and c(T + 40) <= 0) 1 else 0)
    else if (rm == REVEN or rm == RODD) {
      val hb = c(T - lowStep / 2)
      val ha = c(T + 10)
      val even = D1 % 2 == 0
      if (hb == 9 or ha == 9) 9
      else if (hb < 0 or ha > 0) 0
      else if (hb == 0) (if ((rm == REVEN) == (even or lowStep == 2)) 1 else 0)
      else if (ha == 0) (if ((rm == REVEN) == even) 1 else 0)
      else 1
    }
    else if (dirUp) (if (at < 0 and below > 0) 1 else 0)
    else (if (at > 0 and above < 0) 1 else 0)
  }
  pure def digitsOk(v: Num, s: int, D: int, r: int, n: int, rm: int, P: int): List[int] =
    if (v.m == 0) tagIf(D != 0, P + 4).concat(tagIf(s != v.s, P + 3))
    else tagIf(s != v.s, P + 3).concat(
      if (r != 10) tagIf(cmpDy(v.m, lsb(v), D, n * rdxBits(r)) != 0, P + 4)
      else { val o = decOk(v, D, n, rm)   if (o == 1) [] else if (o == 9) [99000] else [P + 4] })
  pure def judgeFormat(a: Num, ev: Ev, prop: int, r: int, rm: int): List[int] = {
    val P = prop * 1000
    if (stopped(ev, P).length() > 0) stopped(ev, P)
    else if (noMem(ev)) []
    else if (ev.r.k != KTEXT) [P + 2]
    else {
      val s = scan(ev.z, r)
      val sg = if (s.neg) -1 else 1
      tagIf(ev.mut, 8009).concat(
        if (ev.fault and s.st == 99) []                // the word for an error
        else if (isNan(a)) tagIf(s.st != 32, P + 2)
        else if (isInf(a)) (if (s.st != 22) [P + 2] else tagIf(sg != a.s, P + 3))
        else if (not(complete(s)) or s.st == 5 or s.st == 6) [P + 2]
        else digitsOk(a, sg, s.D, r, (if (s.xneg) -s.X else s.X) - s.nf, rm, P))
    }
  }
  pure def judgeToRadix(a: Num, ev: Ev): List[int] = {
    val r = rdxOf(ev.c)
    if (stopped(ev, 13000).length() > 0) stopped(ev, 13000)
    else if (noMem(ev)) []
    else if (a.k != KFIN) tagIf(not(ev.r.k == KERR and ev.r.e == EINVAL), 13002)
    else if (ev.r.k != KTEXT) [13002]
    else {
      val ds = bytesOf(ev.z)
      val D = ds.foldl(0, (x, d) => x * r + d)
      tagIf(ev.mut, 8009).concat(
        if (ds.foldl(false, (f, d) => f or d >= r)) [13006]
        else if (a.m != 0 and not(isSub(a)) and (ds.length() == 0 or ds[0] == 0)) [13006]
        else digitsOk(a, ev.r.s, D, r, ev.r.e - ds.length(), ev.rm, 13000))
    }
  }
  pure def judgeRadix(a: Num, ev: Ev): List[int] =
    if (ev.op == OPARSE) judgeText(ev, 12, rdxOf(ev.c), ev.p, ev.rm)
    else if (ev.op == OFROMRADIX) judgeFromRadix(ev)
    else if (ev.op == OFORMAT) judgeFormat(a, ev, 13, rdxOf(ev.c), ev.rm)
    else if (ev.op == OTORADIX) judgeToRadix(a, ev)
    else if (ev.op == ODISPLAY) judgeFormat(a, ev, 13, rdxOf(ev.c), REVEN)
    else if (ev.op == OFROMSTR) (if (ev.r.k == KERR) [12008] else judgeText(ev.with("rm", REVEN), 12, 10, PAUTO, REVEN))
    else if (ev.op == OSER) judgeFormat(a, ev, 21, 10, REVEN)
    else if (ev.op == ODESER) {
      val s = scan(ev.z, 10)
      // what is not a number may also be refused
      if (ev.r.k == KERR and not(complete(s)) and s.st != 22 and s.st != 32) [] else if (ev.r.k == KERR) [21008]
      else judgeText(ev.with("rm", REVEN), 21, 10, PAUTO, REVEN)
    }
    else []
}
