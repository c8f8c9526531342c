// Enclosures of the elementary functions at dyadic arguments, with exact cases singled out.
module fun {
  import base.* from "./base"
  import num.* from "./num"
  import fixed.* from "./fixed"

  // a non-zero dyadic number s * m * 2^x
  type D = { s: int, m: int, x: int }
  pure def dOf(v: Num): D = { s: v.s, m: v.m, x: v.e - v.p }
  pure def dExp(d: D): int = bitlen(d.m) + d.x          // |d| in [2^(e-1), 2^e)
  // |d| - 1 as a dyadic (m may be 0)
  pure def dMinus1(d: D): D =
    if (d.x >= 0) { val v = d.m * 2^d.x - 1   { s: isgn(v), m: iabs(v), x: 0 } }
    else { val v = d.m - 2^(-d.x)   { s: isgn(v), m: iabs(v), x: d.x } }

  // What is known about a real value.
  // REXACT: s * lo/hi * 2^x exactly.
  // ROPEN:  strictly between s*lo*2^x and s*hi*2^x (0 <= lo < hi) and not a rounding boundary itself
  // RUNK:   nothing (precision exhausted);  RNEG: lo <= 0 in the attempt, sign not determined
  pure val REXACT: int = 0
  pure val ROPEN: int = 1
  pure val RUNK: int = 2
  type R = { k: int, s: int, lo: int, hi: int, x: int }
  pure def rexact(s: int, a: int, b: int, x: int): R = { k: REXACT, s: s, lo: a, hi: b, x: x }
  pure def rzero: R = { k: REXACT, s: 1, lo: 0, hi: 1, x: 0 }
  pure val runk: R = { k: RUNK, s: 1, lo: 0, hi: 0, x: 0 }
  pure def ropen(s: int, lo: int, hi: int, x: int): R = { k: ROPEN, s: s, lo: lo, hi: hi, x: x }
  // from a ball at scale w, times 2^q; value known to be non-zero
  pure def rball(f: F, w: int, q: int): R = {
    val a = iabs(f.m)
    if (a - f.r - 1 < 0) runk
    else ropen(if (f.m < 0) -1 else 1, a - f.r - 1, a + f.r + 1, q - w)
  }
  pure def rneg(r: R): R = r.with("s", -r.s)
  // strictly between |d| and |d|(1+2^-W) / |d|(1-2^-W) and |d|
  pure def rabove(d: D, W: int): R = ropen(d.s, d.m * 2^W, d.m * 2^W + d.m, d.x - W)
  pure def rbelow(d: D, W: int): R = ropen(d.s, d.m * 2^W - d.m, d.m * 2^W, d.x - W)
  pure def roneAbove(W: int): R = ropen(1, 2^W, 2^W + 1, -W)
  pure def roneBelow(W: int): R = ropen(1, 2^W - 1, 2^W, -W)
  pure def rhuge(s: int): R = ropen(s, 1, 2, EMAX + 8)
  pure def rtiny(s: int): R = ropen(s, 1, 2, 4 * EMIN)

  // Rounding of what is known: the number if it is determined.
  type Opt = { ok: bool, v: Num }
  pure def roundR(r: R, p: int, rm: int): Opt =
    if (r.k == REXACT) { ok: true, v: if (r.lo == 0) zero(r.s, p, false) else roundQ(r.s, r.lo, r.hi, r.x, p, rm) }
    else if (r.k == ROPEN) {
      val a = roundDy(r.s, 4 * r.lo + 1, r.x - 2, p, rm)
      val b = roundDy(r.s, 4 * r.hi - 1, r.x - 2, p, rm)
      { ok: sameRep(a, b), v: a.with("ix", true) }
    }
    else { ok: false, v: nan(ENONE) }

  // ------------------------------------------------------------------ exp family
  // exp(t * 2^0) for a ball t at scale w (|t| < 2^34, error small): (mantissa ball at scale w, exponent)
  pure def expBall(t: F, w: int, ws: int): (F, int) = {
    // ws: scale of t, ws >= w + 40
    val l2 = cLn2(ws)
    val q = fdiv(t.m, l2.m)
    val rem = { m: t.m - q * l2.m, r: t.r + iabs(q) * l2.r }
    (fexp(frescale(rem, ws, w), w), q)
  }
  // exp of an exact dyadic; |d| < 2^33
  pure def expD(d: D, w: int): (F, int) = {
    val ws = w + imax(dExp(d), 0) + 8
    expBall(fdyadic(d.s, d.m, d.x, ws), w, ws)
  }
  pure def rExp(d: D, W: int): R = {
    val ex = dExp(d)
    if (ex < -W) (if (d.s > 0) roneAbove(W) else roneBelow(W))
    else if (ex > 33) (if (d.s > 0) rhuge(1) else rtiny(1))
    else {
      val w = W + 8
      val z = expD(d, w)
      rball(z._1, w, z._2)
    }
  }
  pure def rSinhCosh(d: D, W: int, sinh: bool): R = {
    val ex = dExp(d)
    if (2 * ex < -W - 2) (if (sinh) rabove(d, W) else roneAbove(W))
    else if (ex > 33) rhuge(if (sinh) d.s else 1)
    else {
      val w = W + imax(0, -ex) + 8
      val z = expD(d.with("s", 1), w)
      val q = z._2
      val inv = if (2 * q > w + 4) { m: 0, r: 2 }
                else fshift(fquo(fone(w), z._1, w), -2 * q)
      val v = if (sinh) fsub(z._1, inv) else fadd(z._1, inv)
      val r = rball(v, w, q - 1)
      if (sinh and d.s < 0) rneg(r) else r
    }
  }
  pure def rTanh(d: D, W: int): R = {
    val ex = dExp(d)
    if (2 * ex < -W - 2) rbelow(d, W)
    else if (ex > 33) roneBelow(W).with("s", d.s)
    else {
      val w = W + imax(0, -ex) + 8
      val z = expD(d.with("s", 1), w)
      val q = z._2
      if (2 * q > w + 4) roneBelow(W).with("s", d.s)
      else {
        val sq = fsq(z._1, w)
        val t = fshift(fone(w), -2 * q)
        val r = rball(fquo(fsub(sq, t), fadd(sq, t), w), w, 0)
        if (d.s < 0) rneg(r) else r
      }
    }
  }

  // ------------------------------------------------------------------ logarithms
  // ln of a positive ball t at scale w (value in (2^-8, 2^40) say), absolute error about 2^-w
  pure def lnBall(t: F, w: int): F = {
    val k = bitlen(t.m) - w            // t in [2^(k-1), 2^k)
    // bring into [3/4, 3/2)
    val u0 = fshift(t, -k)             // [1/2, 1)
    val up = u0.m * 4 < 3 * 2^w
    val u = if (up) fshift(t, 1 - k) else u0
    val kk = if (up) k - 1 else k
    fadd(fln(u, w), fscale(cLn2(w), kk))
  }
  // ln(a/b * 2^x), a, b > 0, at scale w, absolute error about 2^-w
  pure def lnQ(a: int, b: int, x: int, w: int): F = {
    val k = bitlen(a) - bitlen(b)
    val u0 = frat(a, b, -k, w + 8)     // (1/2, 2)
    val kk = if (u0.m * 4 < 3 * 2^(w + 8)) k - 1 else if (u0.m * 2 >= 3 * 2^(w + 8)) k + 1 else k
    val u = frat(a, b, -kk, w + 8)
    val e = x + kk
    val l = fln(u, w + 8)
    val eb = bitlen(iabs(e))
    frescale(fadd(l, frescale(fscale(cLn2(w + 8 + eb), e), w + 8 + eb, w + 8)), w + 8, w)
  }
  // extra scale needed so that ln d has relative precision
  pure def lnExtra(d: D): int = {
    val ex = dExp(d)
    if (ex < 0 or ex > 1) 0 else { val g = dMinus1(d)   imax(0, -(bitlen(g.m) + g.x)) + 2 }
  }
  // d > 0, d # 1: (ball, scale) with relative precision about 2^-W
  pure def lnRel(d: D, W: int): (F, int) = {
    val w = W + lnExtra(d) + 8
    (lnQ(d.m, 1, d.x, w), w)
  }
  pure def dIsOne(d: D): bool = dExp(d) == 1 and dMinus1(d).m == 0
  pure def rLn(d: D, W: int): R =
    if (dIsOne(d)) rzero else { val z = lnRel(d, W)   rball(z._1, z._2, 0) }

  // quotient of two balls of different scales, both bounded away from 0
  pure def rdivBalls(a: F, wa: int, b: F, wb: int, W: int): R = {
    if (iabs(b.m) <= b.r) runk else {
      // scale numerator so that the quotient has W bits
      val sh = imax(0, W + bitlen(iabs(b.m)) - bitlen(iabs(a.m)) + 4)
      val q = a.m * 2^sh / b.m
      val r = (a.r * 2^sh + (iabs(q) + 1) * b.r) / (iabs(b.m) - b.r) + 2
      rball({ m: q, r: r }, sh + wa - wb, 0)
    }
  }
  // Largest exact relation: odd parts X, B > 1 with X^s = B^r ?  Returns (r, s) with X = c^r, B = c^s, or (0, 0)
  pure def powerRelation(X: int, B: int): (int, int) = {
    // Euclid on exponents: (A, a1, a2), (C, c1, c2): A = X^a1 B^a2 ...; subtract the smaller from the larger
    val z = range(0, 4096).foldl({ a: X, b: B, fa: (1, 0), fb: (0, 1), st: 0 }, (t, _) =>
      if (t.st != 0) t
      else if (t.a == 1 or t.b == 1) t.with("st", 1)
      else if (t.a == t.b) t.with("st", 2)
      else if (t.a > t.b)
        (if (t.a % t.b != 0) t.with("st", 1)
         else { a: t.a / t.b, b: t.b, fa: (t.fa._1 - t.fb._1, t.fa._2 - t.fb._2), fb: t.fb, st: 0 })
      else
        (if (t.b % t.a != 0) t.with("st", 1)
         else { a: t.a, b: t.b / t.a, fb: (t.fb._1 - t.fa._1, t.fb._2 - t.fa._2), fa: t.fa, st: 0 }))
    // st = 2: X^fa1 B^fa2 = X^fb1 B^fb2 = c, i.e. X^(fa1-fb1) = B^(fb2-fa2)
    if (z.st != 2) (0, 0)
    else {
      val u = z.fa._1 - z.fb._1
      val v = z.fb._2 - z.fa._2
      // X^u = B^v  =>  log_B X = v/u
      if (u < 0) (-v, -u) else (v, u)
    }
  }
  // log base b of d (both positive, not 1): exact rational value if there is one
  pure def logExact(d: D, b: D): R = {
    val td = tz(d.m)
    val tb = tz(b.m)
    val X = d.m / 2^td
    val B = b.m / 2^tb
    val i = d.x + td
    val j = b.x + tb
    if (X == 1 and B == 1) rexact(isgn(i) * isgn(j), iabs(i), iabs(j), 0)
    else if (X == 1 or B == 1) runk
    else {
      val rel = powerRelation(X, B)        // log_B X = v/u
      if (rel._1 <= 0 or rel._2 <= 0) runk
      else if (i * rel._2 == j * rel._1) rexact(1, rel._1, rel._2, 0)
      else runk
    }
  }
  pure def rLog(d: D, b: D, W: int): R =
    if (dIsOne(d)) rzero
    else {
      val ex = logExact(d, b)
      if (ex.k == REXACT) ex
      else {
        val n = lnRel(d, W + 8)
        val m = lnRel(b, W + 8)
        rdivBalls(n._1, n._2, m._1, m._2, W)
      }
    }
  pure val DTWO: D = { s: 1, m: 2, x: 0 }
  pure val DTEN: D = { s: 1, m: 10, x: 0 }

  // ------------------------------------------------------------------ power: d > 0, d # 1, y # 0
  // exact k-th power roots: d = root^(2^k) with root dyadic
  pure def sqrtRoots(d: D, k: int): { ok: bool, m: int, x: int } = {
    val t = tz(d.m)
    range(0, k).foldl({ ok: true, m: d.m / 2^t, x: d.x + t }, (a, _) =>
      if (not(a.ok)) a else {
        val s = isqrt(a.m)
        { ok: s * s == a.m and a.x % 2 == 0, m: s, x: a.x / 2 }
      })
  }
  // exact dyadic value of d^y when it exists and is short enough to matter
  pure def powExact(d: D, y: D, p: int): R = {
    val ty = tz(y.m)
    val Y = y.m / 2^ty                 // odd
    val yx = y.x + ty                  // y = s*Y*2^yx
    val td = tz(d.m)
    val X = d.m / 2^td
    val i = d.x + td
    if (X == 1) {
      // 2^(i*y): dyadic iff i*y is an integer
      if (i == 0) rexact(1, 1, 1, 0)
      else if (yx >= 0) {
        if (bitlen(Y) + yx > 40) (if (i * y.s > 0) rhuge(1) else rtiny(1))
        else rexact(1, 1, 1, i * y.s * Y * 2^yx)
      }
      else if (-yx > 40) runk
      else if (i % 2^(-yx) == 0) rexact(1, 1, 1, i / 2^(-yx) * y.s * Y)
      else runk
    }
    else if (y.s < 0) runk             // 1/(odd > 1)^n is never a rounding boundary
    else {
      val root = if (yx < 0) (if (-yx > 40) { ok: false, m: 0, x: 0 } else sqrtRoots(d, -yx)) else { ok: true, m: X, x: i }
      if (not(root.ok)) runk
      else {
        val n = if (yx >= 0) (if (yx > 40) 2^40 else Y * 2^yx) else Y
        // the odd part root.m^n has more than (bits-1)*n bits
        if ((bitlen(root.m) - 1) * n > p + 2) runk
        else rexact(1, root.m^n, 1, root.x * n)
      }
    }
  }
  pure def rPow(d: D, y: D, p: int, W: int): R =
    if (dIsOne(d)) rexact(1, 1, 1, 0)
    else {
      val e0 = powExact(d, y, p)
      if (e0.k != RUNK) e0
      else {
        // exponent of ln d: between -lnExtra and 32
        val g = lnExtra(d)
        val ed = dExp(d)
        val el = if (ed < 0 or ed > 1) bitlen(iabs(ed)) else 1 - imax(0, g - 3)   // |ln d| < 2^el
        val et = dExp(y) + el                                                // |y ln d| < 2^et
        val up = (if (ed >= 1) 1 else -1) * y.s > 0
        if (et < -W) (if (up) roneAbove(W) else roneBelow(W))
        else if (et > 40) (if (up) rhuge(1) else rtiny(1))
        else {
          // ln d = L * 2^-wl with relative error 2^-(W+..)
          val wr = W + imax(et, 0) + 16
          val z = lnRel(d, wr)
          // t = y * ln d at scale ws
          val ws = W + imax(et, 0) + 16
          // product m*2^(x - wl): rescale
          val pm = y.s * y.m * z._1.m
          val pr = y.m * z._1.r
          val sh = y.x - z._2 + ws
          val t = if (sh >= 0) { m: pm * 2^sh, r: pr * 2^sh } else { m: pm / 2^(-sh), r: pr / 2^(-sh) + 2 }
          if (bitlen(iabs(t.m)) - ws > 36) (if (up) rhuge(1) else rtiny(1))
          else {
            val w = W + 8
            val ex = expBall(t, w, ws)
            rball(ex._1, w, ex._2)
          }
        }
      }
    }

  // ------------------------------------------------------------------ trigonometry
  pure val TRIGMAX: int = 40000          // largest exponent the model reduces
  // (sin, cos) of d at scale w, and the quadrant used
  pure def sincosD(d: D, w: int): (F, F) = {
    val ex = dExp(d)
    val ws = w + imax(ex, 0) + 8
    val t = fdyadic(d.s, d.m, d.x, ws)
    val h = { m: cPi(ws).m / 2, r: cPi(ws).r + 1 }          // pi/2
    val q = fdiv(2 * t.m + h.m, 2 * h.m)
    val rem = { m: t.m - q * h.m, r: t.r + iabs(q) * h.r }
    val sc = fsincos(frescale(rem, ws, w), w)
    val j = fmod(q, 4)
    if (j == 0) sc
    else if (j == 1) (sc._2, fneg(sc._1))
    else if (j == 2) (fneg(sc._1), fneg(sc._2))
    else (fneg(sc._2), sc._1)
  }
  pure def rSin(d: D, W: int): R = {
    val ex = dExp(d)
    if (2 * ex < -W - 2) rbelow(d, W)
    else if (ex > TRIGMAX) runk
    else { val w = W + imax(0, -ex) + 8   rball(sincosD(d, w)._1, w, 0) }
  }
  pure def rCos(d: D, W: int): R = {
    val ex = dExp(d)
    if (2 * ex < -W - 2) roneBelow(W)
    else if (ex > TRIGMAX) runk
    else { val w = W + 8   rball(sincosD(d, w)._2, w, 0) }
  }
  pure def rTan(d: D, W: int): R = {
    val ex = dExp(d)
    if (2 * ex < -W - 2) rabove(d, W)
    else if (ex > TRIGMAX) runk
    else {
      val w = W + imax(0, -ex) + 8
      val z = sincosD(d, w)
      rdivBalls(z._1, w, z._2, w, W)
    }
  }
  // atan of a positive ball quotient n/m (both at scale w), absolute error about 2^-w
  pure def atan2pos(n: F, m: F, w: int): F =
    if (n.m <= m.m) fatan(fquo(n, m, w), w)
    else fsub({ m: cPi(w).m / 2, r: cPi(w).r + 1 }, fatan(fquo(m, n, w), w))
  pure def rAtan(d: D, W: int): R = {
    val ex = dExp(d)
    if (2 * ex < -W - 2) rbelow(d, W)
    else if (ex > W + 2) {
      val h = { m: cPi(W).m / 2, r: cPi(W).r + 3 }
      rball(h, W, 0).with("s", d.s)
    }
    else {
      val w = W + imax(0, -ex) + 8
      // scale so that both are representable: n = |d|, m = 1 (scale w) or 1/|d|
      val v = if (ex <= 0) fatan(fdyadic(1, d.m, d.x, w), w)
              else if (ex == 1 and d.x < 0 and d.m == 2^(-d.x)) fatan(fone(w), w)
              else fsub({ m: cPi(w).m / 2, r: cPi(w).r + 1 }, fatan(frat(1, d.m, -d.x, w), w))
      rball(v, w, 0).with("s", d.s)
    }
  }
  // |d| < 1
  // 1 - d^2 = (1-|d|)(1+|d|) exactly, as integer at scale 2*(-x)
  pure def rAsin(d: D, W: int): R = {
    val ex = dExp(d)
    if (dIsOne(d)) { val h = { m: cPi(W).m / 2, r: cPi(W).r + 1 }   rball(h, W, 0).with("s", d.s) }
    else if (2 * ex < -W - 2) rabove(d, W)
    else {
      val w = W + imax(0, -ex) + 8
      val c = fsqrt(frat(2^(-2 * d.x) - d.m * d.m, 1, 2 * d.x, w + 4), w + 4)
      rball(frescale(atan2pos(fdyadic(1, d.m, d.x, w + 4), c, w + 4), w + 4, w), w, 0).with("s", d.s)
    }
  }
  pure def rAcos(d: D, W: int): R = {
    val ex = dExp(d)
    if (dIsOne(d)) (if (d.s > 0) rzero else rball(cPi(W), W, 0))
    else if (ex < -W - 2) rball({ m: cPi(W).m / 2, r: cPi(W).r + 3 }, W, 0)
    else {
      val one = 2^(-d.x)
      val om = one - d.m                 // (1-|d|) * 2^-x
      val op = one + d.m
      val w = W + (if (d.s > 0) imax(0, -(bitlen(om) + d.x)) else 0) + 8
      // tan(acos(d)/2) = sqrt((1-d)/(1+d))
      val n = if (d.s > 0) om else op
      val m = if (d.s > 0) op else om
      val v = if (n <= m) fatan(fsqrt(frat(n, m, 0, w), w), w)
              else fsub({ m: cPi(w).m / 2, r: cPi(w).r + 1 }, fatan(fsqrt(frat(m, n, 0, w), w), w))
      rball(fscale(v, 2), w, 0)
    }
  }

  // ------------------------------------------------------------------ inverse hyperbolic
  pure def rAsinh(d: D, W: int): R = {
    val ex = dExp(d)
    if (2 * ex < -W - 2) rbelow(d, W)
    else if (ex > W + 2) {
      // ln(2|d|) + (0, 2^-2W)
      val l = lnQ(d.m, 1, d.x + 1, W + 8)
      rball({ m: l.m, r: l.r + 1 }, W + 8, 0).with("s", d.s)
    }
    else {
      val w = W + imax(0, -ex) + 8
      val v = if (d.x + w >= 0) fdyadic(1, d.m, d.x, w) else fdyadic(1, d.m, d.x, w)
      val t = fadd(v, fsqrt(fadd(fsq(v, w), fone(w)), w))
      rball(lnBall(t, w), w, 0).with("s", d.s)
    }
  }
  // d > 1
  pure def rAcosh(d: D, W: int): R = {
    val ex = dExp(d)
    if (dIsOne(d)) rzero
    else if (ex > W + 2) {
      val l = lnQ(d.m, 1, d.x + 1, W + 8)
      rball({ m: l.m, r: l.r + 1 }, W + 8, 0)
    }
    else {
      val g = dMinus1(d)
      val w = W + imax(0, -(bitlen(g.m) + g.x)) + 8
      // x^2 - 1 exactly
      val sq = if (d.x >= 0) frat(d.m * d.m * 2^(2 * d.x) - 1, 1, 0, w)
               else frat(d.m * d.m - 2^(-2 * d.x), 1, 2 * d.x, w)
      val t = fadd(fdyadic(1, d.m, d.x, w), fsqrt(sq, w))
      rball(lnBall(t, w), w, 0)
    }
  }
  // |d| < 1
  pure def rAtanh(d: D, W: int): R = {
    val ex = dExp(d)
    if (2 * ex < -W - 2) rabove(d, W)
    else {
      val w = W + imax(0, -ex) + 8
      val one = 2^(-d.x)
      rball(lnQ(one + d.m, one - d.m, 0, w), w, -1).with("s", d.s)
    }
  }
}
