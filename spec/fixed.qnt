// Rigorous fixed-point arithmetic. A ball {m, r} at scale w encloses every real v with
// |v * 2^w - m| <= r. All error bounds are computed, none is assumed.
module fixed {
  import base.* from "./base"

  type F = { m: int, r: int }

  pure def fexact(m: int): F = { m: m, r: 0 }
  pure def fadd(a: F, b: F): F = { m: a.m + b.m, r: a.r + b.r }
  pure def fsub(a: F, b: F): F = { m: a.m - b.m, r: a.r + b.r }
  pure def fneg(a: F): F = { m: -a.m, r: a.r }
  pure def fscale(a: F, k: int): F = { m: a.m * k, r: a.r * iabs(k) }
  // multiply by 2^k (k of any sign)
  pure def fshift(a: F, k: int): F =
    if (k >= 0) { m: a.m * 2^k, r: a.r * 2^k }
    else { m: a.m / 2^(-k), r: a.r / 2^(-k) + 2 }
  // change of scale
  pure def frescale(a: F, w0: int, w1: int): F =
    if (w0 == w1) a
    else if (w1 > w0) { m: a.m * 2^(w1 - w0), r: a.r * 2^(w1 - w0) }
    else { m: a.m / 2^(w0 - w1), r: a.r / 2^(w0 - w1) + 2 }
  pure def fmul(a: F, b: F, w: int): F =
    { m: a.m * b.m / 2^w,
      r: (iabs(a.m) * b.r + iabs(b.m) * a.r + a.r * b.r) / 2^w + 2 }
  pure def fsq(a: F, w: int): F = fmul(a, a, w)
  // requires |b| > 0 throughout
  pure def fquo(a: F, b: F, w: int): F = {
    val q = a.m * 2^w / b.m
    { m: q, r: (a.r * 2^w + (iabs(q) + 1) * b.r) / (iabs(b.m) - b.r) + 2 }
  }
  // requires a.m >= 0
  pure def fsqrt(a: F, w: int): F = {
    val s = isqrt(a.m * 2^w)
    { m: s, r: if (s == 0) isqrt(a.r * 2^w) + 2 else a.r * 2^w / s + 2 }
  }
  pure def fone(w: int): F = fexact(2^w)

  // s * m * 2^x at scale w
  pure def fdyadic(s: int, m: int, x: int, w: int): F =
    if (x + w >= 0) { m: s * m * 2^(x + w), r: 0 } else { m: s * (m / 2^(-(x + w))), r: 1 }
  // a/b * 2^x at scale w (a >= 0, b > 0)
  pure def frat(a: int, b: int, x: int, w: int): F =
    if (x + w >= 0) { m: a * 2^(x + w) / b, r: 1 } else { m: a / (b * 2^(-(x + w))), r: 1 }

  // ---------------------------------------------------------------- constants
  // atan(1/n) (alt) or atanh(1/n) (not alt) at scale w
  pure def arcInv(n: int, w: int, alt: bool): F = {
    val bits = bitlen(n * n) - 1
    val N = w / bits + 3
    val z = range(1, N).foldl((2^w / n, 2^w / n, 1), (a, k) => {
      if (a._2 == 0) a else {
        val pw = a._2 / (n * n)
        val t = pw / (2 * k + 1)
        (if (alt and k % 2 == 1) a._1 - t else a._1 + t, pw, k)
      }
    })
    // every power is below its exact value by less than 2, every term by less than 3; tail < 3
    { m: z._1, r: 3 * N + 6 }
  }
  pure def cPiCompute(w: int): F = {
    val W = w + 12
    frescale(fsub(fscale(arcInv(5, W, true), 16), fscale(arcInv(239, W, true), 4)), W, w)
  }
  pure def cLn2Compute(w: int): F = {
    val W = w + 12
    frescale(fadd(fadd(fscale(arcInv(31, W, false), 14), fscale(arcInv(49, W, false), 10)),
             fscale(arcInv(161, W, false), 6)), W, w)
  }
  pure def cLn10Compute(w: int): F = {
    val W = w + 12
    frescale(fadd(fadd(fscale(arcInv(31, W, false), 46), fscale(arcInv(49, W, false), 34)),
             fscale(arcInv(161, W, false), 20)), W, w)
  }
  pure def cECompute(w: int): F = {
    val W = w + 12
    // N with N! > 2^W
    val N = range(1, W + 20).foldl((1, 1, false), (a, k) =>
      if (a._3) a else if (a._2 > 2^W) (k, a._2, true) else (k, a._2 * k, false))._1 + 2
    val z = range(1, N).foldl((2^W, 2^W), (a, k) => {
      val t = a._2 / k
      (a._1 + t, t)
    })
    frescale({ m: z._1, r: 2 * N + 4 }, W, w)
  }

  // computed once at a few scales, on demand
  pure val CW1: int = 3000
  pure val PI_C1: F = cPiCompute(CW1)
  pure val LN2_C1: F = cLn2Compute(CW1)
  pure val LN10_C1: F = cLn10Compute(CW1)
  pure val E_C1: F = cECompute(CW1)
  pure val CW2: int = 9000
  pure val PI_C2: F = cPiCompute(CW2)
  pure val LN2_C2: F = cLn2Compute(CW2)
  pure val LN10_C2: F = cLn10Compute(CW2)
  pure val E_C2: F = cECompute(CW2)
  pure val CW3: int = 18000
  pure val PI_C3: F = cPiCompute(CW3)
  pure val LN2_C3: F = cLn2Compute(CW3)
  pure val LN10_C3: F = cLn10Compute(CW3)
  pure val E_C3: F = cECompute(CW3)
  pure val CW4: int = 36000
  pure val PI_C4: F = cPiCompute(CW4)
  pure val LN2_C4: F = cLn2Compute(CW4)
  pure val LN10_C4: F = cLn10Compute(CW4)
  pure val E_C4: F = cECompute(CW4)
  pure def cPi(w: int): F =
    if (w <= CW1) frescale(PI_C1, CW1, w) else if (w <= CW2) frescale(PI_C2, CW2, w) else if (w <= CW3) frescale(PI_C3, CW3, w) else if (w <= CW4) frescale(PI_C4, CW4, w) else cPiCompute(w)
  pure def cLn2(w: int): F =
    if (w <= CW1) frescale(LN2_C1, CW1, w) else if (w <= CW2) frescale(LN2_C2, CW2, w) else if (w <= CW3) frescale(LN2_C3, CW3, w) else if (w <= CW4) frescale(LN2_C4, CW4, w) else cLn2Compute(w)
  pure def cLn10(w: int): F =
    if (w <= CW1) frescale(LN10_C1, CW1, w) else if (w <= CW2) frescale(LN10_C2, CW2, w) else if (w <= CW3) frescale(LN10_C3, CW3, w) else if (w <= CW4) frescale(LN10_C4, CW4, w) else cLn10Compute(w)
  pure def cE(w: int): F =
    if (w <= CW1) frescale(E_C1, CW1, w) else if (w <= CW2) frescale(E_C2, CW2, w) else if (w <= CW3) frescale(E_C3, CW3, w) else if (w <= CW4) frescale(E_C4, CW4, w) else cECompute(w)

  // ---------------------------------------------------------------- kernels
  // exp(y), |y| <= 1 (ball included)
  pure def fexp(y: F, w: int): F = {
    val h = isqrt(w) * 3 / 4 + 2
    val g = 2 * h + 12
    val W = w + g
    val u = y.m * 2^(g - h)
    val ur = y.r * 2^(g - h)
    val N = W / h + 10
    val z = range(1, N).foldl((2^W, 2^W, false), (a, k) =>
      if (a._3) a else {
        val t = a._2 * u / 2^W / k
        if (t == 0) (a._1, 0, true) else (a._1 + t, t, false)
      })
    val r0 = if (z._3) 4 * N + 16 + 3 * ur else 2^W
    frescale(range(0, h).foldl({ m: z._1, r: r0 }, (a, _) => fsq(a, W)), W, w)
  }

  // (sin y, cos y), |y| <= 1
  pure def fsincos(y: F, w: int): (F, F) = {
    val h = isqrt(w) / 2 + 2
    val g = 3 * h + 12
    val W = w + g
    val u = y.m * 2^(g - h)
    val ur = y.r * 2^(g - h)
    val N = W / h + 10
    // k-th term u^k/k!; even terms go to cos, odd to sin, sign by k/2
    val z = range(1, N).foldl((0, 2^W, 2^W, false), (a, k) =>
      if (a._4) a else {
        val t = a._3 * u / 2^W / k
        if (t == 0) (a._1, a._2, 0, true)
        else {
          val st = if ((k / 2) % 2 == 1) -t else t
          if (k % 2 == 1) (a._1 + st, a._2, t, false) else (a._1, a._2 + st, t, false)
        }
      })
    val r0 = if (z._4) 4 * N + 16 + 3 * ur else 2^W
    val sc = range(0, h).foldl(({ m: z._1, r: r0 }, { m: z._2, r: r0 }), (a, _) =>
      (fscale(fmul(a._1, a._2, W), 2), fsub(fone(W), fscale(fsq(a._1, W), 2))))
    (frescale(sc._1, W, w), frescale(sc._2, W, w))
  }

  // atan(y), 0 <= y <= 1 (+ ball)
  pure def fatan(y: F, w: int): F = {
    val h = isqrt(w) / 3 + 2
    val g = 2 * h + 12
    val W = w + g
    val u = range(0, h).foldl(frescale(y, w, W), (a, _) =>
      fquo(a, fadd(fone(W), fsqrt(fadd(fone(W), fsq(a, W)), W)), W))
    val uu = u.m * u.m / 2^W
    val N = W / (2 * h - 2) + 10
    val z = range(1, N).foldl((u.m, u.m, false), (a, k) =>
      if (a._3) a else {
        val pw = a._2 * uu / 2^W
        if (pw == 0) (a._1, 0, true)
        else {
          val t = pw / (2 * k + 1)
          (if (k % 2 == 1) a._1 - t else a._1 + t, pw, false)
        }
      })
    val r0 = if (z._3) 6 * N + 20 + 2 * u.r else 2^W
    frescale({ m: z._1 * 2^h, r: r0 * 2^h }, W, w)
  }

  // ln(x) for x in [1/2, 2]
  pure def fln(x: F, w: int): F = {
    val h = isqrt(w) / 3 + 2
    val g = 2 * h + 12
    val W = w + g
    val v = range(0, h).foldl(frescale(x, w, W), (a, _) => fsqrt(a, W))
    val u = fquo(fsub(v, fone(W)), fadd(v, fone(W)), W)
    val uu = u.m * u.m / 2^W
    val N = W / (2 * h - 2) + 10
    val z = range(1, N).foldl((u.m, u.m, false), (a, k) =>
      if (a._3) a else {
        val pw = a._2 * uu / 2^W
        if (pw == 0) (a._1, 0, true) else (a._1 + pw / (2 * k + 1), pw, false)
      })
    val r0 = if (z._3) 6 * N + 20 + 2 * u.r else 2^W
    frescale({ m: z._1 * 2^(h + 1), r: r0 * 2^(h + 1) }, W, w)
  }
}
