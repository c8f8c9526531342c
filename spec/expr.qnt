// Expressions: the value of a program over the reals as a rigorous interval, and what the expression macro
// may return for it in a context (precision, rounding mode, exponent limits).
module expr {
  import base.* from "./base"
  import num.* from "./num"
  import fixed.* from "./fixed"
  import fun.* from "./fun"
  import lib.* from "./lib"
  import order.* from "./order"
  import conv.* from "./conv"
  import radix.* from "./radix"

  pure val OEXPR: int = 102

  // A value: k = VFIN: lo * 2^x <= v <= hi * 2^x; ex: v = lo * 2^x computed without any rounding.
  // VINF, VHUGE (finite but above every number), VTINY (not zero but below every number): sign in lo.
  pure val VFIN: int = 0
  pure val VINF: int = 1
  pure val VNAN: int = 2
  pure val VUNK: int = 3
  pure val VHUGE: int = 4
  pure val VTINY: int = 5
  type V = { k: int, ex: bool, lo: int, hi: int, x: int }
  pure def vsp(k: int, s: int): V = { k: k, ex: false, lo: s, hi: s, x: 0 }
  pure val vunk: V = vsp(3, 0)
  pure val vnan: V = vsp(2, 0)
  pure val vzero: V = { k: VFIN, ex: true, lo: 0, hi: 0, x: 0 }
  pure def vmag(v: V): int = imax(iabs(v.lo), iabs(v.hi))
  pure def vtop(v: V): int = bitlen(vmag(v)) + v.x                // |v| < 2^vtop
  pure def visz(v: V): bool = v.k == VFIN and v.lo == 0 and v.hi == 0
  pure def vhas0(v: V): bool = v.lo <= 0 and v.hi >= 0
  pure def vsgn(v: V): int = if (v.lo > 0) 1 else if (v.hi < 0) -1 else 0
  pure def vex(s: int, m: int, x: int): V = { k: VFIN, ex: true, lo: s * m, hi: s * m, x: x }

  // working precision W, target precision P
  pure def mk(lo: int, hi: int, x: int, ex: bool, P: int, W: int): V = {
    val m = imax(iabs(lo), iabs(hi))
    val b = bitlen(m)
    if (m == 0) vzero.with("ex", ex)
    else if (b + x > EMAX) (if (lo > 0) vsp(VHUGE, 1) else if (hi < 0) vsp(VHUGE, -1) else vunk)
    else if (b + x < EMIN + P + W) (if (b + x < EMIN - P) (if (lo > 0) vsp(VTINY, 1) else if (hi < 0) vsp(VTINY, -1) else vunk) else vunk)
    else if (ex and b - tz(m) <= P) { k: VFIN, ex: true, lo: lo, hi: hi, x: x }
    else if (b > W + 40) {
      val u = 2^(b - W - 40)
      { k: VFIN, ex: false, lo: fdiv(lo, u), hi: cdiv(hi, u), x: x + b - W - 40 }
    }
    else { k: VFIN, ex: false, lo: lo, hi: hi, x: x }
  }
  // the same value with unit 2^x, outward
  pure def alignLo(m: int, from: int, x: int): int =
    if (m == 0) 0 else if (from >= x) m * 2^(from - x) else if (x - from > bitlen(iabs(m)) + 2) (if (m < 0) -1 else 0) else fdiv(m, 2^(x - from))
  pure def alignHi(m: int, from: int, x: int): int = -alignLo(-m, from, x)

  pure def vneg(a: V): V =
    if (a.k == VFIN) a.with("lo", -a.hi).with("hi", -a.lo) else if (a.k == VNAN or a.k == VUNK) a else vsp(a.k, -a.lo)
  pure def vadd(a: V, b: V, P: int, W: int): V =
    if (visz(a)) b.with("ex", a.ex and b.ex) else if (visz(b)) a.with("ex", a.ex and b.ex)
    else {
      val x = imax(imin(a.x, b.x), imax(vtop(a), vtop(b)) - 4 * W - 300)
      val exact = a.ex and b.ex and x <= a.x and x <= b.x
      mk(alignLo(a.lo, a.x, x) + alignLo(b.lo, b.x, x), alignHi(a.hi, a.x, x) + alignHi(b.hi, b.x, x), x, exact, P, W)
    }
  pure def vmul(a: V, b: V, P: int, W: int): V = {
    val p1 = a.lo * b.lo
    val p2 = a.lo * b.hi
    val p3 = a.hi * b.lo
    val p4 = a.hi * b.hi
    mk(imin(imin(p1, p2), imin(p3, p4)), imax(imax(p1, p2), imax(p3, p4)), a.x + b.x, a.ex and b.ex, P, W)
  }
  pure def vdiv(a: V, b: V, P: int, W: int): V =
    if (vhas0(b)) (if (visz(a) and visz(b)) vnan else if (visz(b) and vsgn(a) != 0) vsp(VINF, 0) else vunk)
    else if (visz(a)) a.with("ex", false)
    else if (b.hi < 0) vdivPos(vneg(a), vneg(b), P, W) else vdivPos(a, b, P, W)
  pure def vdivPos(a: V, b: V, P: int, W: int): V = {
    val sh = imax(0, W + 50 + bitlen(b.hi) - bitlen(vmag(a)))
    val l = a.lo * 2^sh
    val h = a.hi * 2^sh
    mk(imin(fdiv(l, b.lo), fdiv(l, b.hi)), imax(cdiv(h, b.lo), cdiv(h, b.hi)), a.x - b.x - sh, false, P, W)
  }
  pure def vrem(a: V, b: V, P: int, W: int): V =
    if (visz(b)) vnan
    else if (visz(a)) a
    else if (vhas0(b) or vhas0(a) or vtop(a) - vtop(b) > 3000 or vtop(b) - vtop(a) > 3000 or a.x - b.x > 8000 or b.x - a.x > 8000) vunk
    else {
      val s = vsgn(a)
      val A = if (s < 0) vneg(a) else a
      val B = if (b.hi < 0) vneg(b) else b
      val x = imin(a.x, b.x)
      val al = A.lo * 2^(A.x - x)
      val ah = A.hi * 2^(A.x - x)
      val bl = B.lo * 2^(B.x - x)
      val bh = B.hi * 2^(B.x - x)
      val q = al / bh
      if (q != ah / bl) vunk
      else {
        val r = mk(al - q * bh, ah - q * bl, x, a.ex and b.ex, P, W)
        if (s < 0) vneg(r) else r
      }
    }

  // ------------------------------------------------------------------ functions
  pure def dl(v: V): D = { s: isgn(v.lo), m: iabs(v.lo), x: v.x }
  pure def dh(v: V): D = { s: isgn(v.hi), m: iabs(v.hi), x: v.x }
  pure def rv(r: R, P: int, W: int): V =
    if (r.k == RUNK) vunk
    else if (r.k == REXACT) {
      if (r.lo == 0) vzero.with("ex", false)
      else if (r.hi == 1) mk(r.s * r.lo, r.s * r.lo, r.x, false, P, W)
      else { val q = vdivPos(vex(1, r.lo, r.x), vex(1, r.hi, 0), P, W)   if (r.s < 0) vneg(q) else q }
    }
    else if (r.s > 0) mk(r.lo, r.hi, r.x, false, P, W) else mk(-r.hi, -r.lo, r.x, false, P, W)
  pure def hull(a: V, b: V, P: int, W: int): V =
    if (a.k != VFIN or b.k != VFIN) (if (a.k == b.k and a.lo == b.lo) a else vunk)
    else if (a.lo == b.lo and a.hi == b.hi and a.x == b.x) a
    else {
      val x = imax(imin(a.x, b.x), imax(vtop(a), vtop(b)) - 4 * W - 300)
      mk(imin(alignLo(a.lo, a.x, x), alignLo(b.lo, b.x, x)), imax(alignHi(a.hi, a.x, x), alignHi(b.hi, b.x, x)), x, false, P, W)
    }
  pure def dsqrt(d: D, W: int): R = {
    val k = imax(0, 2 * W + 8 - bitlen(d.m))
    val k2 = k + fmod(d.x - k, 2)
    val n = d.m * 2^k2
    val h = fdiv(d.x - k2, 2)
    val t = isqrt(n)
    if (t * t == n) rexact(1, t, 1, h) else ropen(1, t, t + 1, h)
  }
  pure def dcbrt(d: D, W: int): R = {
    val k = imax(0, 3 * W + 12 - bitlen(d.m))
    val k3 = k + fmod(d.x - k, 3)
    val n = d.m * 2^k3
    val h = fdiv(d.x - k3, 3)
    val t = icbrt(n)
    if (t * t * t == n) rexact(d.s, t, 1, h) else ropen(d.s, t, t + 1, h)
  }
  pure def dfn(op: int, d: D, W: int): R =
    if (op == OSQRT) dsqrt(d, W) else if (op == OCBRT) dcbrt(d, W) else fnOf(op, d, W)
  // |d| compared with one
  pure def dcmp1(d: D): int = cmpDy(d.m, d.x, 1, 0)
  // is d (not zero) inside the domain: -1 no, 0 a pole or end, 1 yes
  pure def dom(op: int, d: D): int =
    if (op == OSQRT or op == OLN or op == OLOG2 or op == OLOG10) (if (d.s > 0) 1 else -1)
    else if (op == OASIN or op == OACOS) (if (dcmp1(d) <= 0) 1 else -1)
    else if (op == OATANH) -dcmp1(d)
    else if (op == OACOSH) (if (d.s > 0 and dcmp1(d) >= 0) 1 else -1)
    else 1
  pure def vfn0(op: int, P: int, W: int): V =
    if (op == OEXP or op == OCOS or op == OCOSH) vex(1, 1, 0).with("ex", false)
    else if (op == OLN or op == OLOG2 or op == OLOG10) vsp(VINF, -1)
    else if (op == OACOS) rv(rball({ m: cPi(W).m / 2, r: cPi(W).r + 1 }, W, 0), P, W)
    else if (op == OACOSH) vnan
    else vzero.with("ex", false)
  pure def vtrig(op: int, v: V, P: int, W: int): V = {
    val ex = vtop(v)
    val one = vex(1, 1, 0).with("ex", false)
    def near(l, h) = vmul(v, { k: VFIN, ex: false, lo: l, hi: h, x: -W }, P, W)
    if (2 * ex < -W - 2)
      (if (op == OSIN) near(2^W - 1, 2^W) else if (op == OTAN) near(2^W, 2^W + 1) else { k: VFIN, ex: false, lo: 2^W - 1, hi: 2^W, x: -W })
    else if (ex > 3000) vunk
    else {
      val w = W + imax(0, -ex) + 8
      val mid = fdiv(v.lo + v.hi, 2)
      val rad = if (v.lo == v.hi) 0 else v.hi - mid + 1
      val rw = if (rad == 0) 0 else alignHi(rad, v.x, -w)
      val sc = if (mid == 0) ({ m: 0, r: 0 }, fone(w)) else sincosD({ s: isgn(mid), m: iabs(mid), x: v.x }, w)
      def ball(f) = mk(f.m - f.r - rw, f.m + f.r + rw, -w, false, P, w)
      if (op == OSIN) ball(sc._1) else if (op == OCOS) ball(sc._2)
      else vdiv(ball(sc._1), ball(sc._2), P, W)
    }
  }
  pure def vfn(op: int, v: V, P: int, W: int): V =
    if (visz(v)) vfn0(op, P, W)
    else if (op == OSIN or op == OCOS or op == OTAN) vtrig(op, v, P, W)
    else if (vhas0(v)) vunk
    else {
      val a = dl(v)
      val b = dh(v)
      val da = dom(op, a)
      val db = dom(op, b)
      if (da < 0 and db < 0 and (a.s == b.s)) vnan
      else if (v.lo == v.hi and da == 0) vsp(VINF, a.s)
      else if (da <= 0 or db <= 0) vunk
      else if (v.lo == v.hi) rv(dfn(op, a, W), P, W)
      else hull(rv(dfn(op, a, W), P, W), rv(dfn(op, b, W), P, W), P, W)
    }
  pure def vlog(a: V, b: V, P: int, W: int): V =
    if (visz(a) or visz(b) or vhas0(a) or vhas0(b)) vunk
    else if (vsgn(a) < 0 or vsgn(b) < 0) vnan
    else if (b.lo == b.hi and dIsOne(dl(b))) vunk
    else if (a.lo == a.hi and b.lo == b.hi) rv(rLog(dl(a), dl(b), W), P, W)
    else {
      val n = vfn(OLN, a, P, W + 20)
      val d = vfn(OLN, b, P, W + 20)
      if (n.k == VFIN and d.k == VFIN) vdiv(n, d, P, W) else vunk
    }
  pure def visInt(v: V): bool = v.lo == v.hi and (v.x >= 0 or v.lo % 2^(-v.x) == 0)
  pure def visOdd(v: V): bool = if (v.x > 0) false else iabs(v.lo) / 2^(-v.x) % 2 == 1
  pure def vpow(a: V, b: V, P: int, W: int): V =
    if (visz(b)) vex(1, 1, 0).with("ex", false)
    else if (vhas0(b) or not(visz(a)) and vhas0(a)) vunk
    else if (visz(a)) (if (vsgn(b) > 0) vzero.with("ex", false) else vunk)
    else if (vsgn(a) < 0 and b.lo != b.hi) vunk
    else if (vsgn(a) < 0 and not(visInt(b))) vnan
    else {
      val A = if (vsgn(a) < 0) vneg(a) else a
      def f(d, e) = rv(rPow(d, e, P, W), P, W)
      val l1 = f(dl(A), dl(b))
      val l2 = if (b.lo == b.hi) l1 else f(dl(A), dh(b))
      val r = if (A.lo == A.hi) hull(l1, l2, P, W)
              else {
                val h1 = f(dh(A), dl(b))
                val h2 = if (b.lo == b.hi) h1 else f(dh(A), dh(b))
                hull(hull(l1, l2, P, W), hull(h1, h2, P, W), P, W)
              }
      if (vsgn(a) < 0 and visOdd(b)) vneg(r) else r
    }
  pure def vconst(op: int, P: int, W: int): V =
    rv(rball(if (op == OPI) cPi(W) else if (op == OE) cE(W) else if (op == OLN2) cLn2(W) else cLn10(W), W, 0), P, W)

  // ------------------------------------------------------------------ programs
  // The stack machine. haz: known weak spots that this program touches (1: a sum cancels in every working
  // digit, 2: an inverse function at a rounded one); out: some intermediate value leaves the exponent range
  // of the context, so that the library need not compensate its error.
  type Run = { i: int, st: List[V], haz: int, out: bool }
  type Cx = { p: int, emin: int, emax: int, W: int }
  pure def outside(v: V, c: Cx): bool =
    v.k == VHUGE or v.k == VTINY or (v.k == VFIN and not(visz(v)) and (vtop(v) < c.emin + 3 or vtop(v) > c.emax - 2))
  pure def near1(v: V, c: Cx): int = {          // exponent of |v| - 1 when close to one; 1 otherwise
    if (v.k != VFIN or vtop(v) < 0 or vtop(v) > 1) 1
    else { val g = dMinus1(if (iabs(v.lo) < iabs(v.hi)) dl(v) else dh(v))   val h = dMinus1(if (iabs(v.lo) < iabs(v.hi)) dh(v) else dl(v))
           imin(if (g.m == 0) -10^9 else bitlen(g.m) + g.x, if (h.m == 0) -10^9 else bitlen(h.m) + h.x) }
  }
  pure def isFun1(op: int): bool = op == ONEG or op == ORECIP or op == OSQRT or op == OCBRT or (30 <= op and op < 60 and op != OPOW and op != OLOG)
  pure def binop(op: int, a: V, b: V, P: int, W: int): V =
    if (op == OADD) vadd(a, b, P, W) else if (op == OSUB) vadd(a, vneg(b), P, W)
    else if (op == OMUL) vmul(a, b, P, W) else if (op == ODIV) vdiv(a, b, P, W)
    else if (op == OREM) vrem(a, b, P, W) else if (op == OPOW) vpow(a, b, P, W) else vlog(a, b, P, W)
  pure def hasNan(a: V): bool = a.k == VNAN
  pure def apply1(op: int, a: V, c: Cx): V =
    if (op == ONEG) vneg(a)
    else if (a.k == VNAN) vnan
    else if (a.k != VFIN) vunk
    else if (op == ORECIP) vdiv(vex(1, 1, 0), a, c.p, c.W)
    else vfn(op, a, c.p, c.W)
  pure def apply2(op: int, a: V, b: V, c: Cx): V =
    if (a.k == VUNK or b.k == VUNK) vunk
    else if (a.k == VNAN or b.k == VNAN) vnan
    else if (a.k != VFIN or b.k != VFIN) vunk
    else binop(op, a, b, c.p, c.W)
  pure def cancels(op: int, a: V, b: V, v: V, c: Cx): bool =
    (op == OADD or op == OSUB) and a.k == VFIN and b.k == VFIN and not(a.ex and b.ex) and not(visz(a)) and not(visz(b)) and
      (v.k == VUNK or vtop(v) < imax(vtop(a), vtop(b)) - c.p - 60)
  pure def touchesOne(op: int, a: V, c: Cx): bool =
    (op == OASIN or op == OACOS or op == OATANH or op == OACOSH) and not(a.ex) and near1(a, c) < -(c.p + 60)
  pure def leaves(op: int, a: V, b: V, c: Cx): bool =
    or {
      outside(a, c), outside(b, c),
      (op == OLN or op == OLOG2 or op == OLOG10 or op == OLOG or op == OASIN or op == OACOS or op == OATANH or op == OACOSH or op == OPOW) and near1(a, c) < c.emin + 3 and not(a.ex),
      op == OLOG and near1(b, c) < c.emin + 3 and not(b.ex)
    }
  // an operand that lies outside the range of the context and whose rounding may lie within it
  pure def justBelow(a: V, c: Cx): bool = a.k == VFIN and not(a.ex) and not(visz(a)) and vtop(a) == c.emin - 1
  pure def runStep(s: Run, i: int, t: List[int], regs: List[V], c: Cx): Run =
    if (i < s.i) s
    else {
      val k = t[i]
      val n = s.st.length()
      if (k == 1) s.with("i", i + 2).with("st", s.st.append(regs[t[i + 1]])).with("out", s.out or justBelow(regs[t[i + 1]], c))
      else if (k == 2) {
        val len = t[i + 1]
        s.with("i", i + 2 + len).with("st", s.st.append(decV(t.slice(i + 2, i + 2 + len), c)))
      }
      else if (k == 4) {
        val m = range(0, 8).foldl(0, (a, j) => a * 256 + t[i + 9 - j])
        s.with("i", i + 12).with("st", s.st.append(if (m == 0) vzero else vex(if (t[i + 1] == 1) -1 else 1, m, t[i + 10] + 256 * t[i + 11] - 32768)))
      }
      else {
        val op = k - 64
        if (60 <= op) s.with("i", i + 1).with("st", s.st.append(vconst(op, c.p, c.W)))
        else if (isFun1(op)) {
          val a = s.st[n - 1]
          val v = apply1(op, a, c)
          { i: i + 1, st: s.st.slice(0, n - 1).append(v), haz: if (touchesOne(op, a, c)) 2 else s.haz, out: s.out or (op != ONEG and leaves(op, a, a, c)) }
        }
        else {
          val a = s.st[n - 2]
          val b = s.st[n - 1]
          val v = apply2(op, a, b, c)
          { i: i + 1, st: s.st.slice(0, n - 2).append(v), haz: if (cancels(op, a, b, v, c)) 1 else s.haz, out: s.out or leaves(op, a, b, c) }
        }
      }
    }
  // a decimal literal
  pure def decV(t: List[int], c: Cx): V = {
    val s = t.foldl(scan0, (a, x) => step(a, x, 10))
    val e = (if (s.xneg) -s.X else s.X) - s.nf
    if (s.st == 22) (if (s.neg) vsp(VINF, -1) else vsp(VINF, 1))
    else if (s.st == 32) vnan
    else if (s.D == 0) vzero
    else {
      val v = if (e >= 0) mk(s.D * 10^e, s.D * 10^e, 0, true, c.p, c.W)
              else vdivPos(vex(1, s.D, 0), vex(1, 10^(-e), 0), c.p, c.W)
      if (s.neg) vneg(v) else v
    }
  }
  pure def numV(a: Num): V =
    if (a.k == KNAN) vnan else if (a.k == KINF) vsp(VINF, a.s) else if (a.m == 0) vzero
    else { val t = tz(a.m)   vex(a.s, a.m / 2^t, lsb(a) + t) }
  pure def numVp(a: Num, p: int): V = { val v = numV(a)   if (v.k == VFIN and bitlen(iabs(v.lo)) > p) v.with("ex", false) else v }
  pure def runExpr(t: List[int], regs: List[V], c: Cx): Run =
    range(0, t.length()).foldl({ i: 0, st: [], haz: 0, out: false }, (s, i) => runStep(s, i, t, regs, c))

  // ------------------------------------------------------------------ what the macro may return
  // 0 right, 1 undetermined, 2 wrong kind, 3 wrong sign, 4 wrong value, 5 wrong precision
  pure def accept(v: V, ev: Ev, c: Cx): int = {
    val r = ev.r
    val rz = r.k == KFIN and r.m == 0
    if (v.k == VUNK) 1
    else if (v.k == VNAN) (if (r.k == KNAN) 0 else 2)
    else if (v.k == VINF) (if (r.k != KINF) 2 else if (v.lo == 0 or v.lo == r.s) 0 else 3)
    else if (v.k == VHUGE) (if (r.k != KINF) 2 else if (v.lo == r.s) 0 else 3)
    else if (v.k == VTINY) (if (c.emin <= EMIN) 1 else if (rz) 0 else 2)
    else if (visz(v)) (if (rz) 0 else if (r.k != KFIN) 2 else 4)
    else if (vhas0(v)) 1
    else {
      val s = vsgn(v)
      val l = imin(iabs(v.lo), iabs(v.hi))
      val h = vmag(v)
      val g = ev.p + 32
      if (bitlen(h - l) + g + 2 > bitlen(l) and h != l) 1
      else {
        val ml = if (v.ex) l else l * 2^g - l
        val mh = if (v.ex) h else h * 2^g + h
        val x = if (v.ex) v.x else v.x - g
        val A = roundDy(s, ml, x, ev.p, if (ev.rm == RNONE) RZERO else ev.rm)
        val B = roundDy(s, mh, x, ev.p, if (ev.rm == RNONE) RAWAY else ev.rm)
        def above(n) = n.k == KINF or n.e > c.emax
        if (not(above(A)) and A.e <= EMIN + 1) 1
        else if (r.k == KNAN) 2
        else if (r.k == KINF) (if (not(above(B))) 2 else if (r.s != s) 3 else 0)
        else if (above(A)) 2
        else if (rz) (if (A.e < c.emin) 0 else 2)
        else if (not(above(B)) and B.e < c.emin) 2
        else if (r.s != s) 3
        else if (r.p != roundP(ev.p)) 5
        else if (cmpDy(r.m, lsb(r), A.m, lsb(A)) >= 0 and (above(B) or cmpDy(r.m, lsb(r), B.m, lsb(B)) <= 0)
                 and (ev.rm == RNONE or bitlen(r.m) - tz(r.m) <= ev.p) and r.e >= c.emin and r.e <= c.emax) 0
        else 4
      }
    }
  }
  pure def stoppedX(ev: Ev): bool = ev.r.k == KPANIC or ev.r.k == KABORT or ev.r.k == KHANG
  // z: the program; x: least exponent; y: greatest exponent + 2^31
  pure def judgeExpr(a: Num, b: Num, d: Num, ev: Ev): List[int] = {
    val t = bytesOf(ev.z)
    val emin = ev.x
    val emax = ev.y - 2^31
    val narrow = emin > EMIN or emax < EMAX
    if (stoppedX(ev)) [19001, 18001].concat(tagIf(narrow, 20001))
    else {
      val regs = [numVp(a, ev.p), numVp(b, ev.p), numVp(d, ev.p)]
      val res = [ev.p + 150, ev.p + 700, 2 * ev.p + 2500].foldl({ code: 1, haz: 0, out: false, ex: true }, (z, W) =>
        if (z.code != 1 or z.out) z else {
          val c = { p: ev.p, emin: emin, emax: emax, W: W }
          val s = runExpr(t, regs, c)
          { code: if (s.st.length() != 1) 1 else accept(s.st[0], ev, c), haz: s.haz, out: s.out, ex: s.st.length() == 1 and (s.st[0].ex or s.st[0].k != VFIN) }
        })
      val wf = if (wellFormed(ev.r)) [] else [16006, 19006]
      wf.concat(tagIf(ev.mut, 8009)).concat(
        if (res.code == 0) []
        else if (res.code == 1 or res.out) [99000]
        else if (res.haz == 1) [19500]
        else if (res.haz == 2) [19501]
        else [19000 + res.code].concat(tagIf(narrow, 20000 + res.code)))
    }
  }
}
