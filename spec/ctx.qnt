// Contexts of expressions: a machine whose state is what every context was last told.
module ctx {
  import base.* from "./base"
  import num.* from "./num"
  import fun.* from "./fun"
  import lib.* from "./lib"
  import expr.* from "./expr"

  pure val OCNEW: int = 103       // c := new(p, rm, x, y)
  pure val OCSETP: int = 104
  pure val OCSETRM: int = 105
  pure val OCEMIN: int = 106
  pure val OCEMAX: int = 107
  pure val OCCLONE: int = 108     // c := clone of b
  pure val OCRAW: int = 109       // taken apart and put together again
  pure val OCCONSTS: int = 111
  pure val OCCONST: int = 112     // constant y in context c
  pure val OTREAD: int = 113      // a tuple of c elements as a context
  pure val OTCONST: int = 114
  pure val OCEXPR: int = 115      // program z in context x
  pure val OCREAD: int = 116

  type Ctx = { p: int, rm: int, emin: int, emax: int }
  pure def clampTo(v: int, l: int, h: int): int = if (v < l) l else if (v > h) h else v
  pure def mkCtx(p: int, rm: int, lo: int, hi: int): Ctx = { p: p, rm: rm, emin: clampTo(lo, EMIN, 0), emax: clampTo(hi, 0, EMAX) }
  pure def ctxOp(op: int): bool = (OCNEW <= op and op <= OCRAW) or (OCCONSTS <= op and op <= OCREAD)
  // the settings of the contexts after an event
  pure def ctxNext(cs: int -> Ctx, ev: Ev): int -> Ctx =
    if (ev.op == OCNEW) cs.put(ev.c, mkCtx(ev.p, ev.rm, ev.x, ev.y - 2^31))
    else if (ev.op == OCSETP) cs.put(ev.c, cs.get(ev.c).with("p", ev.p))
    else if (ev.op == OCSETRM) cs.put(ev.c, cs.get(ev.c).with("rm", ev.rm))
    else if (ev.op == OCEMIN) cs.put(ev.c, cs.get(ev.c).with("emin", clampTo(ev.x, EMIN, 0)))
    else if (ev.op == OCEMAX) cs.put(ev.c, cs.get(ev.c).with("emax", clampTo(ev.y - 2^31, 0, EMAX)))
    else if (ev.op == OCCLONE) cs.put(ev.c, cs.get(ev.b))
    else cs
  pure def seen(r: Num): Ctx = { p: r.p, rm: r.n, emin: r.e, emax: r.m - 2^31 }
  pure def judgeCtx(cs: int -> Ctx, a: Num, b: Num, d: Num, ev: Ev): List[int] = {
    val op = ev.op
    if (stoppedX(ev)) [20001, 18001]
    else if (op == OCCONST) { val c = cs.get(ev.c)   verdict(20, ev, expConst(ev.y, c.p, c.rm), false) }
    else if (op == OTCONST) verdict(20, ev, expConst(ev.y, ev.p, ev.rm), false)
    else if (op == OTREAD) {
      val c = if (ev.c == 5) mkCtx(ev.p, ev.rm, ev.x, ev.y - 2^31) else mkCtx(ev.p, ev.rm, EMIN, EMAX)
      tagIf(seen(ev.r) != c, 20004)
    }
    else if (op == OCEXPR) {
      val c = cs.get(ev.x)
      judgeExpr(a, b, d, ev.with("p", c.p).with("rm", c.rm).with("x", c.emin).with("y", c.emax + 2^31))
    }
    else tagIf(seen(ev.r) != ctxNext(cs, ev).get(ev.c), 20004)
  }
}
