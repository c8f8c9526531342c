// Expressions and their contexts as a state machine, driven by an observed trace: the state is the operands
// and what every context was last told.
module replayx {
  import base.* from "./base"
  import num.* from "./num"
  import lib.* from "./lib"
  import conv.* from "./conv"
  import expr.* from "./expr"
  import ctx.* from "./ctx"
  import events.* from "./events"

  pure def judgeX(regs: int -> Num, cs: int -> Ctx, ev: Ev): List[int] = {
    val a = regs.get(ev.a)
    val b = regs.get(ev.b)
    val c = regs.get(ev.c)
    if (ctxOp(ev.op)) judgeCtx(cs, a, b, c, ev)
    else if (ev.op == OEXPR) judgeExpr(a, b, c, ev)
    else if (ev.op == OLOADRAW) verdict(14, ev, eNum(loadRaw(ev)), false)
    else []
  }
  type State = { regs: int -> Num, ctxs: int -> Ctx, pos: int, bad: int, und: int }
  pure def call(st: State, w: int): State = {
    val ev = decode(w)
    val tags = judgeX(st.regs, st.ctxs, ev)
    { ctxs: ctxNext(st.ctxs, ev),
      regs: if (ev.r.k <= KNAN) st.regs.put(ev.dst, ev.r) else st.regs,
      pos: st.pos + 1,
      bad: st.bad + report(st.pos, tags),
      und: if (tags.select(t => t == 99000).length() > 0) st.und + 1 else st.und }
  }
  pure val fresh: State = { regs: range(0, 256).foldl(Map(), (r, i) => r.put(i, nan(ENONE))), ctxs: Map(), pos: 0, bad: 0, und: 0 }

  var regs: int -> Num
  var ctxs: int -> Ctx
  var pos: int
  var bad: int
  var und: int
  action become(st: State): bool = all { regs' = st.regs, ctxs' = st.ctxs, pos' = st.pos, bad' = st.bad, und' = st.und }
  action start = become(fresh)
  action observe(w: int): bool = become(call({ regs: regs, ctxs: ctxs, pos: pos, bad: bad, und: und }, w))
  action observeAll(ws: List[int]): bool = become(ws.foldl({ regs: regs, ctxs: ctxs, pos: pos, bad: bad, und: und }, call))
}
