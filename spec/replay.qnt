// The library as a state machine over a register file, driven by an observed trace.
module replay {
  import base.* from "./base"
  import num.* from "./num"
  import fun.* from "./fun"
  import lib.* from "./lib"
  import order.* from "./order"
  import conv.* from "./conv"
  import radix.* from "./radix"
  import events.* from "./events"

  // ------------------------------------------------------------------ transitions
  pure def propOf(op: int): int =
    if (op < 10) 1 else if (op < 20) 2 else if (op < 30) 3 else if (op < 40) 4 else if (op < 50) 5
    else if (op < 60) 6 else if (op < 70) 7 else if (op < 80) 11 else if (op < 90) 12 else 14

  pure val OHELP: int = 119     // a call made by the driver to find an input, reported only when it does not return

  pure def special(a: Num): bool = a.k != KFIN or a.m == 0

  // what the specification allows as the result of a call
  pure def allowed(regs: int -> Num, ev: Ev): Exp = {
    val a = regs.get(ev.a)
    val b = regs.get(ev.b)
    val op = ev.op
    if (op == OADD) expAdd(a, b, false, ev.p, ev.rm)
    else if (op == OSUB) expAdd(a, b, true, ev.p, ev.rm)
    else if (op == OMUL) expMul(a, b, ev.p, ev.rm)
    else if (op == ODIV) expDiv(a, b, ev.p, ev.rm)
    else if (op == ORECIP) expRecip(a, ev.p, ev.rm)
    else if (op == OSQRT) expSqrt(a, ev.p, ev.rm)
    else if (op == OCBRT) expCbrt(a, ev.p, ev.rm)
    else if (op == OADDF) expAddF(a, b, false)
    else if (op == OSUBF) expAddF(a, b, true)
    else if (op == OMULF) expMulF(a, b)
    else if (op == OREM) expRem(a, b)
    else if (op == ONEG) eNum(if (isNan(a)) a else a.with("s", -a.s))
    else if (op == OABS) eNum(if (isNan(a)) a else a.with("s", 1))
    else if (op == OINT) expInt(a, 0)
    else if (op == OFRACT) expInt(a, 1)
    else if (op == OFLOOR) expInt(a, 2)
    else if (op == OCEIL) expInt(a, 3)
    else if (op == OPOW) expPow(a, b, ev.p, ev.rm)
    else if (op == OPOWI) expPowi(a, ev.y, ev.p, ev.rm)
    else if (op == OLOG) expLog(a, b, ev.p, ev.rm)
    else if (30 <= op and op < 60) expFn(op, a, ev.p, ev.rm)
    else if (60 <= op and op < 64) expConst(op, ev.p, ev.rm)
    else eAny
  }
  pure def binary(op: int): bool = op == OADD or op == OSUB or op == OMUL or op == ODIV or op == OADDF or op == OSUBF
    or op == OMULF or op == OREM or op == OPOW or op == OLOG

  // where two answers are right, the one observed
  pure def lenient(x: Exp, a: Num, b: Num, ev: Ev): Exp =
    // x^0 = 1 whatever x is, 1^y = 1 whatever y is: an inexact operand may or may not be reported
    if (ev.op == OPOW and x.t == TNUM and x.v.k == KFIN and (isZero(b) or (isFin(a) and a.m != 0 and cmpOne(a) == 0)) and (a.ix or b.ix)) eNum(x.v.with("ix", ev.r.ix))
    // likewise 0^y = 0 for every positive y
    else if (ev.op == OPOW and x.t == TNUM and isZero(x.v) and isZero(a) and b.ix) eNum(x.v.with("ix", ev.r.ix))
    // the logarithm of one is a zero of either sign
    else if (ev.op == OLOG and x.t == TNUM and isZero(x.v) and isZero(ev.r)) eNum(x.v.with("s", ev.r.s))
    else x
  pure def judge(regs: int -> Num, ev: Ev): List[int] = {
    val a = regs.get(ev.a)
    val b = regs.get(ev.b)
    val c = regs.get(ev.c)
    if (ev.op == OHELP) [18001]
    // a legal precision beyond memory: anything but a finite number must say so
    else if (huge(ev.p))
      (if (stopped(ev, 18000).length() > 0) [18001] else if (noMem(ev) or ev.r.k == KNAN or ev.r.k == KINF) [] else if (ev.r.k == KFIN and ev.r.m == 0) [] else [18002])
    else if (70 <= ev.op and ev.op < 80) judgeOrder(a, b, c, ev)
    else if (ev.op == ODESERNUM) judgeConv(a, ev)
    else if (80 <= ev.op and ev.op < 90) judgeRadix(a, ev)
    else if ((90 <= ev.op and ev.op < 94) or (95 <= ev.op and ev.op < 98) or (99 <= ev.op and ev.op < 102) or ev.op == ORANDOM) judgeConv(a, ev)
    else if (ev.op == OLOADRAW) verdict(14, ev, eNum(loadRaw(ev)), false)
    else if (ev.op == OSETP) judgeSetP(a, ev)
    else if (ev.op == OTRYP) judgeTryP(a, ev)
    else if (ev.op == OROUND) judgeRound(a, ev)
    else if (ev.op == OSPECIAL) (if (sameRep(ev.r, specialOf(ev.c))) [] else [9002])
    else if (ev.op == OPOW and knownPowInf(a, b, ev.r)) [9500]
    else verdict(propOf(ev.op), ev, lenient(allowed(regs, ev), a, b, ev), special(a) or (binary(ev.op) and special(b)))
  }

  // ------------------------------------------------------------------ the machine
  // slot -> the last call made under it: the same call must give the same result
  type Memo = { ev: Ev, a: Num, b: Num, c: Num }
  pure def sameNum(a: Num, b: Num): bool = sameRep(a, b) and a.ix == b.ix and a.n == b.n
  pure def inputY(op: int): bool = op == OROUND or op == OPOWI or (90 <= op and op < 100)
  pure def inputZ(op: int): bool = op == OPARSE or op == OFROMRADIX or op == OFROMSTR or op == ODESER or (90 <= op and op < 100)
  pure def sameCall(m: Memo, ev: Ev, a: Num, b: Num, c: Num): bool = and {
    m.ev.op == ev.op, m.ev.rm == ev.rm, m.ev.p == ev.p, m.ev.x == ev.x, m.ev.neg == ev.neg,
    m.ev.a == 255 or ev.a != 255, m.ev.b == 255 or ev.b != 255,
    ev.op == OCLAMP or m.ev.c == ev.c,
    inputY(ev.op) implies m.ev.y == ev.y, inputZ(ev.op) implies m.ev.z == ev.z,
    sameNum(m.a, a), sameNum(m.b, b), ev.op == OCLAMP implies sameNum(m.c, c)
  }
  pure def isMemo(mem: int -> Memo, ev: Ev, a: Num, b: Num, c: Num): bool =
    ev.sl != 0 and mem.keys().contains(ev.sl) and sameCall(mem.get(ev.sl), ev, a, b, c)
  pure def sameResult(m: Memo, ev: Ev): bool =
    sameNum(m.ev.r, ev.r) and (inputY(ev.op) or m.ev.y == ev.y) and (inputZ(ev.op) or m.ev.z == ev.z)
  pure def stop(ev: Ev): bool = ev.r.k == KPANIC or ev.r.k == KABORT or ev.r.k == KHANG
  // a call with a failed allocation may say so; any other difference contradicts the earlier call
  pure def judgeMemo(m: Memo, ev: Ev): List[int] =
    if (stop(ev)) []
    else if (ev.fault and (ev.r.k == KNAN or ev.r.k == KERR) and ev.r.e == EMEM) []
    else if (sameResult(m, ev)) []
    else if (ev.sl >= 100) [8004, 17004] else [8004]
  pure def remembered(mem: int -> Memo, ev: Ev, a: Num, b: Num, c: Num): int -> Memo =
    if (ev.sl == 0 or ev.fault or stop(ev) or isMemo(mem, ev, a, b, c)) mem
    else mem.put(ev.sl, { ev: ev, a: a, b: b, c: c })

  // Verdict in context: a call already judged under its slot needs only to agree with itself; what goes
  // wrong while memory fails or after it failed also speaks against C17, and what goes wrong in the middle
  // of a history of requests to one constants cache (slot 50) also against C07; a precision or an exponent
  // out of all proportion also against C18.
  pure def verdictOf(regs: int -> Num, mem: int -> Memo, ev: Ev): List[int] = {
    val a = regs.get(ev.a)
    val b = regs.get(ev.b)
    val c = regs.get(ev.c)
    if (isMemo(mem, ev, a, b, c) and sameResult(mem.get(ev.sl), ev) and not(ev.mut)) []
    else {
      val t = judge(regs, ev).concat(if (isMemo(mem, ev, a, b, c)) judgeMemo(mem.get(ev.sl), ev) else [])
      val real = t.select(x => x != 99000 and x % 1000 < 500)
      if (real.length() == 0) t
      else t.concat(tagIf(ev.fault or ev.sl >= 100, 17004)).concat(tagIf(ev.sl == 50, 7004))
            .concat(tagIf(ev.p >= PLIM and ev.p != PAUTO, 18002)).concat(tagIf(ev.sl == 60, 18004))
    }
  }
  type State = { regs: int -> Num, memo: int -> Memo, pos: int, bad: int, und: int }
  pure def call(st: State, w: int): State = {
    val ev = decode(w)
    val tags = verdictOf(st.regs, st.memo, ev)
    { memo: remembered(st.memo, ev, st.regs.get(ev.a), st.regs.get(ev.b), st.regs.get(ev.c)),
      regs: if (ev.r.k <= KNAN) st.regs.put(ev.dst, ev.r) else st.regs,
      pos: st.pos + 1,
      bad: st.bad + report(st.pos, tags),
      und: if (tags.select(t => t == 99000).length() > 0) st.und + 1 else st.und }
  }
  pure val fresh: State = { regs: range(0, 256).foldl(Map(), (r, i) => r.put(i, nan(ENONE))), memo: Map(), pos: 0, bad: 0, und: 0 }

  var regs: int -> Num
  var memo: int -> Memo
  var pos: int
  var bad: int
  var und: int
  action become(st: State): bool = all { regs' = st.regs, memo' = st.memo, pos' = st.pos, bad' = st.bad, und' = st.und }
  action start = become(fresh)
  // one call, and a sequence of calls
  action observe(w: int): bool = become(call({ regs: regs, memo: memo, pos: pos, bad: bad, und: und }, w))
  action observeAll(ws: List[int]): bool = become(ws.foldl({ regs: regs, memo: memo, pos: pos, bad: bad, und: und }, call))
}
