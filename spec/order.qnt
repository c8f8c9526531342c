// The order of the numbers, and everything that must agree with it.
module order {
  import base.* from "./base"
  import num.* from "./num"
  import fun.* from "./fun"
  import lib.* from "./lib"

  pure val OCMP: int = 70
  pure val OABSCMP: int = 71
  pure val OMAX: int = 72
  pure val OMIN: int = 73
  pure val OCLAMP: int = 74
  pure val OSIGNUM: int = 75
  pure val OPRED: int = 76
  pure val OOPS: int = 77

  // position in the order: -Inf < finite < +Inf; 9 = unordered
  pure def rank(a: Num): int = if (isInf(a)) a.s else 0
  pure def cmp3(a: Num, b: Num): int =
    if (isNan(a) or isNan(b)) 9
    else if (isInf(a) or isInf(b)) isgn(rank(a) - rank(b))
    else cmpNum(a, b)
  pure def cmp3Abs(a: Num, b: Num): int =
    if (isNan(a) or isNan(b)) 9 else cmp3(a.with("s", 1), b.with("s", 1))

  pure def bit(c: bool, i: int): int = if (c) 2^i else 0
  // lt le gt ge eq ne, then partial_cmp (0 less, 1 equal, 2 greater, 3 none) from bit 6
  pure def opsMask(c: int): int =
    bit(c == -1, 0) + bit(c == -1 or c == 0, 1) + bit(c == 1, 2) + bit(c == 1 or c == 0, 3) + bit(c == 0, 4) + bit(c != 0, 5)
      + 64 * (if (c == 9) 3 else c + 1)
  pure def isIntNum(a: Num): bool = a.k == KFIN and isInt(a)
  pure def predMask(a: Num): int =
    bit(isZero(a), 0) + bit(isIntNum(a), 1) + bit(a.k == KFIN and bitlen(a.m) < a.p, 2)      // documented: the top bit is not set, zero included
     
      + bit(not(isNan(a)) and a.s > 0, 3) + bit(not(isNan(a)) and a.s < 0, 4)
      + bit(isInf(a), 5) + bit(isInf(a) and a.s > 0, 6) + bit(isInf(a) and a.s < 0, 7) + bit(isNan(a), 8)
      + bit(isFin(a) and a.ix, 9)
      + 1024 * (if (isNan(a)) 0 else if (isInf(a)) 1 else if (isZero(a)) 2 else if (isSub(a)) 3 else 4)
      + 8192 * (if (isNan(a)) 0 else if (a.s > 0) 1 else 2)

  pure def same(a: Num, b: Num): bool = sameRep(a, b) and (a.k != KFIN or a.ix == b.ix)
  // the result must be one of the operands that has the right value
  pure def pick(r: Num, cands: List[Num]): List[int] =
    if (cands.foldl(false, (f, c) => f or same(r, c))) [] else [11004]

  pure def stopped(ev: Ev, P: int): List[int] =
    if (ev.r.k == KPANIC or ev.r.k == KABORT or ev.r.k == KHANG) [P + 1, 18001].concat(tagIf(ev.fault, 17001)) else []
  pure def judgeInt(ev: Ev, P: int, v: int): List[int] =
    if (stopped(ev, P).length() > 0) stopped(ev, P)
    else if (ev.r.k != KINT) [P + 2]
    else tagIf(ev.r.e != v, P + 4).concat(tagIf(ev.mut, 8009)).concat(tagIf(ev.mut, P + 9))

  pure def judgeOrder(a: Num, b: Num, c: Num, ev: Ev): List[int] =
    if (ev.op == OCMP) judgeInt(ev, 11000, cmp3(a, b)).concat(tagIf((a.k != KFIN or b.k != KFIN) and ev.r.e != cmp3(a, b), 9004))
    else if (ev.op == OABSCMP) judgeInt(ev, 11000, cmp3Abs(a, b))
    else if (ev.op == OOPS) judgeInt(ev, 11000, opsMask(cmp3(a, b)))
    else if (ev.op == OPRED) judgeInt(ev, 11000, predMask(a)).concat(tagIf(a.k == KFIN and ev.r.e != predMask(a), 16004))
    else if (stopped(ev, 11000).length() > 0) stopped(ev, 11000)
    else if (noMem(ev)) []
    else tagIf(ev.mut, 8009).concat(tagIf(not(wellFormed(ev.r)), 16006)).concat(
      if (ev.op == OSIGNUM) {
        if (isNan(a)) (if (isNan(ev.r)) [] else [11002, 9002])
        // a zero has a sign but no direction: either answer is accepted
        else if (isZero(a) and isZero(ev.r)) []
        else tagIf(not(ev.r.k == KFIN and ev.r.s == a.s and cmpDy(ev.r.m, lsb(ev.r), 1, 0) == 0 and not(ev.r.ix)), 11004)
      }
      else if (isNan(a) or isNan(b) or (ev.op == OCLAMP and isNan(c))) (if (isNan(ev.r)) [] else [11002, 9002])
      else {
        val o = cmp3(a, b)
        if (ev.op == OMAX) pick(ev.r, if (o > 0) [a] else if (o < 0) [b] else [a, b])
        else if (ev.op == OMIN) pick(ev.r, if (o < 0) [a] else if (o > 0) [b] else [a, b])
        else if (cmp3(b, c) > 0) (if (isNan(ev.r)) [] else [11002])
        else {
          val lo = o
          val hi = cmp3(a, c)
          pick(ev.r, if (lo < 0) [b] else if (hi > 0) [c] else if (lo == 0 and hi == 0) [a, b, c] else if (lo == 0) [a, b] else if (hi == 0) [a, c] else [a])
        }
      })
}
