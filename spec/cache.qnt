// The cache of a constant as the library keeps it (pi, e, ln 2, ln 10 alike): parts of a series for terms [0, b), the
// value of those terms, requests that extend them by doubling, rounding that may refuse for lack of digits, and memory
// that may run out at every allocation. What is abstract: the numbers themselves; a part or a value is the count of
// terms it was computed from. Checked on it: the parts and the value always belong together between calls, whatever
// failed before; a value is returned only if it was computed from enough terms for the working precision; a request
// with memory available ends.
module cache {
  const EARLY: bool       // a defect on purpose: the count of terms is stored before the parts (must break the invariant)
  pure val KMAX: int = 5          // requests need up to this many terms at first
  pure val REFUSE: int = 3        // rounding refuses at most so many times in one request
  pure val BMAX: int = 16         // and not any more when the cache is this large (keeps the model finite)

  type Pc = Idle | Look | Copy | PartP | PartQ | Value | Store
  type Ret = NoRet | Got(int) | Failed
  var pc: Pc
  var b: int
  var pk: int
  var qk: int
  var value: int
  var need: int          // terms needed at the working precision; grows when rounding refuses
  var first: int         // terms needed at the requested precision
  var refused: int
  var nb: int            // locals of the request
  var np: int
  var nq: int
  var nv: int
  var last: Ret
  var lost: bool         // memory ran out in this request

  action keep = all { b' = b, pk' = pk, qk' = qk, value' = value }
  action locals = all { nb' = nb, np' = np, nq' = nq, nv' = nv }
  action want = all { need' = need, first' = first, refused' = refused }
  action giveUp = all { keep, want, locals, pc' = Idle, last' = Failed, lost' = true }

  action init = all { pc' = Idle, b' = 1, pk' = 1, qk' = 1, value' = 1, need' = 0, first' = 0, refused' = 0, nb' = 0, np' = 0, nq' = 0, nv' = 0, last' = NoRet, lost' = false }
  action request = all {
    pc == Idle,
    nondet k = 1.to(KMAX).oneOf()
    all { need' = k, first' = k, refused' = 0, keep, locals, pc' = Look, last' = NoRet, lost' = false },
  }
  // enough terms: a copy is rounded; otherwise the series is extended
  action look = all { pc == Look, keep, want, locals, last' = last, lost' = lost, pc' = if (b > need) Copy else PartP }
  action copy = all {
    pc == Copy,
    any {
      giveUp,
      all { keep, want, locals, pc' = Idle, last' = Got(value), lost' = lost },
      all { refused < REFUSE, b <= BMAX, keep, locals, need' = need + 1, first' = first, refused' = refused + 1, pc' = PartP, last' = last, lost' = lost },
    }
  }
  // the parts for twice as many terms, allocated one after another, repeated until they suffice
  action partP = all {
    pc == PartP,
    any { giveUp, all { keep, want, nb' = 2 * (if (nb > b) nb else b), np' = 2 * (if (nb > b) np else pk), nq' = if (nb > b) nq else qk, nv' = nv, pc' = PartQ, last' = last, lost' = lost } }
  }
  action partQ = all {
    pc == PartQ,
    any {
      giveUp,
      all { if (EARLY) all { b' = nb, pk' = pk, qk' = qk, value' = value } else keep,
            want, nb' = nb, np' = np, nq' = 2 * nq, nv' = nv, pc' = if (nb <= need) PartP else Value, last' = last, lost' = lost },
    }
  }
  action compute = all { pc == Value, any { giveUp, all { keep, want, nb' = nb, np' = np, nq' = nq, nv' = if (np < nq) np else nq, pc' = Store, last' = last, lost' = lost } } }
  action store = all { pc == Store, value' = nv, pk' = np, qk' = nq, b' = nb, want, nb' = 0, np' = 0, nq' = 0, nv' = 0, pc' = Look, last' = last, lost' = lost }
  // locals of an abandoned request are gone
  action idle = all { pc == Idle, last == Failed, nb != 0, keep, want, nb' = 0, np' = 0, nq' = 0, nv' = 0, pc' = Idle, last' = last, lost' = lost }
  action step = any { all { nb == 0, request }, look, copy, partP, partQ, compute, store, idle }

  val coherent: bool = pc == Idle implies and { pk == b, qk == b, value == b }
  val enough: bool = match last { | Got(v) => and { v == value, v > need, need >= first } | _ => true }
  val bounded: bool = and { need <= KMAX + REFUSE, b <= 2 * BMAX, nb <= 2 * BMAX }
  val okFailed: bool = last == Failed implies lost
  // what every step keeps, whatever came before (checked as an inductive invariant)
  val ind: bool = and {
    pc.in(Set(Idle, Look, Copy, PartP, PartQ, Value, Store)),
    b.in(1.to(2 * BMAX)), pk.in(1.to(2 * BMAX)), qk.in(1.to(2 * BMAX)), value.in(1.to(2 * BMAX)),
    need.in(0.to(KMAX + REFUSE)), first.in(0.to(KMAX)), refused.in(0.to(REFUSE)),
    nb.in(0.to(2 * BMAX)), np.in(0.to(2 * BMAX)), nq.in(0.to(2 * BMAX)), nv.in(0.to(2 * BMAX)),
    last.in(1.to(2 * BMAX).map(v => Got(v)).union(Set(NoRet, Failed))), lost.in(Set(true, false)),
    pk == b, qk == b, value == b,
    need == first + refused,
    pc == PartP implies nb == 0 or and { nb > b, np == nb, nq == nb, nb <= need },
    pc == PartP implies b <= BMAX,
    pc == PartQ implies and { nb > b, np == nb, 2 * nq == nb, or { nb == 2 * b, nb <= 2 * need } },
    pc == PartQ implies b <= BMAX,
    pc == Value implies and { nb > b, np == nb, nq == nb, nb > need },
    pc == Store implies and { nb > b, np == nb, nq == nb, nv == nb, nb > need },
    pc == Copy implies and { b > need, nb == 0 },
    pc == Look implies nb == 0,
    okFailed, enough, pc != Idle implies last == NoRet,
  }
  val inv: bool = and { coherent, enough, bounded, okFailed }
}
module cacheOk { import cache(EARLY = false).* }
module cacheBad { import cache(EARLY = true).* }
