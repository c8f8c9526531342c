// What the specification takes for granted about itself, checked over whole small domains: rounding against a
// declarative definition (the set of representable values), roots and logarithms of integers, the grammar automaton
// against the grammar, the set of values a claim about digits covers, and the enclosures of constants and functions
// against a table computed by an independent program (mpmath, 400 bits).
module lemmas {
  import base.* from "./base"
  import num.* from "./num"
  import fixed.* from "./fixed"
  import fun.* from "./fun"
  import lib.* from "./lib"
  import radix.* from "./radix"

  pure val MODES: List[int] = [RUP, RDOWN, RZERO, RAWAY, REVEN, RODD]
  pure def every(n: int, f: (int) => bool): bool = range(0, n).foldl(true, (a, i) => a and f(i))
  // one name per depth: the evaluator does not support a call of an operator within a function passed to the same operator
  pure def everyOf(l: List[int], f: (int) => bool): bool = l.foldl(true, (a, x) => a and f(x))
  pure def everyOf1(l: List[int], f: (int) => bool): bool = l.foldl(true, (a, x) => a and f(x))
  pure def everyOf2(l: List[int], f: (int) => bool): bool = l.foldl(true, (a, x) => a and f(x))
  pure def everySign(l: List[int], f: (int) => bool): bool = l.foldl(true, (a, x) => a and f(x))
  pure def everyMode(f: (int) => bool): bool = MODES.foldl(true, (a, x) => a and f(x))

  // ---------------------------------------------------------------- integers
  pure def intOk(n: int): bool = and {
    bitlen(n) == (if (n == 0) 0 else range(0, 20).select(k => 2^k <= n).length()),
    n == 0 or (n % 2^tz(n) == 0 and (n / 2^tz(n)) % 2 == 1),
    isqrt(n) * isqrt(n) <= n, n < (isqrt(n) + 1) * (isqrt(n) + 1),
    icbrt(n)^3 <= n, n < (icbrt(n) + 1)^3,
  }
  pure def divOk(a: int, b: int): bool = and {
    fdiv(a, b) * b <= a, a < (fdiv(a, b) + 1) * b, cdiv(a, b) * b >= a, a > (cdiv(a, b) - 1) * b,
    a < 0 or gcd(a, b) == range(1, b + 1).foldl(1, (g, d) => if (a % d == 0 and b % d == 0) d else g),
  }
  run integersTest = all {
    assert(every(1200, intOk)),
    assert(everyOf([1, 2, 3, 7, 8, 12], b => every(81, i => divOk(i - 40, b)))),
    assert(everyOf([64, 65, 127, 128, 129, 500], k => and { bitlen(2^k) == k + 1, bitlen(2^k - 1) == k, tz(2^k) == k, isqrt(2^(2 * k)) == 2^k, isqrt(2^(2 * k) - 1) == 2^k - 1, icbrt(2^(3 * k) - 1) == 2^k - 1 })),
  }

  // ---------------------------------------------------------------- rounding
  // all magnitudes m * 2^k with exactly p bits, k in [-8, 8), scaled by 2^8: the whole format near one
  pure def grid(p: int): List[int] = range(0, 16).foldl([], (l, k) => l.concat(range(2^(p - 1), 2^p).foldl([], (h, m) => h.append(m * 2^k))))
  // value a/b * 2^x scaled by 2^8 is (a * 2^(x+8))/b
  pure def roundOk(g: List[int], p: int, a: int, b: int, x: int): bool = {
    val v = a * 2^(x + 8)
    val lo = g.foldl(0, (z, y) => if (y * b <= v and y > z) y else z)
    val hi = g.foldl(2^20, (z, y) => if (y * b >= v and y < z) y else z)
    val ulp = 2^(bitlen(lo) - p)
    val even = (lo / ulp) % 2 == 0
    val d = isgn((lo + hi) * b - 2 * v)        // nearer to lo, a tie, nearer to hi
    everySign([1, -1], s => everyMode(rm => {
      val want = if (lo * b == v) lo
                 else if (rm == RUP) (if (s > 0) hi else lo) else if (rm == RDOWN) (if (s > 0) lo else hi)
                 else if (rm == RZERO) lo else if (rm == RAWAY) hi
                 else if (d != 0) (if (d > 0) lo else hi)
                 else if (even == (rm == REVEN)) lo else hi
      val r = roundQ(s, a, b, x, p, rm)
      and { r.k == KFIN, r.s == s, r.p == p, bitlen(r.m) == p, cmpDy(r.m, lsb(r), want, -8) == 0, r.ix == (lo * b != v) }
    }))
  }
  run roundingTest = assert(everyOf([1, 2, 3, 4], p => { val g = grid(p)   everyOf1([1, 3, 5, 8], b => everyOf2([-2, 0], x => every(26, i => roundOk(g, p, i + 1, b, x)))) }))

  // at the lower end the unit in the last place stays 2^(EMIN - p); at the upper end infinity follows
  pure def lowOk(p: int, i: int): bool =       // i quarters of the unit
    everySign([1, -1], s => everyMode(rm => {
      val q = i / 4
      val up = if (i % 4 == 0) false else if (rm == RUP) s > 0 else if (rm == RDOWN) s < 0 else if (rm == RZERO) false else if (rm == RAWAY) true
               else if (i % 4 != 2) i % 4 == 3 else (q % 2 == 1) == (rm == REVEN)
      val r = roundDy(s, i, EMIN - p - 2, p, rm)
      val want = if (up) q + 1 else q
      and { r.k == KFIN, r.s == s, if (want == 0) r.m == 0 else cmpDy(r.m, lsb(r), want, EMIN - p) == 0, r.e >= EMIN or r.m == 0, r.ix == (i % 4 != 0) }
    }))
  pure def highOk(p: int, i: int): bool = {    // 2^EMAX minus i quarters of the unit
    val m = 2^(p + 2) - i
    everySign([1, -1], s => everyMode(rm => {
      val up = if (i == 0) true else if (rm == RUP) s > 0 and i < 4 else if (rm == RDOWN) s < 0 and i < 4 else if (rm == RZERO) false else if (rm == RAWAY) i < 4
               else if (i == 2) rm == REVEN else i < 2
      (roundDy(s, m, EMAX - p - 2, p, rm).k == KINF) == up
    }))
  }
  run endsTest = all {
    assert(everyOf([1, 2, 3], p => every(4 * 2^p, i => i == 0 or lowOk(p, i)))),
    assert(everyOf([2, 3, 5], p => every(7, i => highOk(p, i)))),
  }

  // ---------------------------------------------------------------- claims about digits
  // v has 6 bits; the true value lies strictly within 2^(e-s): an accepted claim covers every value of a fine lattice inside
  pure def claimOk(m: int, p: int, rm: int, s: int): bool = {
    val v = fin(1, m, 0, 6, true)
    val d = 2^(10 - s)
    val u = 2^(10 - p)
    def f(t) = { val q = t / u   if (incr(1, q, isgn(2 * (t % u) - u), t % u != 0, rm)) q + 1 else q }
    val same = range(m * 16 - d + 1, m * 16 + d).foldl(true, (a, t) => a and t > 0 and f(t) == f(m * 16))
    tryPSound(v, p, rm, s) implies same
  }
  pure def accepted(p: int, rm: int, s: int): int = range(32, 64).select(m => tryPSound(fin(1, m, 0, 6, true), p, rm, s)).length()
  run claimsTest = all {
    assert(everyOf([2, 3, 4, 5], p => everyOf1([6, 7, 8], s => everyMode(rm => every(32, i => claimOk(32 + i, p, rm, s)))))),
    // and claims with enough digits are accepted unless the value lies next to where the rounding changes
    assert(accepted(2, RZERO, 8) >= 28 and accepted(2, REVEN, 8) >= 28 and accepted(3, RUP, 8) >= 24),
  }

  // ---------------------------------------------------------------- the grammar
  pure def isNumberByGrammar(t: List[int], r: int): bool = {
    val n = t.length()
    def dg(c) = digitOf(lower(c)) < r
    def sg(c) = c == 43 or c == 45
    def digitsIn(i, j) = range(i, j).foldl(true, (a, k) => a and dg(t[k]))
    def count(i, j) = range(i, j).select(k => dg(t[k])).length()
    // some split: sign? digits* (. digits*)? (mark sign? digits*)?, with a digit before the mark
    [0, 1].select(i => i <= n and (i == 0 or sg(t[0]))).foldl(false, (ok, i) => ok or
      range(i, n + 1).foldl(false, (ok1, j) => ok1 or {
        digitsIn(i, j) and range(j, n + 1).foldl(false, (ok2, k) => ok2 or and {
          k == j or (t[j] == 46 and digitsIn(j + 1, k)),
          count(i, k) > 0,
          k == n or {
            val mk = if (r < 16) (if (lower(t[k]) == 101) 1 else 0) else if (t[k] == 95 and k + 1 < n and lower(t[k + 1]) == 101) 2 else 0
            val e = k + mk
            mk > 0 and (e == n or digitsIn(if (sg(t[e])) e + 1 else e, n))
          },
        })
      }))
  }
  // texts of up to 4 characters, numbered
  pure def textOf(i: int, al: List[int]): List[int] = {
    val b = al.length() + 1
    range(0, 4).foldl(([], i), (a, _) => (if (a._2 % b == 0) a._1 else a._1.append(al[a._2 % b - 1]), a._2 / b))._1
  }
  pure def textOk(t: List[int], r: int): bool = isNumText(t.foldl(scan0, (s, c) => step(s, c, r))) == isNumberByGrammar(t, r)
  run grammarTest = all {
    assert(every(7^4, i => textOk(textOf(i, [49, 50, 46, 45, 69, 43]), 10))),
    assert(every(7^4, i => textOk(textOf(i, [49, 50, 46, 45, 69, 43]), 2))),
    assert(every(7^4, i => textOk(textOf(i, [49, 70, 46, 45, 69, 95]), 16))),
  }

  // ---------------------------------------------------------------- enclosures
  // floor(constant * 2^300)
  pure val KPI: int = 0x3243f6a8885a308d313198a2e03707344a4093822299f31d0082efa98ec4e6c89452821e638d
  pure val KE: int = 0x2b7e151628aed2a6abf7158809cf4f3c762e7160f38b4da56a784d9045190cfef324e7738926
  pure val KLN2: int = 0xb17217f7d1cf79abc9e3b39803f2f6af40f343267298b62d8a0d175b8baafa2be7b876206de
  pure val KLN10: int = 0x24d763776aaa2b05ba95b58ae0b4c28a38a3fb3e76977e43a0f187a0807c0b5ca58bc0b5ec6a
  // [m - r, m + r] / 2^w meets [k, k + 1] / 2^300, and r is small
  pure def ballOk(f: F, w: int, k: int): bool =
    (f.m - f.r) * 2^300 <= (k + 1) * 2^w and (f.m + f.r) * 2^300 >= k * 2^w and f.r <= 2^12
  run constantsTest = assert(everyOf([40, 64, 100, 128, 200, 260], w => and { ballOk(cPi(w), w, KPI), ballOk(cE(w), w, KE), ballOk(cLn2(w), w, KLN2), ballOk(cLn10(w), w, KLN10) }))

  // (function, sign, m, x, sign of the result, t, k): |f(s * m * 2^x)| lies in [t, t + 1] * 2^k
  pure val TABLE: List[(int, int, int, int, int, int, int)] = [
    (30, 1, 7, -3, 1, 0x1330e587b62b279c221ff57b390a1d3f56650aeb522dca99251, -199),
    (30, -1, 7, -3, 1, 0x1aadde095dad4b40254edba8717fb0ad3c332b15ccb999eab52, -202),
    (30, 1, 13, -4, 1, 0x12073d3f1bd517ff911d3c30dac32e2ace62c90034879cd566e, -199),
    (30, -1, 13, -4, 1, 0x1c665b1e1f1e0d0419aff1ccb081cbe3d745ce199dd77adc4e1, -202),
    (30, 1, 1, -20, 1, 0x10000100000800002aaaab55555777777d27d28a28a2a42a42d, -200),
    (30, -1, 1, -20, 1, 0x1ffffe00000fffffaaaaabfffffbbbbbc71c71ad1ad1e11e118, -201),
    (30, 1, 9, -4, 1, 0x1c14b4312564464432aa513ba422005eb74c2ffc3e7e9ea8f25, -200),
    (30, -1, 9, -4, 1, 0x123ba930c1568affc93d97807bcb8ab3afcba3e2a70a91a7c28, -201),
    (30, 1, 5, -1, 1, 0x185d6fd931e0bb1d4dec34de849f94e7618e851cfbf44488738, -197),
    (30, -1, 5, -1, 1, 0x150385c094f424a75e4834abd70284000799197b545e80379db, -204),
    (33, 1, 7, -3, -1, 0x11178e8227e47bde338b41fc72de81e3bb51fd878496f146f7e, -203),
    (33, 1, 13, -4, -1, 0x1a93ed3c8ad9e36f2bea77a5c80dccdcee3115f1e9e8b73dcfd, -203),
    (33, 1, 1, -20, -1, 0x1bb9d3beb8c86b02d78b940fc09df68b6226027e01e7dc771d9, -197),
    (33, 1, 9, -4, -1, 0x1269621134db92783beb7676c0aa9c2a30f490dccb54379ab5a, -201),
    (33, 1, 5, -1, 1, 0x1d5240f0e0e077a082b27e2fc06cc768a10b25b35088cefbdf5, -201),
    (33, 1, 3001, -7, 1, 0x193cc3ee0a4785b2615077ad70c3286c24a9213cefc54b5f243, -199),
    (34, 1, 7, -3, -1, 0x18a8980abfbd32666a9b7e2df60d2bdc639cad5bff474c1aa21, -203),
    (34, 1, 13, -4, -1, 0x132bfee370ee6865a24978de359f2bb878c2df0b5bfe624e1a2, -202),
    (34, 1, 1, -20, -1, 0x13fffffffffffffffffffffffffffffffffffffffffffffffff, -196),
    (34, 1, 9, -4, -1, 0x1a8ff971810a5e1817fd3b7d7e5d148bb6c30657176993efe10, -201),
    (34, 1, 5, -1, 1, 0x15269e12f346e2bf924afdbfd36bf6d3365b157f8deceb53a46, -200),
    (34, 1, 3001, -7, 1, 0x12347502486dabafbf9a6605c591872677fde3ac1613481634a, -198),
    (35, 1, 7, -3, -1, 0x1db11ed766abf432dc3c1bb4167a6eb472e0f3fd56e847b365f, -205),
    (35, 1, 13, -4, -1, 0x1715d0ce367afbad9efc5566de13d20279ff11b056682ff3525, -204),
    (35, 1, 1, -20, -1, 0x18151824c7587eafd66d7602e1cb76bac60b0f9ed298ce037d9, -198),
    (35, 1, 9, -4, -1, 0x1ffbfc2bbc780375837c4b0b84f38a14a25616123cf60533a2a, -203),
    (35, 1, 5, -1, 1, 0x1977d95ec10c0219dc1da994fd20dba1f654b3ceaf0b832d9d6, -202),
    (35, 1, 3001, -7, 1, 0x15ebbfde0665e8f7a255d73a736d5d006c34d4452c9ff73e088, -200),
    (40, 1, 7, -3, 1, 0x188fb7640b8da1ad99e0fb8415738e2dad8245b61d22d9c66ed, -201),
    (40, -1, 7, -3, -1, 0x188fb7640b8da1ad99e0fb8415738e2dad8245b61d22d9c66ed, -201),
    (40, 1, 13, -4, 1, 0x173b7680dea577dbb6f9f247dabbde36da7a7164b3d51d5a9e0, -201),
    (40, -1, 13, -4, -1, 0x173b7680dea577dbb6f9f247dabbde36da7a7164b3d51d5a9e0, -201),
    (40, 1, 1, -20, 1, 0x1ffffffffffaaaaaaaaaaaeeeeeeeeeeed4ed4ed4ed4f3164dd, -221),
    (40, -1, 1, -20, -1, 0x1ffffffffffaaaaaaaaaaaeeeeeeeeeeed4ed4ed4ed4f3164dd, -221),
    (40, 1, 9, -4, 1, 0x1110d0c4b69c3b764626620266044a4e40182874b962cc6f96f, -201),
    (40, -1, 9, -4, -1, 0x1110d0c4b69c3b764626620266044a4e40182874b962cc6f96f, -201),
    (40, 1, 5, -1, 1, 0x1326af0dcfcab080af632fa7a69d5c960857d18f5452aabe559, -201),
    (40, -1, 5, -1, -1, 0x1326af0dcfcab080af632fa7a69d5c960857d18f5452aabe559, -201),
    (40, 1, 3001, -7, -1, 0x1fc858428af055e3a50db905a1f53b8b072e72feb608f809793, -201),
    (40, -1, 3001, -7, 1, 0x1fc858428af055e3a50db905a1f53b8b072e72feb608f809793, -201),
    (41, 1, 7, -3, 1, 0x14830bd7d4ceb377ddffc835511e35be022ea2157e61717640c, -201),
    (41, -1, 7, -3, 1, 0x14830bd7d4ceb377ddffc835511e35be022ea2157e61717640c, -201),
    (41, 1, 13, -4, 1, 0x16018526f563df51b2978390cb3f2e8cbb107f90a84d73df023, -201),
    (41, -1, 13, -4, 1, 0x16018526f563df51b2978390cb3f2e8cbb107f90a84d73df023, -201),
    (41, 1, 1, -20, 1, 0x1ffffffffff00000000001555555555549f49f49f49f7df7df7, -201),
    (41, -1, 1, -20, 1, 0x1ffffffffff00000000001555555555549f49f49f49f7df7df7, -201),
    (41, 1, 9, -4, 1, 0x1b11d04162a4c623baac3df78183534a6ebd64decba48d8ae89, -201),
    (41, -1, 9, -4, 1, 0x1b11d04162a4c623baac3df78183534a6ebd64decba48d8ae89, -201),
    (41, 1, 5, -1, -1, 0x19a2f7ef858b7d2b0f9f542fd2e528efe3e9a379f63b9082a39, -201),
    (41, -1, 5, -1, -1, 0x19a2f7ef858b7d2b0f9f542fd2e528efe3e9a379f63b9082a39, -201),
    (41, 1, 3001, -7, -1, 0x1dca4da93588d7b73e95a95342524b98743435c7667cbdc55e0, -204),
    (41, -1, 3001, -7, -1, 0x1dca4da93588d7b73e95a95342524b98743435c7667cbdc55e0, -204),
    (42, 1, 7, -3, 1, 0x1328a395115a5dbf6d324d8e4276a51372fc4ce4477d63410dc, -200),
    (42, -1, 7, -3, -1, 0x1328a395115a5dbf6d324d8e4276a51372fc4ce4477d63410dc, -200),
    (42, 1, 13, -4, 1, 0x10e442aa4c1e9fdc0de44da5bc0e5ea5a1303be81e5ee6635bc, -200),
    (42, -1, 13, -4, -1, 0x10e442aa4c1e9fdc0de44da5bc0e5ea5a1303be81e5ee6635bc, -200),
    (42, 1, 1, -20, 1, 0x100000000005555555555777777777785485485485a1e857690, -220),
    (42, -1, 1, -20, -1, 0x100000000005555555555777777777785485485485a1e857690, -220),
    (42, 1, 9, -4, 1, 0x142c8ba0e95379dcfd059170d52c85f6ba5f638bc20c1751759, -201),
    (42, -1, 9, -4, -1, 0x142c8ba0e95379dcfd059170d52c85f6ba5f638bc20c1751759, -201),
    (42, 1, 5, -1, -1, 0x17e79b4e00bb14ac9b488033a5beaa4ba758ebbf33a8a765ca3, -201),
    (42, -1, 5, -1, 1, 0x17e79b4e00bb14ac9b488033a5beaa4ba758ebbf33a8a765ca3, -201),
    (42, 1, 3001, -7, 1, 0x1111eff850d66ce7ca56d7e038841d1561276d568b9ed0d54d9, -197),
    (42, -1, 3001, -7, -1, 0x1111eff850d66ce7ca56d7e038841d1561276d568b9ed0d54d9, -197),
    (43, 1, 7, -3, 1, 0x110c066d3e6931b76a13df3a689971ba52360358d1dd5a71646, -200),
    (43, -1, 7, -3, -1, 0x110c066d3e6931b76a13df3a689971ba52360358d1dd5a71646, -200),
    (43, 1, 13, -4, 1, 0x1e5985567b665d0d827842d37fd9fcb690b859584110387735f, -201),
    (43, -1, 13, -4, -1, 0x1e5985567b665d0d827842d37fd9fcb690b859584110387735f, -201),
    (43, 1, 1, -20, 1, 0x100000000002aaaaaaaaabddddddddde94b94b94b9c80680680, -220),
    (43, -1, 1, -20, -1, 0x100000000002aaaaaaaaabddddddddde94b94b94b9c80680680, -220),
    (43, 1, 9, -4, 1, 0x131df40fbd31cd0221d79fa39853af83f92edf3d74c7387d27e, -201),
    (43, -1, 9, -4, -1, 0x131df40fbd31cd0221d79fa39853af83f92edf3d74c7387d27e, -201),
    (44, 1, 7, -3, 1, 0x102be9ce0b87cd1e5d09da2e0f0423bfa5d48cd07edf3e3a37b, -201),
    (44, -1, 7, -3, 1, 0x151700e0c14b24ff015655c5ec5a7aaa3bab268cf19529fff25, -199),
    (44, 1, 13, -4, 1, 0x13ea71520cf3d37faeb955cf605d0a7db9883a29e189baa5ca8, -201),
    (44, -1, 13, -4, 1, 0x14275effc0f02366acea76dd980440fab6be3b3698ea8ae50d9, -199),
    (44, 1, 1, -20, 1, 0x1921fa54442d18466dee21a6c55da5bc474260757c93adf1ffd, -200),
    (44, -1, 1, -20, 1, 0x1921fc54442d1846c34376fc1ad9617802fe330ca606452b00a, -200),
    (44, 1, 9, -4, 1, 0x1f260298cb28638b0f59f8ff47e357b05111b444add2ba9fd89, -201),
    (44, -1, 9, -4, 1, 0x11587aae1162ff63d4c24e119e22adae10dbdcafe5d84ae68a1, -199),
    (45, 1, 7, -3, 1, 0x1700a7c5784633ce7965b4aa42148887a7af5d982298f350140, -201),
    (45, -1, 7, -3, -1, 0x1700a7c5784633ce7965b4aa42148887a7af5d982298f350140, -201),
    (45, 1, 13, -4, 1, 0x15d58987169b1810028e4bc5e7ca40e1406e8568c87dffc4c08, -201),
    (45, -1, 13, -4, -1, 0x15d58987169b1810028e4bc5e7ca40e1406e8568c87dffc4c08, -201),
    (45, 1, 1, -20, 1, 0x1ffffffffff5555555555bbbbbbbbbb72972972976256256255, -221),
    (45, -1, 1, -20, -1, 0x1ffffffffff5555555555bbbbbbbbbb72972972976256256255, -221),
    (45, 1, 9, -4, 1, 0x10657e94db30cfc5496d41396c34a2b81e22ab9b0ee9bbf78ab, -201),
    (45, -1, 9, -4, -1, 0x10657e94db30cfc5496d41396c34a2b81e22ab9b0ee9bbf78ab, -201),
    (45, 1, 5, -1, 1, 0x130b6d796a4da8589532c0eec663e4c1d8355a4c4d60a680146, -200),
    (45, -1, 5, -1, -1, 0x130b6d796a4da8589532c0eec663e4c1d8355a4c4d60a680146, -200),
    (45, 1, 3001, -7, 1, 0x187362161b003b4d3ed793e66e22ca7f1018d45e8aa68072924, -200),
    (45, -1, 3001, -7, -1, 0x187362161b003b4d3ed793e66e22ca7f1018d45e8aa68072924, -200),
    (50, 1, 7, -3, 1, 0x1fb6538d14eafc683aec340c55b44e535dbd4b11312d2eb79cd, -201),
    (50, -1, 7, -3, -1, 0x1fb6538d14eafc683aec340c55b44e535dbd4b11312d2eb79cd, -201),
    (50, 1, 13, -4, 1, 0x1cf4e3b6afe2acbe1bce7bee8965e95ca6f41e7a01995af3ba5, -201),
    (50, -1, 13, -4, -1, 0x1cf4e3b6afe2acbe1bce7bee8965e95ca6f41e7a01995af3ba5, -201),
    (50, 1, 1, -20, 1, 0x100000000002aaaaaaaaaacccccccccccd9cd9cd9cd9d080964, -220),
    (50, -1, 1, -20, -1, 0x100000000002aaaaaaaaaacccccccccccd9cd9cd9cd9d080964, -220),
    (50, 1, 9, -4, 1, 0x12f6df98c4b900c44e0b857b663c3b04df665e0aeaf955d5111, -201),
    (50, -1, 9, -4, -1, 0x12f6df98c4b900c44e0b857b663c3b04df665e0aeaf955d5111, -201),
    (50, 1, 5, -1, 1, 0x183368cdb0b6d2d3ff2fa4752cf18fdf617f52ea054b8788044, -198),
    (50, -1, 5, -1, -1, 0x183368cdb0b6d2d3ff2fa4752cf18fdf617f52ea054b8788044, -198),
    (51, 1, 7, -3, 1, 0x1686a148e1e0d10426c9d0f0473a1354fdeb704e0bc4fdd67bb, -200),
    (51, -1, 7, -3, 1, 0x1686a148e1e0d10426c9d0f0473a1354fdeb704e0bc4fdd67bb, -200),
    (51, 1, 13, -4, 1, 0x159408a2dfb8d9a014533a6a70d367a7494b82c368428c30f0a, -200),
    (51, -1, 13, -4, 1, 0x159408a2dfb8d9a014533a6a70d367a7494b82c368428c30f0a, -200),
    (51, 1, 1, -20, 1, 0x1000000000080000000000aaaaaaaaaab05b05b05b05ca5ca5c, -200),
    (51, -1, 1, -20, 1, 0x1000000000080000000000aaaaaaaaaab05b05b05b05ca5ca5c, -200),
    (51, 1, 9, -4, 1, 0x12994464c307c5e20ba48e7df103e2dc479900f6c901f3be69c, -200),
    (51, -1, 9, -4, 1, 0x12994464c307c5e20ba48e7df103e2dc479900f6c901f3be69c, -200),
    (51, 1, 5, -1, 1, 0x188776e4b30aa3669ca8c547dc4d99ef619db74ff29d0188e2b, -198),
    (51, -1, 5, -1, 1, 0x188776e4b30aa3669ca8c547dc4d99ef619db74ff29d0188e2b, -198),
    (52, 1, 7, -3, 1, 0x1686650b8c201519fa72eaddbf643677e4c98b1ed0d9650c05a, -201),
    (52, -1, 7, -3, -1, 0x1686650b8c201519fa72eaddbf643677e4c98b1ed0d9650c05a, -201),
    (52, 1, 13, -4, 1, 0x15788ff10d29986e918bb3a4547089b6e52d0aee5c0a1ef33c5, -201),
    (52, -1, 13, -4, -1, 0x15788ff10d29986e918bb3a4547089b6e52d0aee5c0a1ef33c5, -201),
    (52, 1, 1, -20, 1, 0x1ffffffffff555555555599999999997df7df7df7eab0722393, -221),
    (52, -1, 1, -20, -1, 0x1ffffffffff555555555599999999997df7df7df7eab0722393, -221),
    (52, 1, 9, -4, 1, 0x105086f2f6d4b69d7d609be066b1893a2e0b615ff86ef441d56, -201),
    (52, -1, 9, -4, -1, 0x105086f2f6d4b69d7d609be066b1893a2e0b615ff86ef441d56, -201),
    (52, 1, 5, -1, 1, 0x1f9258260a71c1c7707e3c976e2d40044f09ea1409f4e6cdf2d, -201),
    (52, -1, 5, -1, -1, 0x1f9258260a71c1c7707e3c976e2d40044f09ea1409f4e6cdf2d, -201),
    (53, 1, 7, -3, 1, 0x19490fec3efbe5988497c1478565aa446b819b0dcd002b9c9c5, -201),
    (53, -1, 7, -3, -1, 0x19490fec3efbe5988497c1478565aa446b819b0dcd002b9c9c5, -201),
    (53, 1, 13, -4, 1, 0x17c1bc5ab36ca92ea0d4d066bf07d9a8158d6e3be81b365e6a1, -201),
    (53, -1, 13, -4, -1, 0x17c1bc5ab36ca92ea0d4d066bf07d9a8158d6e3be81b365e6a1, -201),
    (53, 1, 1, -20, 1, 0x1ffffffffffaaaaaaaaaad111111110fa35a35a35b2e86e86e8, -221),
    (53, -1, 1, -20, -1, 0x1ffffffffffaaaaaaaaaad111111110fa35a35a35b2e86e86e8, -221),
    (53, 1, 9, -4, 1, 0x112a39173e694d0b64e1585d896521ecb1bba55030b69d5399f, -201),
    (53, -1, 9, -4, -1, 0x112a39173e694d0b64e1585d896521ecb1bba55030b69d5399f, -201),
    (53, 1, 5, -1, 1, 0x1a5b0f0be9dcf598c5166f418f4ecd3751ceacb96608025cab9, -200),
    (53, -1, 5, -1, -1, 0x1a5b0f0be9dcf598c5166f418f4ecd3751ceacb96608025cab9, -200),
    (53, 1, 3001, -7, 1, 0x1ec942f77589ae5957c7399f48c0da226b654e20de3315fce08, -199),
    (53, -1, 3001, -7, -1, 0x1ec942f77589ae5957c7399f48c0da226b654e20de3315fce08, -199),
    (54, 1, 5, -1, 1, 0x19119c13a31baffe46835ab2266588de96a58b96c634a13c3c5, -200),
    (54, 1, 3001, -7, 1, 0x1ec76610d227548b58c38f217fc7d28dd7229303718c6aad3af, -199),
    (55, 1, 7, -3, 1, 0x15aa16394d481f01341c89935864a575503b059cd575fddfe61, -200),
    (55, -1, 7, -3, -1, 0x15aa16394d481f01341c89935864a575503b059cd575fddfe61, -200),
    (55, 1, 13, -4, 1, 0x1226438e777c9971b17fd285b20af260fa8946e79c9ce02ab95, -200),
    (55, -1, 13, -4, -1, 0x1226438e777c9971b17fd285b20af260fa8946e79c9ce02ab95, -200),
    (55, 1, 1, -20, 1, 0x1000000000055555555558888888888ad1ad1ad1aee1ee1ee1e, -220),
    (55, -1, 1, -20, -1, 0x1000000000055555555558888888888ad1ad1ad1aee1ee1ee1e, -220),
    (55, 1, 9, -4, 1, 0x145e1141a8c00f818c85ab35ce89683a24663131d9f221c1e5b, -201),
    (55, -1, 9, -4, -1, 0x145e1141a8c00f818c85ab35ce89683a24663131d9f221c1e5b, -201)
  ]
  pure def rowOk(t: (int, int, int, int, int, int, int), W: int): bool = {
    val r = fnOf(t._1, { s: t._2, m: t._3, x: t._4 }, W)
    r.s == t._5 and
    if (r.k == REXACT) cmpDy(r.lo, r.x, r.hi * t._6, t._7) >= 0 and cmpDy(r.lo, r.x, r.hi * (t._6 + 1), t._7) <= 0
    else and {
      r.k == ROPEN,
      cmpDy(r.lo, r.x, t._6 + 1, t._7) <= 0, cmpDy(r.hi, r.x, t._6, t._7) >= 0,
      bitlen(r.hi - r.lo) + W - 16 <= bitlen(r.lo)
    }
  }
  pure def tableOk(W: int): bool = TABLE.foldl(true, (a, t) => a and rowOk(t, W))
  run functionsTest = assert(tableOk(90) and tableOk(160))
}
