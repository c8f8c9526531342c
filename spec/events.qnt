// The form in which observed calls reach the specification: one number per call.
module events {
  import base.* from "./base"
  import num.* from "./num"
  import fun.* from "./fun"
  import lib.* from "./lib"

  pure def u8(h: int, i: int): int = h / 2^(8 * i) % 256
  pure def u64(h: int, i: int): int = h / 2^(8 * i) % 2^64
  pure def decode(w: int): Ev = {
    val h = w % 2^448
    val b1 = w / 2^448
    val l1 = b1 % 2^24
    val m = b1 / 2^24 % 2^(8 * l1)
    val b2 = b1 / 2^(24 + 8 * l1)
    val l2 = b2 % 2^24
    val y = b2 / 2^24 % 2^(8 * l2)
    val b3 = b2 / 2^(24 + 8 * l2)
    val l3 = b3 % 2^24
    val z = b3 / 2^24 % 2^(8 * l3)
    val f = u8(h, 7)
    val k = u8(h, 6)
    val s = if (f % 2 == 1) -1 else 1
    val r = { k: k, s: if (k == KNAN) 0 else s, m: m, e: u64(h, 24) - 2^63, p: u64(h, 32), n: u64(h, 40), ix: f / 2 % 2 == 1 }
    { op: u8(h, 0), rm: u8(h, 1), dst: u8(h, 2), a: u8(h, 3), b: u8(h, 4), c: u8(h, 5), sl: u8(h, 8),
      p: u64(h, 16), x: u64(h, 48) - 2^63, y: y, z: z,
      neg: f / 16 % 2 == 1, ixin: f / 32 % 2 == 1, mut: f / 4 % 2 == 1, fault: f / 8 % 2 == 1, r: r }
  }

  // a set of tags reported to the outside
  pure def report(i: int, tags: List[int]): int =
    if (tags.length() == 0) 0 else if (q::debug("TAG", (i, tags)) == (i, tags)) tags.select(t => t != 99000).length() else 0
}
