//! Seeded generators of adversarial inputs.
pub struct Rng(std::cell::Cell<u64>);
impl Rng {
    pub fn new(seed: u64) -> Self { let r = Rng(std::cell::Cell::new(seed ^ 0x9E3779B97F4A7C15)); r.next(); r }
    pub fn next(&self) -> u64 {
        self.0.set(self.0.get().wrapping_add(0x9E3779B97F4A7C15));
        let mut z = self.0.get();
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&self, n: u64) -> u64 { if n == 0 { 0 } else { self.next() % n } }
    pub fn range(&self, lo: i64, hi: i64) -> i64 { lo + self.below((hi - lo + 1) as u64) as i64 }
    pub fn chance(&self, a: u64, b: u64) -> bool { self.below(b) < a }
    pub fn pick<T: Copy>(&self, v: &[T]) -> T { v[self.below(v.len() as u64) as usize] }
}

/// plain natural numbers, little endian words
pub type Nat = Vec<u64>;
pub fn trim(mut a: Nat) -> Nat { while a.last() == Some(&0) { a.pop(); } a }
pub fn bits(a: &[u64]) -> usize {
    let mut n = a.len();
    while n > 0 && a[n - 1] == 0 { n -= 1; }
    if n == 0 { 0 } else { n * 64 - a[n - 1].leading_zeros() as usize }
}
pub fn nmul(a: &[u64], b: &[u64]) -> Nat {
    let mut r = vec![0u64; a.len() + b.len()];
    for (i, &x) in a.iter().enumerate() {
        let mut c = 0u128;
        for (j, &y) in b.iter().enumerate() {
            let t = x as u128 * y as u128 + r[i + j] as u128 + c;
            r[i + j] = t as u64; c = t >> 64;
        }
        r[i + b.len()] = c as u64;
    }
    trim(r)
}
pub fn nadd(a: &[u64], b: &[u64]) -> Nat {
    let n = a.len().max(b.len());
    let mut r = Vec::with_capacity(n + 1);
    let mut c = 0u128;
    for i in 0..n {
        let t = *a.get(i).unwrap_or(&0) as u128 + *b.get(i).unwrap_or(&0) as u128 + c;
        r.push(t as u64); c = t >> 64;
    }
    r.push(c as u64);
    trim(r)
}
/// a - 1 for a > 0
pub fn ndec(a: &[u64]) -> Nat {
    let mut r = a.to_vec();
    for w in r.iter_mut() { let (x, b) = w.overflowing_sub(1); *w = x; if !b { break } }
    trim(r)
}
pub fn nshl(a: &[u64], k: usize) -> Nat {
    let mut r = vec![0u64; k / 64];
    let s = k % 64;
    let mut c = 0u64;
    for &x in a { r.push(if s == 0 { x } else { (x << s) | c }); c = if s == 0 { 0 } else { x >> (64 - s) }; }
    r.push(c);
    trim(r)
}
/// a natural number with exactly b bits, of some adversarial shape
pub fn nat(r: &Rng, b: usize) -> Nat {
    let w = (b + 63) / 64;
    let mut v: Nat = vec![0; w];
    let set = |v: &mut Nat, i: usize, on: bool| { if on { v[i / 64] |= 1 << (i % 64) } else { v[i / 64] &= !(1 << (i % 64)) } };
    match r.below(14) {
        0..=3 => { for x in v.iter_mut() { *x = r.next(); } }
        4 => { for x in v.iter_mut() { *x = !0; } }
        5 => {}
        6 => { v[0] |= 1; }
        7 => { // random top, zeros below
            let t = r.below(b as u64 + 1) as usize;
            for i in (b - t)..b { let on = r.next() & 1 == 1; set(&mut v, i, on); }
        }
        8 => { // random top, ones below
            let t = r.below(b as u64 + 1) as usize;
            for x in v.iter_mut() { *x = !0; }
            for i in (b - t)..b { let on = r.next() & 1 == 1; set(&mut v, i, on); }
        }
        9 => { for x in v.iter_mut() { *x = r.pick(&[0, !0, 1, 1 << 63, (1 << 63) - 1, !1]); } }
        10 => { for _ in 0..3 { let i = r.below(b as u64) as usize; set(&mut v, i, true); } }
        11 => { for x in v.iter_mut() { *x = !0; } for _ in 0..3 { let i = r.below(b as u64) as usize; set(&mut v, i, false); } }
        12 => { // runs
            let mut on = true; let mut i = b;
            while i > 0 { let l = 1 + r.below(70) as usize; for _ in 0..l { if i == 0 { break } i -= 1; set(&mut v, i, on); } on = !on; }
        }
        _ => { // short number
            let t = 1 + r.below(b.min(20) as u64) as usize;
            for i in (b - t)..b { let on = r.next() & 1 == 1; set(&mut v, i, on); }
        }
    }
    for i in b..w * 64 { set(&mut v, i, false); }
    set(&mut v, b - 1, true);
    v
}

pub const EMIN: i64 = i32::MIN as i64;
pub const EMAX: i64 = i32::MAX as i64;

/// A finite number for from_raw_parts: mantissa words, sign, exponent, inexact.
#[derive(Clone, Debug)]
pub struct Fin { pub m: Vec<u64>, pub neg: bool, pub e: i64, pub ix: bool }
impl Fin {
    /// s * nat * 2^x at the smallest word precision that holds it (or at w words if larger)
    pub fn from_nat(n: &[u64], neg: bool, x: i64, w: usize) -> Fin {
        let b = bits(n);
        if b == 0 { return Fin { m: vec![0; w.max(1)], neg, e: 0, ix: false } }
        let ww = ((b + 63) / 64).max(w).max(1);
        let sh = ww * 64 - b;
        let mut m = nshl(n, sh);
        m.resize(ww, 0);
        Fin { m, neg, e: x + b as i64, ix: false }
    }
    pub fn n(&self) -> usize { bits(&self.m) }
    pub fn top(&self) -> i64 { self.e - (self.m.len() * 64 - self.n()) as i64 }
}

#[derive(Clone, Copy, PartialEq)]
pub enum Ec { Small, Mid, Wide, Low, High, Sub }

pub fn exponent(r: &Rng, c: Ec) -> i64 {
    match c {
        Ec::Small => r.range(-6, 70),
        Ec::Mid => r.range(-1500, 1500),
        Ec::Wide => { let k = r.range(4, 30); let v = r.range(0, 1 << k); if r.chance(1, 2) { v } else { -v } }
        Ec::Low | Ec::Sub => EMIN + r.pick(&[0, 0, 0, 1, 2, 63, 64, 65, 127, 128, 129, 200, 1000]) + if r.chance(1, 3) { r.range(0, 200) } else { 0 },
        Ec::High => EMAX - r.pick(&[0, 0, 0, 1, 2, 63, 64, 65, 127, 128, 1000]) - if r.chance(1, 3) { r.range(0, 200) } else { 0 },
    }
}
pub fn eclass(r: &Rng) -> Ec {
    match r.below(20) { 0..=8 => Ec::Small, 9..=12 => Ec::Mid, 13..=14 => Ec::Wide, 15..=16 => Ec::Low, 17 => Ec::High, _ => Ec::Sub }
}
pub fn fin(r: &Rng, w: usize, c: Ec) -> Fin {
    let p = w * 64;
    let neg = r.chance(1, 2);
    let ix = r.chance(1, 12);
    if c == Ec::Sub && p > 1 {
        let n = 1 + r.below(p as u64 - 1) as usize;
        let mut m = nat(r, n);
        m.resize(w, 0);
        return Fin { m, neg, e: EMIN, ix };
    }
    let m = nat(r, p);
    Fin { m, neg, e: exponent(r, c), ix }
}
/// precision argument
pub fn prec(r: &Rng, wmax: usize) -> usize {
    let w = 1 + r.below(wmax as u64) as usize;
    match r.below(8) { 0..=3 => w * 64, 4 => w * 64 - r.below(64) as usize, 5 => (w * 64 - 63).max(1), 6 => w * 64 - 1, _ => 1 + r.below(64 * wmax as u64) as usize }
}
pub fn words(r: &Rng, wmax: usize) -> usize {
    match r.below(6) { 0 => 1, 1 => 2, 2 => 3.min(wmax), _ => 1 + r.below(wmax as u64) as usize }
}
