//! Families of calls, one per area of the library.
use crate::gen::*;
use crate::tr::*;
use astro_float_num::*;

const E: RoundingMode = RoundingMode::ToEven;

pub struct Cfg { pub shard: u64, pub shards: u64, pub n: u64, pub thorough: bool }

pub fn wsize(r: &Rng) -> usize { match r.below(40) { 0 => 20 + r.below(60) as usize, 1..=3 => 5 + r.below(20) as usize, _ => words(r, 5) } }

pub fn twosomes(t: &mut Tr, r: &Rng) -> (u8, u8, usize) {
    let (wa, wb) = (wsize(r), wsize(r));
    let ec = eclass(r);
    let a = fin(r, wa, ec);
    let mut b = if r.chance(1, 4) { let e = eclass(r); fin(r, wb, e) } else { fin(r, wb, if ec == Ec::Sub { Ec::Low } else { ec }) };
    let pa = wa as i64 * 64;
    let pb = wb as i64 * 64;
    match r.below(6) {
        0 | 1 => { // exponents related through the word sizes
            let d = r.pick(&[0, 1, -1, 2, 63, 64, 65, pa - 1, pa, pa + 1, pa + 64, pb, pa - pb, 127, 128, 129, pa + 63, pa + 65]) + if r.chance(1, 4) { r.range(-3, 3) } else { 0 };
            b.e = (a.e - d).clamp(EMIN, EMAX);
            if b.e > EMIN { let n = b.n(); if n > 0 && n < b.m.len() * 64 { let m = nshl(&trim(b.m.clone()), b.m.len() * 64 - n); b.m = m; } }
        }
        2 => { // nearly equal
            b = a.clone();
            match r.below(4) {
                0 => {}
                1 => { b.m[0] ^= 1 << r.below(64); if b.e > EMIN { let l = b.m.len() - 1; b.m[l] |= 1 << 63; } }
                2 => { let mut m = vec![0; 1 + r.below(3) as usize]; if r.chance(1, 2) { m[0] = r.next() | 1; } m.extend(&b.m); b.m = m; if b.n() < b.m.len() * 64 && b.e > EMIN { b.e = EMIN } }
                _ => { b.e = (a.e - 1).clamp(EMIN, EMAX); for x in b.m.iter_mut() { *x = !0; } }
            }
            b.neg = r.chance(1, 2);
        }
        _ => {}
    }
    let wp = match r.below(5) { 0 => wa, 1 => wb, 2 => wa + wb, _ => wsize(r).min(wa + wb + 3) };
    let p = prec(r, wp);
    (t.load(&a), t.load(&b), p)
}

/// addition, subtraction, multiplication, division, reciprocal, square and cube root
pub fn arith(t: &mut Tr, r: &Rng, c: &Cfg) {
    if c.shard == 0 { large(t, r, c) } else if c.shard <= 3 || c.thorough { middle(t, r, c) }
    let n = if c.shard == 0 { 0 } else { c.n };
    while t.count < n {
        let rm = rmany(r);
        match r.below(24) {
            20..=23 => windows(t, r),
            0..=9 => {
                let (a, b, p) = twosomes(t, r);
                let op = r.pick(&[1, 2, 3, 4, 1, 2]);
                t.op2(op, a, b, p, rm);
                if r.chance(1, 3) { let op = r.pick(&[1, 2, 3, 4]); t.op2(op, b, a, p, rmany(r)); }
                if r.chance(1, 4) { let op = r.pick(&[5, 6, 7]); t.op1(op, a, p, rm); }
                if r.chance(1, 8) { let op = r.pick(&[1, 2, 3, 4]); t.op2(op, a, a, p, rm); }
            }
            10 | 11 => { // products on or next to a rounding boundary
                let w = 1 + r.below(3) as usize;
                let pb = w * 64 + 1;
                let k = 1 + r.below(pb as u64 - 1) as usize;
                let (mut x, mut y) = (nat(r, k), nat(r, pb - k + r.below(2) as usize));
                x[0] |= 1; y[0] |= 1;
                let xa = exponent(r, Ec::Mid); let ya = exponent(r, Ec::Mid);
                let a = t.nat(&x, r.chance(1, 2), xa, 0); let b = t.nat(&y, r.chance(1, 2), ya, 0);
                for rm in RMS { t.op2(3, a, b, w * 64, rm); }
            }
            12 | 13 => { // quotients: a = q * b (+- 1) with a p+1 bit quotient
                let w = 1 + r.below(3) as usize;
                let mut q = nat(r, w * 64 + 1);
                q[0] |= 1;
                let b0 = nat(r, 1 + r.below(200) as usize);
                let mut a0 = nmul(&q, &b0);
                match r.below(3) { 0 => {} 1 => a0 = nadd(&a0, &[1]), _ => a0 = ndec(&a0) }
                let xa = exponent(r, Ec::Mid);
                let a = t.nat(&a0, r.chance(1, 2), xa, 0); let b = t.nat(&b0, r.chance(1, 2), 0, 0);
                for rm in RMS { t.op2(4, a, b, w * 64, rm); }
            }
            14 | 15 => { // roots of r^k, r^k +- 1 with r on a rounding boundary
                let w = 1 + r.below(3) as usize;
                let b = if r.chance(1, 3) { 1 + r.below(w as u64 * 64) as usize } else { w * 64 + 1 };
                let q = nat(r, b);
                let sq = r.chance(1, 2);
                let mut a0 = if sq { nmul(&q, &q) } else { nmul(&nmul(&q, &q), &q) };
                let mut xa = exponent(r, Ec::Mid) * 6;
                match r.below(4) { 0 | 1 => {} 2 => a0 = nadd(&nshl(&a0, 6), &[1]), _ => a0 = ndec(&nshl(&a0, 6)) }
                if r.chance(1, 4) { xa += r.range(0, 5) }
                let a = t.nat(&a0, !sq && r.chance(1, 2), xa, 0);
                for rm in RMS { t.op1(if sq { 6 } else { 7 }, a, w * 64, rm); }
            }
            16 => { // sums: large exponent gaps and sticky bits around a tie
                let w = 1 + r.below(3) as usize;
                let mut m = nat(r, w * 64 + 1);
                if r.chance(2, 3) { m[0] |= 1 }
                let xa = exponent(r, Ec::Mid);
                let a = t.nat(&m, r.chance(1, 2), xa, 0);
                let g = r.pick(&[1, 2, 63, 64, 65, 66, 127, 128, 129, 190, 200, 5000, 1 << 30]);
                let kb = 1 + r.below(128) as usize;
                let bb = nat(r, kb);
                let b = t.nat(&bb, r.chance(1, 2), xa - g - bits(&bb) as i64 + r.range(0, 2), 0);
                for rm in RMS { let op = r.pick(&[1, 2]); t.op2(op, a, b, w * 64, rm); }
            }
            17 => { // powers of two and all ones: carries out of the top
                let w = 1 + r.below(4) as usize;
                let ones = Fin { m: vec![!0; w], neg: r.chance(1, 2), e: exponent(r, Ec::Small), ix: false };
                let a = t.load(&ones);
                let k = r.range(-3, 70 * w as i64);
                let b = t.nat(&[1], r.chance(1, 2), ones.e - k, 0);
                let p = prec(r, w + 1);
                for op in [1, 2, 3, 4] { t.op2(op, a, b, p, rm); }
                for op in [5, 6, 7] { if op != 6 || !ones.neg { t.op1(op, a, p, rm); } }
            }
            _ => { // small integers
                let a = t.nat(&[r.range(1, 400) as u64], r.chance(1, 2), r.range(-4, 4), 1 + r.below(2) as usize);
                let b = t.nat(&[r.range(1, 400) as u64], r.chance(1, 2), r.range(-4, 4), 1 + r.below(2) as usize);
                let p = prec(r, 2);
                for op in [1, 2, 3, 4] { t.op2(op, a, b, p, rm); }
                t.op1(7, a, p, rm);
            }
        }
    }
}

/// digits with an extreme shape: a power of two, all ones, one digit away from these, or random with such an end
pub fn extreme(r: &Rng, w: usize) -> Nat {
    let mut m = vec![0u64; w];
    let top = 1u64 << 63;
    match r.below(12) {
        0..=2 => {}
        3 | 4 => for x in m.iter_mut() { *x = !0 },
        5 => m[0] |= 1,
        6 => { for x in m.iter_mut() { *x = !0 } m[0] = !1 }
        7 => { let i = r.below(64 * w as u64) as usize; m[i / 64] |= 1 << (i % 64) }
        8 => { for x in m.iter_mut() { *x = !0 } let i = r.below(64 * w as u64) as usize; m[i / 64] &= !(1 << (i % 64)) }
        9 => { m[w - 1] = r.next(); }
        10 => { for x in m.iter_mut() { *x = !0 } m[w - 1] = r.next(); }
        _ => for x in m.iter_mut() { *x = r.next() },
    }
    m[w - 1] |= top;
    m
}
/// sums and differences whose operands overlap, touch or miss each other around the words of the result
fn windows(t: &mut Tr, r: &Rng) {
    let wl = |r: &Rng| r.pick(&[1usize, 1, 1, 2, 2, 3, 4]);
    let (la, lb, lp) = (wl(r), wl(r), wl(r));
    let e = if r.chance(1, 5) { EMIN + r.range(0, 400) } else { r.range(-3, 70) };
    let k = r.below(la.max(lp) as u64 + 3) as i64;
    let a = Fin { m: extreme(r, la), neg: r.chance(1, 2), e, ix: false };
    let b = Fin { m: extreme(r, lb), neg: r.chance(1, 2), e: (e - 64 * k + r.range(-2, 2)).max(EMIN), ix: false };
    let sub = if a.neg == b.neg { 2 } else { 1 };
    let (a, b) = (t.load(&a), t.load(&b));
    let p = 64 * lp - if r.chance(1, 4) { r.below(64) as usize } else { 0 };
    for rm in [E, rmany(r)] { t.op2(sub, a, b, p, rm); }
    if r.chance(1, 2) { t.op2(3 - sub, a, b, p, rmany(r)); }
    if r.chance(1, 3) { t.op2(sub, b, a, p, rmany(r)); }
}

fn middle(t: &mut Tr, r: &Rng, c: &Cfg) {
    // sizes around the switch points of the multiplication and division algorithms
    let k = if c.thorough { 6 } else { 1 };
    for _ in 0..k {
        for (wa, wb) in [(33, 33), (32, 34), (40, 71), (70, 70), (71, 100), (35, 160), (100, 33), (66, 67), (150, 75), (221, 221), (220, 230), (72, 300), (160, 320)] {
            let (a, b) = (shaped(r, wa), shaped(r, wb));
            let (a, b) = (t.load(&a), t.load(&b));
            let p = r.pick(&[wa, wb, wa + wb, wa.max(wb) + 1]) * 64;
            t.op2(3, a, b, p, rmany(r));
            t.op2(4, a, b, p, rmany(r));
            t.op2(4, b, a, r.pick(&[wa, wb]) * 64, rmany(r));
        }
        // long divisions: quotients with runs of zeroes and ones, small remainders, all lengths of divisor and quotient
        for (wq, wd) in [(20, 30), (75, 80), (71, 165), (100, 161), (140, 170), (163, 163), (300, 170), (90, 250), (150, 150)] {
            let q = shaped(r, wq).m;
            let d = shaped(r, wd).m;
            let mut a = nmul(&q, &d);
            match r.below(4) { 0 => {} 1 => a = nadd(&a, &shaped(r, 1 + r.below(wd as u64 - 1) as usize).m), 2 => a = ndec(&a), _ => a = nadd(&a, &ndec(&d)) }
            let (a, b) = (t.nat(&a, r.chance(1, 2), 0, 0), t.nat(&d, r.chance(1, 2), 0, 0));
            let p = r.pick(&[wq, wq, wq + 1, wq.max(2) - 1, wq + 80]) * 64;
            t.op2(4, a, b, p, rmany(r));
        }
        for w in [40, 71, 90, 150, 240] {
            let mut a = shaped(r, w); a.neg = false;
            if r.chance(1, 3) { let q = shaped(r, w / 2).m; a = Fin::from_nat(&nmul(&q, &q), false, r.range(-9, 9), 0); if r.chance(1, 2) { a = Fin::from_nat(&ndec(&nmul(&q, &q)), false, r.range(-9, 9), 0); } }
            let a = t.load(&a);
            let p = r.pick(&[w / 2, w, w + 7, 2 * w]) * 64;
            t.op1(6, a, p, rmany(r));
            t.op1(7, a, p.min(9000), rmany(r));
            t.op1(5, a, p, rmany(r));
        }
    }
}
/// a number with runs of zero words and words of ones, or random
pub fn shaped(r: &Rng, w: usize) -> Fin {
    let mut f = fin(r, w, Ec::Small);
    if r.chance(2, 3) {
        let mut i = 0;
        let mut kind = r.below(4);
        while i < w {
            let l = 1 + r.below(1 + w as u64 / 2) as usize;
            for j in i..(i + l).min(w) { f.m[j] = match kind { 0 => 0, 1 => !0, 2 => r.next(), _ => r.pick(&[0, !0, 1, 1 << 63]) }; }
            i += l;
            kind = r.below(4);
        }
        f.m[w - 1] |= 1 << 63;
    }
    f
}
fn large(t: &mut Tr, r: &Rng, c: &Cfg) {
    for (wa, wb) in [(5401, 5401), (5500, 5402), (12000, 5600), (300, 900), (70, 1400), (8192, 8192), (5401, 10983), (226, 226), (1000, 1000), (4000, 3999), (5400, 5400), (25600, 25600)].iter().take(if c.thorough { 12 } else { 11 }) {
        let (a, b) = (shaped(r, *wa), shaped(r, *wb));
        let (a, b) = (t.load(&a), t.load(&b));
        t.op2(3, a, b, (wa + wb) * 64, E);
        if *wa < 6000 { t.op2(3, a, b, wa * 64, rmany(r)); }
        if *wa < 2000 { t.op2(4, b, a, wb * 64, rmany(r)); t.op1(5, a, wa * 64, rmany(r)); }
    }
}

/// full-precision operations, remainder, integer and fractional parts
pub fn exact(t: &mut Tr, r: &Rng, c: &Cfg) {
    if c.shard == 0 {
        for (wa, wb) in [(5401, 5402), (300, 260), (40, 80), (80, 200)] {
            let (a, b) = (fin(r, wa, Ec::Small), fin(r, wb, Ec::Small));
            let (a, b) = (t.load(&a), t.load(&b));
            t.op2(12, a, b, 0, E);
            if wa < 1000 { t.op2(13, a, b, 0, E); t.op2(13, b, a, 0, E); t.op2(10, a, b, 0, E); }
        }
    }
    while t.count < c.n {
        match r.below(10) {
            0..=2 => {
                let (a, b, _) = twosomes(t, r);
                let (x, y) = (t.val(a).exponent().unwrap() as i64, t.val(b).exponent().unwrap() as i64);
                if (x - y).abs() < 20000 { let op = r.pick(&[10, 11]); t.op2(op, a, b, 0, E); if r.chance(1, 2) { let op = r.pick(&[10, 11]); t.op2(op, b, a, 0, E); } }
                t.op2(12, a, b, 0, E);
                let u = r.pick(&[14, 15]); t.op1(u, a, r.below(3) as usize, E);
            }
            3 => { // zero operands
                let (a, _, _) = twosomes(t, r);
                let z = Fin { m: vec![0; 1 + r.below(3) as usize], neg: r.chance(1, 2), e: 0, ix: r.chance(1, 4) };
                let z = t.load(&z);
                for op in [10, 11, 12, 13] { t.op2(op, z, a, 0, E); t.op2(op, a, z, 0, E); }
                for op in [14, 15, 16, 17, 18, 19] { t.op1(op, z, 0, E); }
            }
            4 | 5 => { // remainder
                let wa = wsize(r); let wb = wsize(r);
                let ec = r.pick(&[Ec::Small, Ec::Mid, Ec::Sub, Ec::Low, Ec::High]);
                let a = fin(r, wa, ec);
                let mut b = fin(r, wb, if ec == Ec::Sub && r.chance(1, 2) { Ec::Sub } else { ec });
                if ec != Ec::Sub && b.n() == wb * 64 {
                    let g = match r.below(4) { 0 => r.range(-2, 3), 1 => r.range(0, 64 * wa as i64 + 3), 2 => r.pick(&[63, 64, 65, 128, 64 * wb as i64, 64 * wa as i64]), _ => r.range(0, 3000) };
                    b.e = (a.e - g).clamp(EMIN, EMAX);
                }
                let (mut a, b) = (a, b);
                match r.below(5) {
                    0 => { // a = b * k (+- 1 ulp of b)
                        let kb = 1 + r.below(130) as usize;
                        let k = nat(r, kb);
                        let mut m = nmul(&trim(b.m.clone()), &k);
                        match r.below(3) { 0 => {} 1 => m = nadd(&m, &[1]), _ => m = ndec(&m) }
                        if bits(&m) > 0 && b.e > EMIN + 300 && b.e < EMAX - 2000 { a = Fin::from_nat(&m, r.chance(1, 2), b.e - b.m.len() as i64 * 64, 0); }
                    }
                    _ => {}
                }
                let (a, b) = (t.load(&a), t.load(&b));
                t.op2(13, a, b, 0, E);
                if r.chance(1, 3) { t.op2(13, b, a, 0, E); }
            }
            6 => { // numbers next to integers
                let kb = 1 + r.below(130) as usize;
                let k = nat(r, kb);
                let f = r.range(1, 200) as usize;
                let base = nshl(&k, f);
                let m = match r.below(4) { 0 => nadd(&base, &[1]), 1 => ndec(&base), 2 => nadd(&base, &nshl(&[1], f - 1)), _ => base };
                let a = t.nat(&m, r.chance(1, 2), -(f as i64), 1 + r.below(4) as usize);
                for op in [16, 17, 18, 19] { t.op1(op, a, 0, E); }
            }
            _ => {
                let w = wsize(r).min(8);
                let ec = r.pick(&[Ec::Small, Ec::Small, Ec::Mid, Ec::Sub, Ec::Low, Ec::High]);
                let mut a = fin(r, w, ec);
                if ec == Ec::Small && r.chance(1, 2) { a.e = r.range(-2, 64 * w as i64 + 2) }
                let a = t.load(&a);
                for op in [16, 17, 18, 19] { t.op1(op, a, 0, E); }
                let i = t.op1(16, a, 0, E); let f = t.op1(17, a, 0, E);
                if t.val(a).exponent().unwrap() > -5000 { t.op2(10, i, f, 0, E); }
            }
        }
    }
}

/// precision changes and rounding to places
pub fn setp(t: &mut Tr, r: &Rng, c: &Cfg) {
    while t.count < c.n {
        let w = wsize(r).min(12);
        let ec = eclass(r);
        let mut a = fin(r, w, ec);
        let p = 64 * w;
        match r.below(4) {
            0 => { // a tie or next to a tie at q bits
                let q = 1 + r.below(p as u64 - 1) as usize;
                let b = p - q;        // bits dropped
                if a.n() == p {
                    for i in 0..b { a.m[i / 64] &= !(1 << (i % 64)); }
                    match r.below(4) { 0 => a.m[(b - 1) / 64] |= 1 << ((b - 1) % 64), 1 => { a.m[(b - 1) / 64] |= 1 << ((b - 1) % 64); a.m[0] |= 1 } 2 => { for i in 0..b - 1 { a.m[i / 64] |= 1 << (i % 64); } } _ => {} }
                }
                let a = t.load(&a);
                for rm in RMS { t.setp(a, q, rm); }
                for _ in 0..3 { let s = (p + 63) / 64 * 64; let s = s - 64 * r.below(1 + (s as u64 - q as u64 - 1) / 64) as usize; if s >= q { t.tryp(a, q, rmany(r), s); } }
            }
            1 => {
                let a = t.load(&a);
                for _ in 0..4 { let q = prec(r, w + 2); t.setp(a, q, rmany(r)); }
            }
            2 => { // claimed correct digits
                a.ix = r.chance(5, 6);
                if r.chance(1, 2) { // long runs after the rounding position
                    let q = 1 + r.below(p as u64 - 1) as usize;
                    let l = 1 + r.below((p - q) as u64) as usize;
                    let pat = r.below(3);
                    for i in 0..l { let j = p - q - 1 - i; match pat { 0 => a.m[j / 64] |= 1 << (j % 64), 1 => a.m[j / 64] &= !(1 << (j % 64)), _ => if i == 0 { a.m[j / 64] |= 1 << (j % 64) } else { a.m[j / 64] &= !(1 << (j % 64)) } } }
                    let x = t.load(&a);
                    for _ in 0..4 { let s = (1 + r.below(w as u64) as usize) * 64; if s >= q { t.tryp(x, q, rmany(r), s); } }
                } else {
                    let x = t.load(&a);
                    for _ in 0..4 { let q = prec(r, w + 1); let s = (1 + r.below(w as u64) as usize) * 64; if s >= q { t.tryp(x, q, rmany(r), s); } }
                }
            }
            _ => { // places
                if r.chance(2, 3) { a.e = r.range(-70, 64 * w as i64 + 5); if a.n() < p { a = fin(r, w, Ec::Small); } }
                let l = p as i64 - a.e;      // position of the last bit
                let b = if r.chance(1, 4) { p as i64 + r.range(-1, 2) } else { r.range(1, p as i64 + 3) };
                if a.n() == p && r.chance(1, 2) && b <= p as i64 { for i in 0..(b as usize) { a.m[i / 64] &= !(1 << (i % 64)); } let k = (b - 1) as usize; if r.chance(2, 3) { a.m[k / 64] |= 1 << (k % 64) } if r.chance(1, 3) { a.m[0] |= 1 } }
                let n = if r.chance(1, 6) { r.range(0, 300) } else { (l - b).max(0) };
                let a = t.load(&a);
                for rm in RMS { t.round(a, n as usize, rm); }
            }
        }
    }
}

// ---------------------------------------------------------------------- functions
/// precision of functions: mostly short, sometimes long enough for other algorithms
pub fn fprec(r: &Rng, c: &Cfg) -> usize {
    match r.below(if c.thorough { 60 } else { 240 }) { 0 => 1500 + r.below(1500) as usize, 1..=4 => 600 + r.below(500) as usize, _ => prec(r, 4) }
}
fn inv(op: u8) -> u8 {
    match op { 30 => 33, 33 => 30, 40 => 43, 41 => 44, 42 => 45, 43 => 40, 44 => 41, 45 => 42, 50 => 53, 51 => 54, 52 => 55, 53 => 50, 54 => 51, 55 => 52, _ => 0 }
}
/// an argument for function op
pub fn farg(t: &mut Tr, r: &Rng, op: u8, p: usize) -> Option<u8> {
    let w = words(r, 4);
    let neg = r.chance(1, 2) && !(33..=35).contains(&op) && op != 54;
    let unit = op == 43 || op == 44 || op == 55;
    let mut a = match r.below(12) {
        0 => fin(r, w, Ec::Small),
        1 => { let mut a = fin(r, w, Ec::Small); a.e = r.range(-3, 3); a }
        2 => { let mut a = fin(r, w, Ec::Small); a.e = r.range(-(p as i64) - 80, 1); a }        // tiny
        3 => { let mut a = fin(r, w, Ec::Wide); if (40..=42).contains(&op) { a.e = r.range(-3000, 1200) } a }
        4 => fin(r, w, if r.chance(1, 2) { Ec::Low } else { Ec::Sub }),
        5 => if (40..=42).contains(&op) { return None } else { fin(r, w, Ec::High) },
        6 => Fin::from_nat(&[1 + r.below(40)], neg, r.range(-4, 3), w),
        7 | 8 => { // next to one
            // half the time at distances where what cancels is about a whole number of words
            let close = r.chance(1, 2);
            let k = if close { ((64 * (((p + 63) / 64) as i64 + r.pick(&[0, 0, 0, 0, 1, -1, 2])).max(1) + r.range(-6, 3)) as usize) << (r.below(3) / 2) } else { 1 + r.below(64 * w as u64 + 100) as usize };
            let base = nshl(&[1], k);
            let jl = 1 + if close { r.below(2) } else { r.below(k.min(20) as u64) } as usize;
            let j = nat(r, jl);
            if r.chance(1, 2) || !unit { Fin::from_nat(&nadd(&base, &j), neg, -(k as i64), 0) }
            else { let mut d = base.clone(); // base - j
                let mut bo = false; for i in 0..d.len() { let (x, b1) = d[i].overflowing_sub(*j.get(i).unwrap_or(&0)); let (x, b2) = x.overflowing_sub(bo as u64); d[i] = x; bo = b1 || b2; }
                Fin::from_nat(&trim(d), neg, -(k as i64), 0) }
        }
        9 if (40..=42).contains(&op) => { // next to a multiple of half pi
            let q = 64 * (1 + r.below(5) as usize);
            let k = if r.chance(1, 2) { 1 + r.below(20) } else { let s = r.below(63); r.next() >> s } | 1;
            let (k2, rm) = (k + r.below(2), rmany(r));
            let v = t.helper(|cc| cc.pi(q + 128, E).div(&BigFloat::from_u8(2, 64), q + 128, E).mul(&BigFloat::from_u64(k2, 64), q, rm))?;
            Fin { m: v.mantissa_digits()?.to_vec(), neg, e: v.exponent()? as i64, ix: false }
        }
        _ => { // the inverse of a number next to a rounding boundary
            let i = inv(op);
            if i == 0 { return Some({ let f = fin(r, w, Ec::Small); let mut f = f; f.neg = neg; t.load(&f) }) }
            let y = nat(r, (p + 63) / 64 * 64 + if r.chance(3, 4) { 1 } else { 0 });
            let ey = match i { 43 | 44 | 55 => r.range(-6, 0), 54 | 33 => r.range(2, 8), _ => r.range(-8, 4) };
            let yf = Fin::from_nat(&y, neg && i != 33, ey - bits(&y) as i64, 0);
            let yv = BigFloat::from_raw_parts(&yf.m, yf.n(), if yf.neg { Sign::Neg } else { Sign::Pos }, yf.e as i32, false);
            let q = (p + 63) / 64 * 64 + 64 * r.below(6) as usize;
            let v = t.helper(|cc| apply1(i, &yv, q, E, cc))?;
            let (m, _, s, e, _) = v.as_raw_parts()?;
            Fin { m: m.to_vec(), neg: s == Sign::Neg, e: e as i64, ix: false }
        }
    };
    if !(a.n() == a.m.len() * 64 || a.e == EMIN) { return None }
    if a.n() == 0 { a.e = 0 }
    if (33..=35).contains(&op) || op == 54 { a.neg = a.neg && r.chance(1, 40) } else if r.chance(1, 2) { a.neg = neg }
    if (40..=42).contains(&op) && a.e > 12000 { a.e = r.range(0, 300) }
    if unit && a.e > 1 && r.chance(9, 10) { a.e = r.range(-200, 0) }
    if op == 54 && a.e < 1 && r.chance(9, 10) { a.e = 1 + r.range(0, 40) }
    if (op == 30 || op == 50 || op == 51 || op == 52) && a.e > 36 && r.chance(5, 6) { a.e = r.range(1, 33) }
    Some(t.load(&a))
}
/// a few calls at precisions of thousands of bits, where the series are summed in other ways
pub fn deep(t: &mut Tr, r: &Rng, c: &Cfg, ops: &[u8]) {
    for _ in 0..if c.thorough { 12 } else { 1 } {
        for &op in ops {
            for j in 0..2 {
                let p = 64 * if j == 0 { r.range(70, 130) } else { r.range(130, 260) } as usize;
                let w = r.pick(&[1, 3, p / 64, p / 64 + 5]);
                let mut a = fin(r, w, Ec::Small);
                a.e = match op { 43 | 44 | 55 => r.range(-12, 0), 54 => r.range(1, 12), 30 | 50..=52 => r.range(-30, 12), 40..=42 => r.range(-30, 200), _ => r.range(-60, 60) };
                if (33..=35).contains(&op) || op == 54 { a.neg = false }
                let a = t.load(&a);
                if op == 31 {
                    let mut b = fin(r, 3, Ec::Small);
                    b.e = r.range(-4, 4);
                    let b = t.load(&b);
                    let a = t.op1(15, a, 64 * w, E);
                    t.op2(31, a, b, p, rmany(r));
                } else { t.op1(op, a, p, rmany(r)); }
            }
        }
    }
}
pub fn funcs(t: &mut Tr, r: &Rng, c: &Cfg, ops: &[u8]) {
    deep(t, r, c, ops);
    while t.count < c.n {
        let op = r.pick(ops);
        let p = fprec(r, c);
        let big = p > 400;
        if let Some(a) = farg(t, r, op, p) {
            t.op1(op, a, p, rmany(r));
            if !big && r.chance(1, 3) { t.op1(op, a, p, rmany(r)); }
        }
        if r.chance(1, 60) { t.cc = Consts::new().unwrap(); }
    }
}
pub fn pw(t: &mut Tr, r: &Rng, c: &Cfg) {
    let p = fprec(r, c);
    let rm = rmany(r);
    match r.below(10) {
        0 | 1 => { // general
            let mut a = { let w = words(r, 3); let e = r.pick(&[Ec::Small, Ec::Small, Ec::Mid, Ec::Wide]); fin(r, w, e) }; a.neg = false;
            let mut b = { let w = words(r, 3); fin(r, w, Ec::Small) }; b.e = r.range(-70, 20) - (64 - (a.e.unsigned_abs().leading_zeros() as i64)).min(25);
            let (a, b) = (t.load(&a), t.load(&b));
            t.op2(31, a, b, p, rm);
        }
        2 if r.chance(1, 2) => { // base next to one, small power, precision close to the length of the base: long runs after the rounding position
            let q = 1 + r.below(3) as usize;
            let k = (64 * q) as i64 - r.pick(&[0, 1, 2, 3, 1, 2, 17]);
            let one = nshl(&[1], k as usize);
            let v = if r.chance(1, 2) { nadd(&one, &[1 + r.below(3)]) } else { let mut d = one; let mut i = 0; let (x, mut bo) = d[0].overflowing_sub(1 + r.below(3)); d[0] = x; while bo { i += 1; let (x, b) = d[i].overflowing_sub(1); d[i] = x; bo = b; } trim(d) };
            let a = t.nat(&v, false, -k, 0);
            let p = (64 * q as i64 + r.pick(&[0, 0, 0, 1, -1, 64])) as usize;
            if r.chance(1, 3) { t.powi(a, 2 + r.below(5) as usize, p, rm); }
            else {
                let b = t.nat(&[1 + r.below(7)], r.chance(1, 2), -r.pick(&[0, 0, 1, 2, -3]), 0);
                t.op2(31, a, b, p, rm);
            }
        }
        2 => { // base near one, large power
            let k = 20 + r.below(150) as usize;
            let a = nadd(&nshl(&[1], k), &[1 + r.below(9)]);
            let a = t.nat(&a, false, -(k as i64), 0);
            let mut b = { let w = words(r, 2); fin(r, w, Ec::Small) }; b.e = r.range(-5, k as i64 + 12);
            let b = t.load(&b);
            t.op2(31, a, b, p, rm);
        }
        3 => { // exact powers and roots
            let kb = 1 + r.below(12) as usize;
            let x = nat(r, kb);
            let j = r.range(0, 3) as usize;
            let mut v = x; for _ in 0..j { v = nmul(&v, &v); }
            if r.chance(1, 4) { v = nadd(&nshl(&v, 8), &[1]) }
            let a = t.nat(&v, r.chance(1, 4), r.range(-8, 8) << j, 0);
            let b = t.nat(&[r.range(1, 12) as u64], r.chance(1, 3), -(r.range(0, j as i64 + 1)), 0);
            t.op2(31, a, b, p, rm);
            if r.chance(1, 2) { t.op2(31, a, b, p, rmany(r)); }
        }
        4 => { // negative and integer
            let a = { let w = words(r, 3); fin(r, w, Ec::Small) };
            let a = t.load(&a);
            let b = t.nat(&[1 + r.below(2000)], r.chance(1, 2), r.pick(&[0, 0, 0, 1, 30, -1]), 0);
            t.op2(31, a, b, p, rm);
        }
        5 | 6 => { // integer powers
            let mut a = { let w = words(r, 3); let e = r.pick(&[Ec::Small, Ec::Mid, Ec::Low, Ec::High]); fin(r, w, e) };
            if r.chance(1, 3) { a = Fin::from_nat(&[1 + r.below(100)], r.chance(1, 2), r.range(-3, 3), 1); }
            let a = t.load(&a);
            let s = r.below(60);
            let n = match r.below(6) { 0 => r.below(6), 1 => r.below(64), 2 => 1 << r.below(20), 3 => r.next() >> s, _ => r.below(1000) };
            t.powi(a, n as usize, p, rm);
        }
        7 => { // powers of two to two: boundary of the exponent range
            let k = r.range(1, 31);
            let a = t.nat(&[1], false, r.pick(&[1, -1, 2, 3, 64, -64]), 0);
            let b = t.nat(&[(1u64 << k) + r.below(5) - 2], r.chance(1, 2), r.pick(&[0, 0, -1, -10]), 0);
            t.op2(31, a, b, p, rm);
        }
        _ => { // logarithms to any base
            let mut a = { let w = words(r, 3); let e = r.pick(&[Ec::Small, Ec::Mid, Ec::Wide, Ec::Low, Ec::Sub]); fin(r, w, e) }; a.neg = r.chance(1, 40);
            let mut b = { let w = words(r, 3); let e = r.pick(&[Ec::Small, Ec::Mid]); fin(r, w, e) }; b.neg = r.chance(1, 40);
            if r.chance(1, 3) { // exact: c^i, c^j
                let (i, j) = (1 + r.below(6), 1 + r.below(6));
                let c0 = [1 + r.below(30)];
                let e0 = r.range(-3, 3);
                let mut x: Nat = vec![1]; for _ in 0..i { x = nmul(&x, &c0); }
                let mut y: Nat = vec![1]; for _ in 0..j { y = nmul(&y, &c0); }
                a = Fin::from_nat(&x, false, e0 * i as i64, 0); b = Fin::from_nat(&y, false, e0 * j as i64, 0);
            } else if r.chance(1, 4) { let k = 10 + r.below(120) as usize; b = Fin::from_nat(&nadd(&nshl(&[1], k), &[1]), false, -(k as i64), 0); }
            let (a, b) = (t.load(&a), t.load(&b));
            t.op2(36, a, b, p, rm);
        }
    }
}
fn logexact(t: &mut Tr, r: &Rng, c: &Cfg) {
    let p = fprec(r, c).min(400);
    if r.chance(1, 2) {
        let mut x: Nat = vec![1];
        for _ in 0..r.below(60) { x = nmul(&x, &[10]); }
        if r.chance(1, 4) { x = nadd(&x, &[1]) }
        let a = t.nat(&x, false, 0, 0);
        t.op1(35, a, p, rmany(r));
    } else {
        let a = t.nat(&[1], false, r.pick(&[0, 1, -1, 5, 63, 64, 65, -64, 1000, EMAX - 1, EMIN, EMIN - 1]), 2);
        t.op1(34, a, p, rmany(r));
    }
}
pub fn explog(t: &mut Tr, r: &Rng, c: &Cfg) {
    deep(t, r, c, &[30, 33, 34, 35, 31]);
    while t.count < c.n {
        match r.below(12) {
            0..=4 => { let op = r.pick(&[30, 30, 33, 34, 35]); let p = fprec(r, c); if let Some(a) = farg(t, r, op, p) { t.op1(op, a, p, rmany(r)); } }
            5 => logexact(t, r, c),
            _ => pw(t, r, c),
        }
        if r.chance(1, 60) { t.cc = Consts::new().unwrap(); }
    }
}

// ---------------------------------------------------------------------- the ends of the exponent range
pub fn fin_of(v: &BigFloat) -> Option<Fin> { let (m, _, s, e, _) = v.as_raw_parts()?; Some(Fin { m: m.to_vec(), neg: s == Sign::Neg, e: e as i64, ix: false }) }
pub fn bf(f: &Fin) -> BigFloat { BigFloat::from_raw_parts(&f.m, f.n(), if f.neg { Sign::Neg } else { Sign::Pos }, f.e as i32, false) }
/// a number whose value has exponent e, possibly below the normal range
pub fn fin_at(n: &[u64], neg: bool, e: i64, w: usize) -> Option<Fin> {
    let mut f = Fin::from_nat(n, neg, 0, w);
    if e > EMAX { return None }
    if e >= EMIN { f.e = e; return Some(f) }
    let d = (EMIN - e) as usize;
    let ww = w.max((bits(n) + d + 63) / 64);
    let sh = ww * 64 - d - bits(n);
    let mut m = nshl(n, sh); m.resize(ww, 0);
    if ww > 12 { return None }
    Some(Fin { m, neg, e: EMIN, ix: f.ix })
}
pub fn ends(t: &mut Tr, r: &Rng, c: &Cfg) {
    while t.count < c.n {
        let p = prec(r, 3);
        let pw = (p as i64 + 63) / 64 * 64;
        let low = r.chance(2, 3);
        // exponent the result should have
        let target = if low { EMIN + match r.below(6) { 0 => r.range(-2, 2), 1 => -pw + r.range(-3, 3), 2 => r.range(-pw - 70, 5), _ => r.range(-pw, 1) } } else { EMAX + r.range(-2, 2) };
        let half = target / 2 + r.range(-1 << 29, 1 << 29);
        let shortn = |r: &Rng| { let b = 1 + r.below(if r.chance(1, 2) { 12 } else { 140 }) as usize; nat(r, b) };
        let (x, y) = (shortn(r), shortn(r));
        let sg = (r.chance(1, 2), r.chance(1, 2));
        let all = r.chance(1, 3);
        let rms: Vec<RoundingMode> = if all { RMS.to_vec() } else { vec![rmany(r), rmany(r)] };
        match r.below(16) {
            0..=2 => { // products
                let (ea, eb) = (half, target - half + r.range(0, 1));
                if let (Some(a), Some(b)) = (fin_at(&x, sg.0, ea, 1), fin_at(&y, sg.1, eb, 1)) {
                    let (a, b) = (t.load(&a), t.load(&b));
                    for rm in rms { t.op2(3, a, b, p, rm); }
                    if r.chance(1, 4) { t.op2(12, a, b, 0, E); }
                }
            }
            3 | 4 => { // quotients; a = q * b makes them short
                let xb = if r.chance(1, 2) { nmul(&x, &y) } else { x.clone() };
                let ea = if low { EMIN + r.range(0, 1 << 30) } else { EMAX - r.range(0, 1 << 30) };
                let eb = ea - target + r.range(0, 1);
                if eb > EMAX || eb < EMIN { continue }
                if let (Some(a), Some(b)) = (fin_at(&xb, sg.0, ea, 1), fin_at(&y, sg.1, eb, 1)) {
                    let (a, b) = (t.load(&a), t.load(&b));
                    for rm in rms { t.op2(4, a, b, p, rm); }
                }
            }
            5 | 6 => { // sums and differences
                let d = r.range(0, 140);
                let e = if low { EMIN + r.range(-100, 70) } else { EMAX };
                if let (Some(a), Some(b)) = (fin_at(&x, sg.0, e, 1 + r.below(3) as usize), fin_at(&y, sg.1, e - if low { d / 10 } else { d }, 1 + r.below(3) as usize)) {
                    let (ra, rb) = (t.load(&a), t.load(&b));
                    for rm in rms { let op = r.pick(&[1, 2]); t.op2(op, ra, rb, p, rm); }
                    if r.chance(1, 3) { let op = r.pick(&[10, 11, 13]); t.op2(op, ra, rb, 0, E); }
                    let mut a2 = a.clone(); let l = a2.m.len(); a2.m[0] ^= 1 + r.below(4); if a2.n() < l * 64 && a2.e > EMIN { continue } if a2.n() == 0 { continue }
                    let rc = t.load(&a2);
                    t.op2(2, ra, rc, p, rmany(r));
                    t.op2(11, ra, rc, 0, E);
                }
            }
            7 => { // all ones at the top
                let w = 1 + r.below(3) as usize;
                let mut m = vec![!0u64; w]; if r.chance(1, 2) { m[0] <<= r.below(63); }
                let a = t.load(&Fin { m, neg: sg.0, e: EMAX, ix: false });
                let q = 1 + r.below(64 * w as u64) as usize;
                for rm in rms { t.setp(a, q, rm); t.op2(1, a, 255, q, rm); }
                let b = t.load(&Fin { m: vec![1 << 63], neg: sg.0, e: EMAX - 64 * w as i64 + r.range(-1, 1), ix: false });
                for op in [1, 2] { t.op2(op, a, b, 64 * w, rmany(r)); }
                t.op2(10, a, b, 0, E);
            }
            8 => { // unary on extreme arguments
                let e = if low { EMIN + r.range(-100, 3) } else { EMAX - r.range(0, 2) };
                if let Some(a) = fin_at(&x, sg.0, e, 1 + r.below(2) as usize) {
                    let a = t.load(&a);
                    for rm in rms { let op = r.pick(&[5, 5, 6, 7]); t.op1(op, a, p, rm); }
                    let op = r.pick(&[30, 33, 34, 35, 43, 44, 45, 50, 51, 52, 53, 54, 55, 40, 41, 42]);
                    if !((40..=42).contains(&op) && e > 20000) { t.op1(op, a, p, rmany(r)); }
                    let op = r.pick(&[16, 17, 18, 19]); t.op1(op, a, 0, E);
                }
            }
            9 | 10 => { // exp and the hyperbolic functions
                let q = 64 * (1 + r.below(4) as usize);
                let d = r.range(-1000, 1000);
                let rm = rmany(r);
                let near = r.chance(1, 2);
                if let Some(Some(mut a)) = t.helper(|cc| fin_of(&cc.ln_2(q + 128, E).mul(&BigFloat::from_i64(target, 64), q + 128, E).add(&BigFloat::from_i64(d, 64).div(&BigFloat::from_u64(if near { 1 << 12 } else { 900 }, 64), q, E), q, rm))) {
                    a.neg = low;
                    let a = t.load(&a);
                    for rm in rms { t.op1(30, a, p, rm); }
                    let op = r.pick(&[50, 51, 52]);
                    t.op1(op, a, p, rmany(r));
                    if !low { for op in [50, 51] { t.op1(op, a, p, rmany(r)); } }
                }
            }
            11 | 12 => { // powers
                let mut b = Fin::from_nat(&x, false, r.range(-150, 20), 1);
                if r.chance(1, 4) { b.e = r.range(-1 << 20, 1 << 20) }
                if x == [1] && b.e == 1 { continue }
                let d = r.range(-3, 3);
                let (bb, rm) = (bf(&b), rmany(r));
                if let Some(Some(y)) = t.helper(|cc| fin_of(&cc.ln_2(256, E).mul(&BigFloat::from_i64(target + d, 64), 256, E).div(&bb.ln(256, E, cc), 64 * (1 + (d & 1) as usize), rm))) {
                    if !(y.n() == y.m.len() * 64) || y.e.abs() > 200 { continue }
                    b.neg = r.chance(1, 4) && y.e > 62;
                    let (b, y) = (t.load(&b), t.load(&y));
                    for rm in rms { t.op2(31, b, y, p, rm); }
                }
            }
            13 | 14 => { // integer powers
                let s = r.range(1, 40);
                let n = match r.below(3) { 0 => 2 + r.below(9), 1 => 2 + r.below(1 << s), _ => 2 + r.below(2000) };
                let q = 64 * (1 + r.below(3) as usize);
                let d = r.range(-3, 3);
                if r.chance(1, 2) {
                    let a = fin_at(&x, sg.0, target / n as i64 + r.range(-1, 1), 1);
                    if let Some(a) = a { let a = t.load(&a); for rm in rms { t.powi(a, n as usize, p, rm); } }
                } else if let Some(Some(mut a)) = t.helper(|cc| fin_of(&BigFloat::from_u8(2, 64).pow(&BigFloat::from_i64(target + d, 64).div(&BigFloat::from_u64(n, 64), 192, E), q, E, cc))) {
                    a.neg = sg.0;
                    let a = t.load(&a);
                    for rm in rms { t.powi(a, n as usize, p, rm); }
                    let y = t.nat(&[n], false, 0, 0);
                    t.op2(31, a, y, p, rmany(r));
                }
            }
            _ => { // extreme exponents of both operands
                let y = fin_at(&y, sg.1, EMIN + r.range(-60, 3), 1);
                let k = 1 + r.below(200) as usize;
                let a = if r.chance(1, 2) { Fin::from_nat(&nadd(&nshl(&[1], k), &[1]), false, -(k as i64), 0) } else { Fin::from_nat(&x, false, r.range(-150, 10), 1) };
                if let Some(y) = y {
                    let (a, y) = (t.load(&a), t.load(&y));
                    for rm in rms { t.op2(31, a, y, p, rm); }
                    t.op2(36, y, a, p, rmany(r));
                    t.op2(36, a, y, p, rmany(r));
                }
            }
        }
    }
}
