//! Families of calls: order, conversions, text, caches, special values, histories.
use crate::fam::*;
use crate::gen::*;
use crate::tr::*;
use astro_float_num::*;

const E: RoundingMode = RoundingMode::ToEven;
pub const HUGEP: [usize; 14] = [usize::MAX, usize::MAX - 1, usize::MAX - 62, usize::MAX - 63, usize::MAX - 64, usize::MAX / 2, usize::MAX / 2 + 1, usize::MAX / 4, usize::MAX / 4 - 64,
    4611686016279904255, 4611686016279904254, 4611686016279904255 - 64, 1 << 62, 1 << 50];

/// any number: finite of any class, zero
pub fn anyfin(r: &Rng) -> Fin {
    let w = words(r, 4);
    match r.below(16) {
        0 => Fin { m: vec![0; w], neg: r.chance(1, 2), e: 0, ix: r.chance(1, 4) },
        1 => Fin::from_nat(&[1 + r.below(40)], r.chance(1, 2), r.range(-4, 3), w),
        2 => Fin::from_nat(&[1], r.chance(1, 2), r.range(-1, 1), w),
        _ => { let e = eclass(r); fin(r, w, e) }
    }
}
pub fn anynum(t: &mut Tr, r: &Rng) -> u8 {
    if r.chance(1, 8) { t.load_special(r.below(6) as u8) } else { let f = anyfin(r); t.load(&f) }
}
/// the same value in more words
fn widen(a: &Fin, k: usize) -> Fin {
    if a.n() < a.m.len() * 64 && a.n() > 0 { // subnormal: exponent stays at the end, the digits move up
        let mut m = vec![0; k]; m.extend(&a.m);
        return Fin { m, ..a.clone() };
    }
    let mut m = vec![0; k]; m.extend(&a.m);
    Fin { m, ..a.clone() }
}

pub fn ords(t: &mut Tr, r: &Rng, c: &Cfg) {
    while t.count < c.n {
        let (a, b) = match r.below(8) {
            0..=2 => { let (a, b, _) = twosomes(t, r); (a, b) }
            3 => (anynum(t, r), anynum(t, r)),
            4 => { // equal values of different precision, or a last bit apart
                let f = anyfin(r);
                let mut g = widen(&f, r.below(3) as usize);
                if r.chance(1, 3) && g.n() > 0 { g.m[0] ^= 1 << r.below(20); if g.n() == 0 || (g.n() < g.m.len() * 64 && g.e > EMIN) { continue } }
                if r.chance(1, 3) { g.neg = !g.neg }
                g.ix = r.chance(1, 6);
                (t.load(&f), t.load(&g))
            }
            5 => { let w = words(r, 3); let v = words(r, 3); let (f, g) = (fin(r, w, Ec::Sub), fin(r, v, if r.chance(1, 2) { Ec::Sub } else { Ec::Low })); (t.load(&f), t.load(&g)) }
            6 => { let z = Fin { m: vec![0; words(r, 3)], neg: r.chance(1, 2), e: 0, ix: r.chance(1, 4) }; let z = t.load(&z); let x = anynum(t, r); if r.chance(1, 2) { (z, x) } else { (x, z) } }
            _ => { // neighbours across an exponent step
                let w = words(r, 3);
                let e = exponent(r, if r.chance(1, 2) { Ec::Small } else { Ec::Low }).max(EMIN + 1);
                let f = Fin { m: vec![!0; w], neg: r.chance(1, 2), e: e - 1, ix: false };
                let mut m = vec![0; words(r, 3)]; let l = m.len(); m[l - 1] = 1 << 63;
                let g = Fin { m, neg: f.neg ^ r.chance(1, 6), e, ix: false };
                (t.load(&f), t.load(&g))
            }
        };
        for op in [70, 71, 77] { t.order(op, a, b); }
        if r.chance(1, 2) { t.order(r.pick(&[70, 71, 77]), b, a); }
        if r.chance(1, 4) { t.order(r.pick(&[70, 71, 77]), a, a); }
        let op = r.pick(&[72, 73]);
        t.order(op, a, b); if r.chance(1, 2) { t.order(op, b, a); }
        t.pred(a);
        t.signum(r.pick(&[a, b]));
        let x = if r.chance(1, 2) { anynum(t, r) } else { r.pick(&[a, b]) };
        let (x, y, z) = r.pick(&[(a, b, x), (b, a, x), (x, a, b), (x, b, a), (a, x, b)]);
        t.clamp(x, y, z);
    }
}

pub fn conv(t: &mut Tr, r: &Rng, c: &Cfg) {
    let pr = |r: &Rng| match r.below(12) { 0 => r.pick(&[0, 1, 7, 8, 15, 16, 31, 32, 33, 63, 65, 127, 129]), 1 => r.pick(&HUGEP), 2..=4 => 64, 5..=6 => 128, _ => prec(r, 4) };
    while t.count < c.n {
        match r.below(12) {
            0..=2 => {
                let cc = r.below(10) as u8;
                let b = 8u32 << (cc % 5);
                let raw = (r.next() as u128) << 64 | r.next() as u128;
                let raw = match r.below(6) { 0 => 0, 1 => 1, 2 => !0, 3 => 1 << (b - 1), 4 => (1u128 << (b - 1)) - 1, _ => raw >> r.below(128) };
                let raw = if b == 128 { raw } else { raw & ((1u128 << b) - 1) };
                // sign extended
                let v = if b == 128 { raw as i128 } else if raw >> (b - 1) == 1 { raw as i128 - (1i128 << b) } else { raw as i128 };
                let p = pr(r);
                if r.chance(1, 4) { t.intc(cc + 16, v, raw, 128); } else if r.chance(1, 4) { t.fromext(cc, v, raw, p, rmany(r)); } else { t.intc(cc, v, raw, p); }
            }
            3 | 4 => {
                let m = match r.below(6) { 0 => 0, 1 => 1, 2 => (1 << 52) - 1, 3 => 1 << r.below(52), _ => r.next() & ((1 << 52) - 1) };
                let e = match r.below(6) { 0 => 0, 1 => 2047, 2 => 2046, 3 => 1, 4 => 1023, _ => r.below(2048) };
                let bits = (r.below(2) << 63) | e << 52 | m;
                let p = pr(r);
                if r.chance(1, 4) { t.f64c(bits, 128, true); } else if r.chance(1, 4) { t.fromext(10, 0, bits as u128, p, rmany(r)); } else { t.f64c(bits, p, false); }
            }
            5 => {
                let m = match r.below(6) { 0 => 0, 1 => 1, 2 => (1 << 23) - 1, 3 => 1 << r.below(23), _ => r.next() & ((1 << 23) - 1) };
                let e = match r.below(5) { 0 => 0, 1 => 255, 2 => 254, 3 => 1, _ => r.below(256) };
                let bits = (r.below(2) << 31 | e << 23 | m) as u32;
                let p = pr(r);
                if r.chance(1, 4) { t.f32c(bits, 128, true); } else if r.chance(1, 4) { t.fromext(11, 0, bits as u128, p, rmany(r)); } else { t.f32c(bits, p, false); }
            }
            6 => { // words, normalized or not
                let l = r.below(5) as usize;
                let b = if l == 0 { 0 } else { r.below(l as u64 * 64 + 1) as usize };
                let mut m = if b == 0 { vec![] } else { nat(r, b) };
                m.resize(l, 0);
                let e = match r.below(4) { 0 => EMIN + r.range(0, 200), 1 => EMAX, 2 => EMIN, _ => exponent(r, Ec::Mid) };
                t.fwords(&m, r.chance(1, 2), e);
            }
            7 | 8 => { // raw parts
                let f = anyfin(r);
                let n = f.n();
                let (mut m, mut nn, mut e) = (f.m.clone(), n, f.e);
                match r.below(6) {
                    0 => nn = r.below(m.len() as u64 * 64 + 3) as usize,
                    1 => e = exponent(r, Ec::Low),
                    2 => { if m.len() > 1 { let l = m.len(); m[l - 1] = 0; nn = if r.chance(1, 2) { bits(&m) } else { n } } }
                    3 => { m = vec![]; nn = r.below(2) as usize; }
                    4 => nn = r.pick(&[usize::MAX, 0, 1, 64]),
                    _ => {}
                }
                let a = t.raw(&m, nn, f.neg, e, f.ix);
                if r.chance(1, 2) { t.acc(a); }
            }
            9 => {
                let a = anynum(t, r);
                t.acc(a);
                let e = match r.below(5) { 0 => EMIN, 1 => EMAX, 2 => EMIN + r.range(0, 300), _ => exponent(r, Ec::Mid) };
                let b = t.sete(a, e);
                t.acc(b);
                let d = t.sign(b, r.below(6) as u8);
                t.acc(d);
            }
            10 => { let c = r.below(8) as u8; let p = if r.chance(1, 20) { 0 } else { pr(r) }; if p < (1 << 36) || p > (1 << 49) { let w = r.pick(&[0, 1, !0, 1 << 63, 5]); let a = t.make(c, p, w); t.acc(a); t.pred(a); } }
            _ => { // results of operations taken apart and rebuilt
                let (a, b, p) = twosomes(t, r);
                let x = t.op2(r.pick(&[1, 2, 3, 4]), a, b, p, rmany(r));
                t.acc(x); t.pred(x);
                let y = t.sign(x, r.below(6) as u8);
                t.acc(y);
            }
        }
    }
}

// ------------------------------------------------------------------ text
pub fn dec(n: &[u64]) -> String {
    let mut v = trim(n.to_vec());
    let mut parts = vec![];
    while !v.is_empty() {
        let mut rem = 0u128;
        for w in v.iter_mut().rev() { let x = (rem << 64) | *w as u128; *w = (x / 10_000_000_000_000_000_000) as u64; rem = x % 10_000_000_000_000_000_000; }
        parts.push(rem as u64);
        v = trim(v);
    }
    let mut s = String::new();
    for (i, p) in parts.iter().rev().enumerate() { if i == 0 { s += &p.to_string() } else { s += &format!("{:019}", p) } }
    if s.is_empty() { s.push('0') }
    s
}
pub fn npow(b: u64, k: usize) -> Nat { let mut r = vec![1]; let mut s = vec![b]; let mut k = k; while k > 0 { if k & 1 == 1 { r = nmul(&r, &s) } s = nmul(&s, &s); k >>= 1; } r }
fn digits(r: &Rng, rdx: u64, n: usize) -> Vec<u8> {
    let mut d = vec![];
    let mode = r.below(5);
    let mut run = 0; let mut cur = 0;
    for _ in 0..n {
        d.push(match mode {
            0 => (rdx - 1) as u8,
            1 => if r.chance(1, 12) { r.below(rdx) as u8 } else { 0 },
            2 => { if run == 0 { run = 1 + r.below(30); cur = r.pick(&[0, rdx - 1, 1, rdx / 2]) as u8 } run -= 1; cur }
            _ => r.below(rdx) as u8,
        })
    }
    d
}
const DCH: &[u8] = b"0123456789abcdef";
fn inradix(mut v: u64, rdx: u64) -> String { let mut s = vec![]; loop { s.push(DCH[(v % rdx) as usize]); v /= rdx; if v == 0 { break } } s.reverse(); String::from_utf8(s).unwrap() }
pub const RD: [u64; 4] = [2, 8, 10, 16];
fn expo(r: &Rng, c: u8, x: i64) -> String {
    let mark = if c == 3 { r.pick(&["_e", "_E"]) } else { r.pick(&["e", "E"]) };
    let sg = if x < 0 { "-" } else { r.pick(&["", "+"]) };
    format!("{}{}{}{}", mark, sg, r.pick(&["", "", "0", "000"]), inradix(x.unsigned_abs(), RD[c as usize]))
}
fn textnum(r: &Rng, c: u8, p: usize) -> String {
    let rdx = RD[c as usize];
    let perdig = [1.0, 3.0, 3.33, 4.0][c as usize];
    let n = match r.below(6) { 0 => 1 + r.below(4) as usize, 1 => (p as f64 / perdig) as usize + 1 + r.below(3) as usize, 2 => 1 + r.below(400) as usize, 3 => (2.0 * p as f64 / perdig) as usize + r.below(10) as usize + 1, _ => 1 + r.below(60) as usize };
    let d = digits(r, rdx, n);
    let mut s: String = d.iter().map(|&x| { let ch = DCH[x as usize] as char; if r.chance(1, 5) { ch.to_ascii_uppercase() } else { ch } }).collect();
    let lim = match c { 0 => 2147483648i64, 1 => 715827882, 2 => 646456993, _ => 536870912 };
    if r.chance(1, 3) { s = format!("{}{}", "0".repeat(1 + r.below(5) as usize), s) }
    let pt = r.below(s.len() as u64 + 2) as usize;
    if pt <= s.len() { s.insert(pt, '.') }
    if r.chance(1, 8) { s += &"0".repeat(r.below(70) as usize) }
    let x = match r.below(12) {
        0 => None,
        1 => Some(r.range(-5, 5)),
        2 => Some(lim - r.range(-3, 3) - pt.min(s.len()) as i64),
        3 => Some(-lim + r.range(-3, 3) - pt.min(s.len()) as i64),
        4 => Some(-lim - r.range(-40, p as i64 / perdig as i64 + 5)),
        5 => Some(r.range(-lim, lim)),
        6 => Some(r.pick(&[2147483647, -2147483648, 2147483648, -2147483649, 4294967296, -4294967296, i64::MAX, i64::MIN + 1, 99999999999])),
        7 => Some(r.range(-100000, 100000)),
        8 => { // more digits than any exponent has, the first of which make one
            let q = r.pick(&[2147483648i64, lim, 1 << 31, lim / rdx as i64]) + r.range(-3, 40 + n as i64);
            let k = 1 + r.below(if c == 0 { 25 } else { 7 }) as u32;
            let f = (rdx as i64).saturating_pow(k);
            let v = q.saturating_mul(f).saturating_add(r.below(f as u64) as i64);
            Some(if r.chance(2, 3) { -v } else { v })
        }
        _ => Some(r.range(-400, 400)),
    };
    if let Some(x) = x { s += &expo(r, c, x) }
    let sg = r.pick(&["", "+", "-"]);
    format!("{}{}", sg, s)
}
fn junk(r: &Rng) -> String {
    let words = ["", "+", "-", "inf", "Inf", "-INF", "+inf", "nan", "NaN", "-nan", "in", "i", "na", "infinity", "e5", ".e5", ".", "-.", "+-1", "--1", "1e", "1e+", "1e-", "1e+-5", "1_e", "1_", "_e1", "0x10", "1..2", "1.2.3", " 1", "1 ", "é", "1é", "٣", "1e5e5",
        "0", "-0", "0.", ".0", "-.0", "00", "0e0", "0e5", "-0e-5", "0e99999999999", "0.0e9999999999", "-0.00e-99999999999", "000.000e2147483648", ".e", "1e99999999999999999999999999", "-1e-99999999999999999999999", "9z", "g", "1g", "0.1e2f", "1E5_", "1.5_e1", "f", "F.8_e-1", "8", "2", "12", "129"];
    if r.chance(4, 5) { return r.pick(&words).to_string() }
    let al: Vec<char> = "0123456789abcdefABCDEF+-._einfaNé ".chars().collect();
    if r.chance(1, 2) { let s: Vec<char> = r.pick(&["01e.+-", "19.e-", "inf+-", "na-", "07_e.", "fFe_.+"]).chars().collect(); return (0..3 + r.below(6)).map(|_| r.pick(&s)).collect() }
    (0..r.below(12)).map(|_| r.pick(&al)).collect()
}
/// a decimal text on a rounding boundary of p bits, or next to one
fn dectie(r: &Rng, p: usize) -> String {
    let mut m = nat(r, p + 1);
    if r.chance(2, 3) { m[0] |= 1 }
    let k = r.range(-80, 80) - if r.chance(1, 3) { p as i64 } else { 0 };
    let (mut s, x) = if k >= 0 { (dec(&nshl(&m, k as usize)), 0) } else { (dec(&nmul(&m, &npow(5, (-k) as usize))), k) };
    let mut x = x;
    match r.below(4) {
        0 => { let l = r.below(40) as usize; s += &"0".repeat(l); s.push('1'); x -= l as i64 + 1; }
        1 => { let v = { // one unit less, with a tail of nines
                 let mut b: Vec<u8> = s.into_bytes(); let mut i = b.len(); while i > 0 { i -= 1; if b[i] == b'0' { b[i] = b'9' } else { b[i] -= 1; break } } String::from_utf8(b).unwrap() };
               let l = r.below(40) as usize; s = v + &"9".repeat(l); x -= l as i64; }
        _ => {}
    }
    let sg = r.pick(&["", "-"]);
    match r.below(3) {
        0 => format!("{}{}e{}", sg, s, x),
        1 => { let i = r.below(s.len() as u64 + 1) as usize; x += (s.len() - i) as i64; let mut u = s.clone(); u.insert(i, '.'); format!("{}{}e{}", sg, u, x) }
        _ => if x < 0 && (-x) as usize <= s.len() + 50 { let n = (-x) as usize; let u = if n >= s.len() { "0".repeat(n - s.len() + 1) + &s } else { s.clone() }; let i = u.len() - n; format!("{}{}.{}", sg, &u[..i], &u[i..]) } else { format!("{}{}e{}", sg, s, x) },
    }
}
pub fn textp(r: &Rng, c: &Cfg) -> usize { match r.below(if c.thorough { 40 } else { 80 }) { 0 => 1000 + r.below(2000) as usize, 1..=3 => 300 + r.below(400) as usize, _ => prec(r, 4) } }
/// every text of up to n characters of a small alphabet, in every radix
fn shorts(t: &mut Tr, r: &Rng, c: &Cfg, n: u32) {
    let mut i = 0u64;
    for rx in 0..4u8 {
        let al: Vec<char> = match rx { 0 => "01e.+-n2_", 1 => "07e.+-i8n", 2 => "019e.+-a_", _ => "0fe_.+-g1" }.chars().collect();
        for len in 0..=n {
            for k in 0..(al.len() as u64).pow(len) {
                i += 1;
                if i % c.shards != c.shard { continue }
                let (mut k, mut s) = (k, String::new());
                for _ in 0..len { s.push(al[(k % al.len() as u64) as usize]); k /= al.len() as u64; }
                t.parse(&s, rx, r.pick(&[64, 64, 1, 128, usize::MAX]), rmany(r));
            }
        }
    }
}
pub fn text(t: &mut Tr, r: &Rng, c: &Cfg) {
    shorts(t, r, c, if c.thorough { 5 } else { 3 });
    while t.count < c.n {
        let p = textp(r, c);
        let rx = r.pick(&[0u8, 1, 2, 2, 2, 3]);
        let auto = r.chance(1, 5);
        let pp = if auto { usize::MAX } else { p };
        match r.below(10) {
            0..=2 => { let s = textnum(r, rx, p); t.parse(&s, rx, pp, rmany(r)); if r.chance(1, 3) { t.parse(&s, rx, pp, rmany(r)); } if rx == 2 && r.chance(1, 4) { t.from_str(&s); } if rx == 2 && r.chance(1, 6) { t.parse_ext(&s, p, rmany(r)); } }
            3 | 4 => { let p = p.min(400); let s = dectie(r, (p + 63) / 64 * 64); let rm = rmany(r); t.parse(&s, 2, p, rm); t.parse(&s, 2, p, rmany(r)); }
            5 => { let s = junk(r); t.parse(&s, rx, pp, rmany(r)); if r.chance(1, 2) { t.from_str(&s); } }
            6 => { // binary radix ties
                let c = r.pick(&[0u8, 1, 3]);
                let rdx = RD[c as usize];
                let w = (p + 63) / 64 * 64;
                if w > 500 { continue }
                let mut m = nat(r, w + 1); m[0] |= 1;
                if r.chance(1, 3) { let z = r.below(80) as usize; m = nshl(&m, z); if r.chance(1, 2) { m[0] |= 1; } }
                let b = match c { 0 => 1, 1 => 3, _ => 4 };
                let m = nshl(&m, r.below(4) as usize);
                let n = (bits(&m) + b - 1) / b;
                let mut d: Vec<u8> = (0..n).map(|i| { let mut x = 0u8; for j in 0..b { let k = i * b + j; if k / 64 < m.len() && (m[k / 64] >> (k % 64)) & 1 == 1 { x |= 1 << j } } x }).rev().collect();
                let lead = r.below(3) as usize; let mut l = vec![0u8; lead]; l.append(&mut d); d = l;
                let lim = 2147483648i64 / b as i64;
                let e = match r.below(4) { 0 => -lim + r.range(-(w as i64), 5), 1 => lim - r.range(-2, 2), _ => r.range(-100, 100) };
                let sg = r.chance(1, 2);
                t.from_radix(sg, &d, e.clamp(EMIN, EMAX), c, w, rmany(r));
                let s: String = d.iter().map(|&x| DCH[x as usize] as char).collect();
                let s = format!("{}0.{}{}", if sg { "-" } else { "" }, s, expo(r, c, e));
                t.parse(&s, c, w, rmany(r));
                let _ = rdx;
            }
            _ => { // digits
                let rdx = RD[rx as usize];
                let n = r.pick(&[0u64, 1, 2, 20, 64, 65, 128, 200]) as usize + r.below(3) as usize;
                let mut d = digits(r, rdx, n);
                if r.chance(1, 4) { let mut z = vec![0u8; 1 + r.below(70) as usize]; z.append(&mut d); d = z; }
                if r.chance(1, 12) && !d.is_empty() { let i = r.below(d.len() as u64) as usize; d[i] = r.pick(&[rdx as u8, 255, 16, 10, 48]); }
                let lim = match rx { 0 => 2147483647i64, 1 => 715827882, 2 => 646456993, _ => 536870911 };
                let e = match r.below(8) { 0 => r.pick(&[EMIN, EMAX, 0, 1, -1]), 1 => lim + r.range(-2, 2), 2 => -lim - r.range(-2, 70), 3 => r.range(-lim, lim), _ => r.range(-300, 300) };
                t.from_radix(r.chance(1, 2), &d, e.clamp(EMIN, EMAX), rx, pp, rmany(r));
            }
        }
        if r.chance(1, 60) { t.cc = Consts::new().unwrap(); }
    }
}

/// numbers whose digits are awkward
fn fmtnum(t: &mut Tr, r: &Rng, c: &Cfg) -> u8 {
    let w = match r.below(if c.thorough { 60 } else { 100 }) { 0 => 20 + r.below(60) as usize, 1..=4 => 5 + r.below(12) as usize, _ => words(r, 4) };
    match r.below(14) {
        0 => anynum(t, r),
        12 => { // m / 2^j whose digits are one more than get printed, the last one a 5
            let w = w.min(6);
            let n = w * 64 * 30103 / 100000 + 1;
            let j = 1 + r.below(3 + r.below(20 * w as u64 + 1)) as usize;
            let q = bits(&npow(5, j));
            let hi = (64 * w).min(bits(&npow(10, n + r.pick(&[0usize, 1, 1, 1, 1, 2]))).saturating_sub(q) + 1);
            if hi < 2 { return anynum(t, r) }
            let mut m = nat(r, hi - r.below(hi.min(4) as u64 - 1) as usize);
            m[0] |= 1;
            t.nat(&m, r.chance(1, 2), -(j as i64), w)
        }
        1 => { let f = fin(r, w, Ec::Sub); t.load(&f) }
        2 => { let mut f = fin(r, w, Ec::Small); f.e = r.range(-80, 64 * w as i64 + 80); t.load(&f) }
        3 => { // decimal runs: a * 10^k + b
            let k = 1 + r.below(if w > 4 { 40 * w as u64 } else { 60 }) as usize;
            let (a, b) = (nat(r, 1 + r.below(60) as usize), nat(r, 1 + r.below(30) as usize));
            let mut m = nmul(&a, &npow(10, k));
            m = if r.chance(1, 3) { ndec(&m) } else { nadd(&m, &b) };
            if bits(&m) > 64 * 80 { return anynum(t, r) }
            t.nat(&m, r.chance(1, 2), 0, w)
        }
        4 => { let k = r.below(60) as usize; let m = npow(10, k); t.nat(&m, r.chance(1, 2), r.pick(&[0, 0, -1, 1]), w) }
        5 => { // next to the change of the power of ten in the working precision
            let p = 64 * w as i64;
            let mut f = fin(r, w, Ec::Small);
            let n = p * 30103 / 100000 + 1;
            f.e = (n * 33220 / 10000 + 1 + 64 + 63) / 64 * 64 + r.range(-6, 10);
            t.load(&f)
        }
        6 => { let f = fin(r, w, Ec::Low); t.load(&f) }
        7 => { let f = fin(r, w, Ec::High); t.load(&f) }
        8 => { let f = fin(r, w, Ec::Wide); t.load(&f) }
        9 => { // just above or below a power of ten below one
            let k = 1 + r.below(40) as usize;
            let q = 64 * w + 200;
            let mut f = Fin { m: vec![], neg: r.chance(1, 2), e: 0, ix: false };
            let x = nshl(&[1], q);
            // q-bit quotient by long division through BigFloat
            let rm = rmany(r);
            let xx = Fin::from_nat(&x, false, -(q as i64), 0);
            let d = Fin::from_nat(&npow(10, k), false, 0, 0);
            let p = 64 * w;
            if let Some(Some(g)) = t.helper(|_| { let v = bf(&xx).div(&bf(&d), p, rm); fin_of(&v) }) { f.m = g.m; f.e = g.e; t.load(&f) } else { anynum(t, r) }
        }
        _ => { let f = fin(r, w, Ec::Mid); t.load(&f) }
    }
}
pub fn fmt(t: &mut Tr, r: &Rng, c: &Cfg) {
    while t.count < c.n {
        let a = fmtnum(t, r, c);
        if r.chance(1, 40) { let d = t.make(0, 0, 0); let d = if r.chance(1, 2) { t.sign(d, 0) } else { d }; let x = r.pick(&[0u8, 1, 2, 3]); t.to_radix(d, x, rmany(r)); t.format(d, x, rmany(r)); }
        let v = t.val(a);
        let p = v.mantissa_max_bit_len().unwrap_or(64);
        let n = if p > 600 { 1 } else { 2 };
        for _ in 0..n {
            let x = r.pick(&[0u8, 1, 2, 2, 2, 3]);
            let rm = rmany(r);
            match r.below(8) {
                0..=3 => { if let Some(s) = t.format(a, x, rm) { if r.chance(1, 3) && s.len() < 3000 { t.parse(&s, x, p, rmany(r)); } } }
                4 | 5 => t.to_radix(a, x, rm),
                6 => t.display(a, x),
                _ => { let m = rmany(r); t.to_radix(a, x, m); t.format(a, x, m); }
            }
        }
        if r.chance(1, 60) { t.cc = Consts::new().unwrap(); }
    }
}
pub fn serde_(t: &mut Tr, r: &Rng, c: &Cfg) {
    while t.count < c.n {
        match r.below(6) {
            0..=3 => {
                let a = fmtnum(t, r, c);
                if let Some(s) = t.ser(a) { let s = s[1..s.len() - 1].to_string(); t.deser(&s); }
            }
            4 => { let s = if r.chance(1, 2) { textnum(r, 2, 64) } else { junk(r) }; if !s.contains(['"', '\\']) { t.deser(&s); } }
            _ => {
                let m = match r.below(4) { 0 => 0, 1 => !0, 2 => 1, _ => r.next() } & ((1 << 52) - 1);
                let e = match r.below(5) { 0 => 0, 1 => 2047, 2 => 2046, 3 => 1, _ => r.below(2048) };
                let b = (r.below(2) << 63) | e << 52 | m;
                let k = r.below(4) as u8;
                let u = match k { 0 => r.pick(&[0, 1, !0, 1 << 63, r.next()]), 1 => b, 2 => r.pick(&[0, 1, !0, 1 << 63, r.next(), i64::MAX as u64]), _ => ((b >> 32) as u32) as u64 };
                t.deser_num(k, u);
            }
        }
    }
}
pub fn random(t: &mut Tr, r: &Rng, c: &Cfg) {
    while t.count < c.n {
        let p = match r.below(12) { 0 => r.pick(&HUGEP), 1 => r.pick(&[0, 1, 63, 65]), 2 => 64 * (10 + r.below(60) as usize), _ => prec(r, 4) };
        if p > 1 << 36 && p < 1 << 49 { continue }
        let lo = match r.below(6) { 0 => EMIN, 1 => EMAX, 2 => EMIN + r.range(0, 200), _ => { exponent(r, Ec::Wide) } };
        let hi = match r.below(6) { 0 => EMAX, 1 => lo, 2 => (lo + 1).min(EMAX), 3 => EMIN, 4 => exponent(r, Ec::Wide), _ => (lo + r.range(0, 1000)).min(EMAX) };
        let n = if p < 1000 { 3 } else { 1 };
        for _ in 0..n { t.random(p, lo, hi); }
    }
}
