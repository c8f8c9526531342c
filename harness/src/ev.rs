//! Events: one observed call of the library, packed into one hexadecimal number that the
//! specification decodes.
use astro_float_num::{BigFloat, Error, Sign};

#[derive(Clone, Default)]
pub struct Ev {
    pub op: u8, pub rm: u8, pub dst: u8, pub a: u8, pub b: u8, pub c: u8, pub k: u8, pub fl: u8, pub sl: u8,
    pub p: u64, pub e: i64, pub pr: u64, pub n: u64, pub x: i64,
    pub m: Vec<u8>, pub y: Vec<u8>, pub z: Vec<u8>,
}

pub const NEG: u8 = 1;
pub const IX: u8 = 2;
pub const MUT: u8 = 4;
pub const FAULT: u8 = 8;
pub const INNEG: u8 = 16;
pub const INIX: u8 = 32;

pub fn errcode(e: Error) -> i64 {
    match e {
        Error::ExponentOverflow(Sign::Pos) => 1,
        Error::ExponentOverflow(Sign::Neg) => 2,
        Error::DivisionByZero => 3,
        Error::InvalidArgument => 4,
        Error::MemoryAllocation => 5,
    }
}

pub fn le(words: &[u64]) -> Vec<u8> {
    let mut v: Vec<u8> = words.iter().flat_map(|w| w.to_le_bytes()).collect();
    while v.last() == Some(&0) { v.pop(); }
    v
}
pub fn le128(v: u128) -> Vec<u8> {
    let mut v: Vec<u8> = v.to_le_bytes().to_vec();
    while v.last() == Some(&0) { v.pop(); }
    v
}
/// bytes with a closing marker so that the length is kept
pub fn text(s: &[u8]) -> Vec<u8> { let mut v = s.to_vec(); v.push(1); v }

/// Everything observable about a number.
#[derive(Clone, PartialEq, Debug)]
pub struct Rep { pub k: u8, pub neg: bool, pub ix: bool, pub m: Vec<u64>, pub e: i64, pub p: u64, pub n: u64 }

pub fn rep(v: &BigFloat) -> Rep {
    if v.is_nan() {
        Rep { k: 2, neg: false, ix: false, m: vec![], e: v.err().map(errcode).unwrap_or(0), p: 0, n: 0 }
    } else if v.is_inf() {
        Rep { k: 1, neg: v.is_inf_neg(), ix: false, m: vec![], e: 0, p: 0, n: 0 }
    } else {
        let (m, n, s, e, ix) = v.as_raw_parts().unwrap();
        Rep { k: 0, neg: s == Sign::Neg, ix, m: m.to_vec(), e: e as i64, p: m.len() as u64 * 64, n: n as u64 }
    }
}

impl Ev {
    pub fn set_rep(&mut self, r: &Rep) {
        self.k = r.k;
        if r.neg { self.fl |= NEG }
        if r.ix { self.fl |= IX }
        self.e = r.e; self.pr = r.p; self.n = r.n;
        self.m = le(&r.m);
    }
    pub fn hex(&self) -> String {
        let mut b: Vec<u8> = vec![self.op, self.rm, self.dst, self.a, self.b, self.c, self.k, self.fl, self.sl, 0, 0, 0, 0, 0, 0, 0];
        let bias = |v: i64| (v as i128 + (1i128 << 63)) as u64;
        for w in [self.p, bias(self.e), self.pr, self.n, bias(self.x)] { b.extend(w.to_le_bytes()); }
        for v in [&self.m, &self.y, &self.z] {
            let l = v.len() as u32;
            assert!(l < 1 << 24);
            b.extend(&l.to_le_bytes()[..3]);
            b.extend(v);
        }
        while b.len() > 1 && *b.last().unwrap() == 0 { b.pop(); }
        let mut s = String::with_capacity(b.len() * 2 + 2);
        s.push_str("0x");
        for (i, x) in b.iter().rev().enumerate() {
            if i == 0 { s.push_str(&format!("{:x}", x)) } else { s.push_str(&format!("{:02x}", x)) }
        }
        s
    }
}
