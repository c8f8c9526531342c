//! The tracer: runs a call, records what was observed, never lets a panic escape.
use crate::ev::*;
use crate::gen::*;
use astro_float_num::*;
use std::fs::File;
use std::io::{Seek, SeekFrom, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};

pub static STARTED: AtomicU64 = AtomicU64::new(0);
pub fn now() -> u64 {
    std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_millis() as u64
}

/// ends the process with 77 when a call takes too long
pub fn watch() {
    std::thread::spawn(|| loop {
        std::thread::sleep(std::time::Duration::from_millis(200));
        let s = STARTED.load(Ordering::SeqCst);
        if s != 0 && now() > s + 25000 { std::process::exit(77) }
    });
}

pub enum Out { Num(BigFloat), Err(Error), Int(i64), NumZ(BigFloat, i64), Text(Vec<u8>), NumText(BigFloat, Vec<u8>), IntText(i64, Vec<u8>), Digits(bool, Vec<u8>, i64) }
pub const RDX: [Radix; 4] = [Radix::Bin, Radix::Oct, Radix::Dec, Radix::Hex];

pub const RMS: [RoundingMode; 7] = [RoundingMode::ToEven, RoundingMode::Up, RoundingMode::Down, RoundingMode::ToZero, RoundingMode::FromZero, RoundingMode::ToOdd, RoundingMode::None];
pub fn rmcode(r: RoundingMode) -> u8 {
    match r { RoundingMode::None => 1, RoundingMode::Up => 2, RoundingMode::Down => 4, RoundingMode::ToZero => 8, RoundingMode::FromZero => 16, RoundingMode::ToEven => 32, RoundingMode::ToOdd => 64 }
}
pub fn rmany(r: &Rng) -> RoundingMode { if r.chance(1, 25) { RoundingMode::None } else { RMS[r.below(6) as usize] } }

pub struct Tr {
    out: File,
    pend: File,
    pub regs: Vec<BigFloat>,
    pub cc: Consts,
    pub count: u64,
    pub fault: bool,
    /// memo slot given to the next calls
    pub slot: u8,
    /// fail this allocation of the next call (and the later ones)
    pub arm: Option<(i64, bool)>,
    /// run calls on a new thread
    pub thread: bool,
    /// allocations made by the last call
    pub allocs: u64,
    nextr: u8,
}

impl Tr {
    pub fn new(path: &str) -> Tr {
        Tr {
            out: File::create(path).unwrap(), pend: File::create(format!("{}.pending", path)).unwrap(),
            regs: (0..256).map(|_| BigFloat::nan(None)).collect(), cc: Consts::new().unwrap(), count: 0, fault: false, slot: 0, arm: None, thread: false, allocs: 0, nextr: 0,
        }
    }
    pub fn put(&mut self, ev: &Ev) {
        let mut s = ev.hex();
        s.push('\n');
        self.out.write_all(s.as_bytes()).unwrap();
        self.count += 1;
    }
    /// registers are handed out in turn; the last 200 results stay usable
    pub fn fresh(&mut self) -> u8 { let r = self.nextr; self.nextr = (self.nextr + 1) % 200; r }

    fn pending(&mut self, ev: &Ev) {
        // what to report should the call not come back
        let mut s = ev.clone();
        s.k = 4;
        let mut line = s.hex();
        line.push('\n');
        self.pend.seek(SeekFrom::Start(0)).unwrap();
        self.pend.set_len(0).unwrap();
        self.pend.write_all(line.as_bytes()).unwrap();
    }
    pub fn call<F: FnOnce(&mut Vec<BigFloat>, &mut Consts) -> Out + Send>(&mut self, mut ev: Ev, f: F) -> u8 {
        if ev.sl == 0 { ev.sl = self.slot }
        if self.fault { ev.fl |= FAULT }        // an abort has to be blamed on the fault
        self.pending(&ev);
        ev.fl &= !FAULT;
        let before = [rep(&self.regs[ev.a as usize]), rep(&self.regs[ev.b as usize]), rep(&self.regs[ev.c as usize])];
        STARTED.store(now(), Ordering::SeqCst);
        let (regs, cc, arm) = (&mut self.regs, &mut self.cc, self.arm);
        let body = move || {
            crate::alloc::clear();
            if let Some((n, st)) = arm { crate::alloc::arm(n, st) }
            let r = catch_unwind(AssertUnwindSafe(|| f(regs, cc)));
            crate::alloc::disarm();
            (r, crate::alloc::failed(), crate::alloc::count())
        };
        let (res, failed, allocs) = if self.thread {
            std::thread::scope(|s| std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, body).unwrap().join().unwrap())
        } else { body() };
        STARTED.store(0, Ordering::SeqCst);
        self.allocs = allocs;
        if self.fault && failed { ev.fl |= FAULT }
        if before != [rep(&self.regs[ev.a as usize]), rep(&self.regs[ev.b as usize]), rep(&self.regs[ev.c as usize])] { ev.fl |= MUT }
        self.finish(ev, res)
    }
    fn finish(&mut self, mut ev: Ev, res: std::thread::Result<Out>) -> u8 {
        let dst = ev.dst as usize;
        match res {
            Ok(Out::Num(v)) => { ev.set_rep(&rep(&v)); self.regs[dst] = v; }
            Ok(Out::NumZ(v, z)) => { ev.set_rep(&rep(&v)); ev.y = vec![z as u8]; self.regs[dst] = v; }
            Ok(Out::NumText(v, t)) => { ev.set_rep(&rep(&v)); ev.z = text(&t); self.regs[dst] = v; }
            Ok(Out::Err(e)) => { ev.k = 6; ev.e = errcode(e); }
            Ok(Out::Int(i)) => { ev.k = 7; ev.e = i; }
            Ok(Out::Text(t)) => { ev.k = 8; ev.z = text(&t); }
            Ok(Out::IntText(i, t)) => { ev.k = 8; ev.e = i; ev.z = text(&t); }
            Ok(Out::Digits(neg, d, e)) => { ev.k = 8; ev.e = e; ev.z = text(&d); if neg { ev.fl |= NEG } }
            Err(_) => { ev.k = 3; self.cc = Consts::new().unwrap(); }
        }
        let _ = &mut self.pend.set_len(0);
        self.put(&ev);
        // a number of an enormous automatic precision is not kept
        if self.regs[dst].mantissa_max_bit_len().unwrap_or(0) > 1 << 23 {
            self.regs[dst] = NAN;
            let mut nan = Ev { op: 98, c: 0, dst: dst as u8, a: 255, b: 255, ..Default::default() };
            nan.set_rep(&rep(&NAN));
            self.put(&nan);
        }
        ev.dst
    }

    /// the calls at the same time, each on its own thread with its own cache, sharing the operands
    pub fn par(&mut self, calls: &[(crate::any::Call, u8)]) {
        if calls.is_empty() { return }
        let mut first = calls[0].0.ev(0);
        first.sl = calls[0].1;
        self.pending(&first);
        STARTED.store(now(), Ordering::SeqCst);
        let go = std::sync::Barrier::new(calls.len());
        let before: Vec<[Rep; 3]> = calls.iter().map(|(c, _)| [c.a, c.b, c.c].map(|r| rep(&self.regs[r as usize]))).collect();
        let regs = &self.regs;
        let res: Vec<std::thread::Result<Out>> = std::thread::scope(|s| {
            let h: Vec<_> = calls.iter().map(|(c, _)| {
                let go = &go;
                std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, move || {
                    let mut cc = Consts::new().unwrap();
                    go.wait();
                    catch_unwind(AssertUnwindSafe(|| c.run(regs, &mut cc)))
                }).unwrap()
            }).collect();
            h.into_iter().map(|h| h.join().unwrap()).collect()
        });
        STARTED.store(0, Ordering::SeqCst);
        let mutated: Vec<bool> = calls.iter().zip(before).map(|((c, _), b)| b != [c.a, c.b, c.c].map(|r| rep(&self.regs[r as usize]))).collect();
        for (((c, sl), r), m) in calls.iter().zip(res).zip(mutated) {
            let mut ev = c.ev(self.fresh());
            ev.sl = *sl;
            if m { ev.fl |= MUT }
            self.finish(ev, r);
        }
    }
    pub fn any(&mut self, c: &crate::any::Call) -> u8 {
        let ev = c.ev(self.fresh());
        let c = c.clone();
        self.call(ev, move |r, cc| c.run(r, cc))
    }

    /// a library call the driver needs to find an input; watched like the others (op 119)
    pub fn helper<T, F: FnOnce(&mut Consts) -> T>(&mut self, f: F) -> Option<T> {
        let mut line = (Ev { op: 119, a: 255, b: 255, c: 255, k: 4, ..Default::default() }).hex();
        line.push('\n');
        self.pend.seek(SeekFrom::Start(0)).unwrap();
        self.pend.set_len(0).unwrap();
        self.pend.write_all(line.as_bytes()).unwrap();
        STARTED.store(now(), Ordering::SeqCst);
        let mut cc = Consts::new().unwrap();
        let r = catch_unwind(AssertUnwindSafe(|| f(&mut cc))).ok();
        STARTED.store(0, Ordering::SeqCst);
        self.pend.set_len(0).unwrap();
        r
    }

    // ------------------------------------------------------------------ loading inputs
    pub fn load(&mut self, v: &Fin) -> u8 {
        let n = v.n();
        let ev = Ev { op: 94, dst: self.fresh(), a: 255, b: 255, c: 255, p: v.m.len() as u64 * 64, x: v.e, y: le(&v.m), z: le(&[n as u64]),
            fl: if v.neg { INNEG } else { 0 } | if v.ix { INIX } else { 0 }, ..Default::default() };
        let v = v.clone();
        self.call(ev, move |_, _| Out::Num(BigFloat::from_raw_parts(&v.m, n, if v.neg { Sign::Neg } else { Sign::Pos }, v.e as Exponent, v.ix)))
    }
    /// a special value (0: NaN without error, 1: +Inf, 2: -Inf, 3: NaN InvalidArgument, 4: NaN MemoryAllocation, 5: NaN DivisionByZero)
    pub fn load_special(&mut self, k: u8) -> u8 {
        let ev = Ev { op: 98, c: k, dst: self.fresh(), a: 255, b: 255, ..Default::default() };
        self.call(ev, move |_, _| Out::Num(match k {
            0 => NAN, 1 => INF_POS, 2 => INF_NEG,
            3 => BigFloat::nan(Some(Error::InvalidArgument)), 4 => BigFloat::nan(Some(Error::MemoryAllocation)),
            _ => BigFloat::nan(Some(Error::DivisionByZero)),
        }))
    }
    pub fn nat(&mut self, n: &[u64], neg: bool, x: i64, w: usize) -> u8 { let f = Fin::from_nat(n, neg, x, w); self.load(&f) }

    // ------------------------------------------------------------------ operations
    fn ev(&mut self, op: u8, a: u8, b: u8, p: usize, rm: RoundingMode) -> Ev {
        Ev { op, rm: rmcode(rm), dst: self.fresh(), a, b, c: 255, p: p as u64, ..Default::default() }
    }
    pub fn op2(&mut self, op: u8, a: u8, b: u8, p: usize, rm: RoundingMode) -> u8 { self.op2s(op, a, b, p, rm, 0) }
    pub fn op2s(&mut self, op: u8, a: u8, b: u8, p: usize, rm: RoundingMode, sl: u8) -> u8 {
        let mut ev = self.ev(op, a, b, p, rm);
        ev.sl = sl;
        self.call(ev, move |r, cc| { let (x, y) = (&r[a as usize], &r[b as usize]); Out::Num(apply2(op, x, y, p, rm, cc)) })
    }
    pub fn op1(&mut self, op: u8, a: u8, p: usize, rm: RoundingMode) -> u8 { self.op1s(op, a, p, rm, 0) }
    pub fn op1s(&mut self, op: u8, a: u8, p: usize, rm: RoundingMode, sl: u8) -> u8 {
        let mut ev = self.ev(op, a, 255, p, rm);
        ev.sl = sl;
        self.call(ev, move |r, cc| { let x = &r[a as usize]; Out::Num(apply1(op, x, p, rm, cc)) })
    }
    pub fn powi(&mut self, a: u8, n: usize, p: usize, rm: RoundingMode) -> u8 {
        let mut ev = self.ev(32, a, 255, p, rm);
        ev.y = le(&[n as u64]);
        self.call(ev, move |r, _| Out::Num(r[a as usize].powi(n, p, rm)))
    }
    pub fn setp(&mut self, a: u8, p: usize, rm: RoundingMode) -> u8 {
        let ev = self.ev(20, a, 255, p, rm);
        self.call(ev, move |r, _| { let mut x = r[a as usize].clone(); match x.set_precision(p, rm) { Ok(()) => Out::Num(x), Err(e) => Out::Err(e) } })
    }
    pub fn round(&mut self, a: u8, n: usize, rm: RoundingMode) -> u8 {
        let mut ev = self.ev(21, a, 255, 0, rm);
        ev.y = le(&[n as u64]);
        self.call(ev, move |r, _| Out::Num(r[a as usize].round(n, rm)))
    }
    pub fn tryp(&mut self, a: u8, p: usize, rm: RoundingMode, s: usize) -> u8 {
        let mut ev = self.ev(22, a, 255, p, rm);
        ev.x = s as i64;
        self.call(ev, move |r, _| { let mut x = r[a as usize].clone(); let ok = x.try_set_precision(p, rm, s); Out::NumZ(x, ok as i64) })
    }
    pub fn konst(&mut self, op: u8, p: usize, rm: RoundingMode) -> u8 {
        let ev = self.ev(op, 255, 255, p, rm);
        self.call(ev, move |_, cc| Out::Num(match op { 60 => cc.pi(p, rm), 61 => cc.e(p, rm), 62 => cc.ln_2(p, rm), _ => cc.ln_10(p, rm) }))
    }
    // ------------------------------------------------------------------ order
    fn ev3(&mut self, op: u8, a: u8, b: u8, c: u8) -> Ev { Ev { op, dst: self.fresh(), a, b, c, ..Default::default() } }
    pub fn order(&mut self, op: u8, a: u8, b: u8) -> u8 {
        let ev = self.ev3(op, a, b, 255);
        self.call(ev, move |r, _| {
            let (x, y) = (&r[a as usize], &r[b as usize]);
            match op {
                70 => Out::Int(x.cmp(y).map(|v| v.signum() as i64).unwrap_or(9)),
                71 => Out::Int(x.abs_cmp(y).map(|v| v.signum() as i64).unwrap_or(9)),
                72 => Out::Num(x.max(y)),
                73 => Out::Num(x.min(y)),
                _ => {
                    let mut m = 0i64;
                    for (i, v) in [x < y, x <= y, x > y, x >= y, x == y, x != y].iter().enumerate() { if *v { m |= 1 << i } }
                    let pc = PartialOrd::partial_cmp(x, y);
                    if pc != PartialOrd::partial_cmp(x, &y) || (x == y) != PartialEq::eq(x, &y) { m += 1 << 20 }
                    m += 64 * match pc { Some(std::cmp::Ordering::Less) => 0, Some(std::cmp::Ordering::Equal) => 1, Some(std::cmp::Ordering::Greater) => 2, None => 3 };
                    Out::Int(m)
                }
            }
        })
    }
    pub fn clamp(&mut self, a: u8, b: u8, c: u8) -> u8 {
        let ev = self.ev3(74, a, b, c);
        self.call(ev, move |r, _| Out::Num(r[a as usize].clamp(&r[b as usize], &r[c as usize])))
    }
    pub fn signum(&mut self, a: u8) -> u8 { let ev = self.ev3(75, a, 255, 255); self.call(ev, move |r, _| Out::Num(r[a as usize].signum())) }
    pub fn pred(&mut self, a: u8) -> u8 {
        let ev = self.ev3(76, a, 255, 255);
        self.call(ev, move |r, _| {
            let x = &r[a as usize];
            let mut m = 0i64;
            for (i, v) in [x.is_zero(), x.is_int(), x.is_subnormal(), x.is_positive(), x.is_negative(), x.is_inf(), x.is_inf_pos(), x.is_inf_neg(), x.is_nan(), x.inexact()].iter().enumerate() { if *v { m |= 1 << i } }
            use std::num::FpCategory::*;
            m += 1024 * match x.classify() { Nan => 0, Infinite => 1, Zero => 2, Subnormal => 3, Normal => 4 };
            m += 8192 * match x.sign() { None => 0, Some(Sign::Pos) => 1, Some(Sign::Neg) => 2 };
            Out::Int(m)
        })
    }

    // ------------------------------------------------------------------ conversions
    /// c: 0-4 signed 8..128 bits, 5-9 unsigned, +16: the From trait
    pub fn intc(&mut self, c: u8, v: i128, u: u128, p: usize) -> u8 {
        let signed = c % 16 < 5;
        let ev = Ev { op: 90, dst: self.fresh(), a: 255, b: 255, c, p: p as u64, y: le128(if signed { v.unsigned_abs() } else { u }), fl: if signed && v < 0 { INNEG } else { 0 }, ..Default::default() };
        self.call(ev, move |_, _| Out::Num(match c {
            0 => BigFloat::from_i8(v as i8, p), 1 => BigFloat::from_i16(v as i16, p), 2 => BigFloat::from_i32(v as i32, p), 3 => BigFloat::from_i64(v as i64, p), 4 => BigFloat::from_i128(v, p),
            5 => BigFloat::from_u8(u as u8, p), 6 => BigFloat::from_u16(u as u16, p), 7 => BigFloat::from_u32(u as u32, p), 8 => BigFloat::from_u64(u as u64, p), 9 => BigFloat::from_u128(u, p),
            16 => BigFloat::from(v as i8), 17 => BigFloat::from(v as i16), 18 => BigFloat::from(v as i32), 19 => BigFloat::from(v as i64), 20 => BigFloat::from(v),
            21 => BigFloat::from(u as u8), 22 => BigFloat::from(u as u16), 23 => BigFloat::from(u as u32), 24 => BigFloat::from(u as u64), _ => BigFloat::from(u),
        }))
    }
    pub fn f64c(&mut self, bits: u64, p: usize, from: bool) -> u8 {
        let ev = Ev { op: 91, dst: self.fresh(), a: 255, b: 255, c: if from { 16 } else { 0 }, p: p as u64, y: le(&[bits]), ..Default::default() };
        self.call(ev, move |_, _| Out::Num(if from { BigFloat::from(f64::from_bits(bits)) } else { BigFloat::from_f64(f64::from_bits(bits), p) }))
    }
    pub fn f32c(&mut self, bits: u32, p: usize, from: bool) -> u8 {
        let ev = Ev { op: 92, dst: self.fresh(), a: 255, b: 255, c: if from { 16 } else { 0 }, p: p as u64, y: le(&[bits as u64]), ..Default::default() };
        self.call(ev, move |_, _| Out::Num(if from { BigFloat::from(f32::from_bits(bits)) } else { BigFloat::from_f32(f32::from_bits(bits), p) }))
    }
    pub fn fwords(&mut self, m: &[u64], neg: bool, e: i64) -> u8 {
        let ev = Ev { op: 93, dst: self.fresh(), a: 255, b: 255, c: 255, x: e, y: le(m), z: le(&[m.len() as u64]), fl: if neg { INNEG } else { 0 }, ..Default::default() };
        let m = m.to_vec();
        self.call(ev, move |_, _| Out::Num(BigFloat::from_words(&m, if neg { Sign::Neg } else { Sign::Pos }, e as Exponent)))
    }
    /// raw parts, consistent or not
    pub fn raw(&mut self, m: &[u64], n: usize, neg: bool, e: i64, ix: bool) -> u8 {
        let ev = Ev { op: 94, dst: self.fresh(), a: 255, b: 255, c: 255, p: m.len() as u64 * 64, x: e, y: le(m), z: le(&[n as u64]),
            fl: if neg { INNEG } else { 0 } | if ix { INIX } else { 0 }, ..Default::default() };
        let m = m.to_vec();
        self.call(ev, move |_, _| Out::Num(BigFloat::from_raw_parts(&m, n, if neg { Sign::Neg } else { Sign::Pos }, e as Exponent, ix)))
    }
    pub fn acc(&mut self, a: u8) -> u8 {
        let ev = self.ev3(96, a, 255, 255);
        self.call(ev, move |r, _| {
            let x = &r[a as usize];
            let mut bad = 0i64;
            let v = match x.as_raw_parts() {
                Some((m, n, s, e, ix)) => {
                    if x.precision() != Some(n) || x.mantissa_max_bit_len() != Some(m.len() * 64) || x.mantissa_digits() != Some(m) || x.exponent() != Some(e)
                        || x.sign() != Some(s) || x.inexact() != ix || x.err().is_some() { bad |= 1 }
                    BigFloat::from_raw_parts(m, n, s, e, ix)
                }
                None => {
                    if x.precision().is_some() || x.mantissa_max_bit_len().is_some() || x.mantissa_digits().is_some() || x.exponent().is_some() || x.inexact() { bad |= 2 }
                    if !x.is_nan() && !x.is_inf() { bad |= 4 }
                    if x.is_nan() { BigFloat::nan(x.err()) } else if x.sign() == Some(Sign::Pos) { INF_POS } else { INF_NEG }
                }
            };
            Out::NumZ(v, bad)
        })
    }
    pub fn sete(&mut self, a: u8, e: i64) -> u8 {
        let mut ev = self.ev3(97, a, 255, 255);
        ev.x = e;
        self.call(ev, move |r, _| { let mut x = r[a as usize].clone(); x.set_exponent(e as Exponent); Out::Num(x) })
    }
    pub fn sign(&mut self, a: u8, c: u8) -> u8 {
        let mut ev = self.ev3(99, a, 255, 255);
        ev.c = c;
        self.call(ev, move |r, _| { let mut x = r[a as usize].clone(); match c { 0 => x.inv_sign(), 1 => x.set_sign(Sign::Pos), 2 => x.set_sign(Sign::Neg), 3 => x.set_inexact(true), 4 => x.set_inexact(false), _ => {} } Out::Num(x) })
    }
    pub fn make(&mut self, c: u8, p: usize, w: u64) -> u8 {
        let ev = Ev { op: 100, dst: self.fresh(), a: 255, b: 255, c, p: p as u64, y: le(&[w]), ..Default::default() };
        self.call(ev, move |_, _| Out::Num(match c {
            0 => BigFloat::new(p), 1 => BigFloat::max_value(p), 2 => BigFloat::min_value(p), 3 => BigFloat::min_positive(p), 4 => BigFloat::min_positive_normal(p),
            5 => BigFloat::default(), 6 => BigFloat::from_word(w, p), _ => BigFloat::nan(None),
        }))
    }
    /// through the FromExt trait: c 0-9 integers as in intc, 10 f64, 11 f32 (bits in u)
    pub fn fromext(&mut self, c: u8, v: i128, u: u128, p: usize, rm: RoundingMode) -> u8 {
        let signed = c < 5;
        let ev = Ev { op: 101, rm: rmcode(rm), dst: self.fresh(), a: 255, b: 255, c, p: p as u64, y: le128(if signed { v.unsigned_abs() } else { u }), fl: if signed && v < 0 { INNEG } else { 0 }, ..Default::default() };
        self.call(ev, move |_, cc| Out::Num(match c {
            0 => BigFloat::from_ext(v as i8, p, rm, cc), 1 => BigFloat::from_ext(v as i16, p, rm, cc), 2 => BigFloat::from_ext(v as i32, p, rm, cc), 3 => BigFloat::from_ext(v as i64, p, rm, cc), 4 => BigFloat::from_ext(v, p, rm, cc),
            5 => BigFloat::from_ext(u as u8, p, rm, cc), 6 => BigFloat::from_ext(u as u16, p, rm, cc), 7 => BigFloat::from_ext(u as u32, p, rm, cc), 8 => BigFloat::from_ext(u as u64, p, rm, cc), 9 => BigFloat::from_ext(u, p, rm, cc),
            10 => BigFloat::from_ext(f64::from_bits(u as u64), p, rm, cc), _ => BigFloat::from_ext(f32::from_bits(u as u32), p, rm, cc),
        }))
    }
    pub fn random(&mut self, p: usize, lo: i64, hi: i64) -> u8 {
        let ev = Ev { op: 110, dst: self.fresh(), a: 255, b: 255, c: 255, p: p as u64, x: lo, z: le(&[(hi + (1 << 40)) as u64]), ..Default::default() };
        self.call(ev, move |_, _| Out::Num(BigFloat::random_normal(p, lo as Exponent, hi as Exponent)))
    }

    // ------------------------------------------------------------------ text and digits
    fn evt(&mut self, op: u8, c: u8, p: usize, rm: RoundingMode, z: &[u8]) -> Ev {
        Ev { op, rm: rmcode(rm), dst: self.fresh(), a: 255, b: 255, c, p: p as u64, z: text(z), ..Default::default() }
    }
    pub fn parse(&mut self, s: &str, c: u8, p: usize, rm: RoundingMode) -> u8 {
        let ev = self.evt(80, c, p, rm, s.as_bytes());
        let s = s.to_string();
        self.call(ev, move |_, cc| Out::Num(BigFloat::parse(&s, RDX[c as usize], p, rm, cc)))
    }
    /// like parse through FromExt (same rule)
    pub fn parse_ext(&mut self, s: &str, p: usize, rm: RoundingMode) -> u8 {
        let ev = self.evt(80, 2, p, rm, s.as_bytes());
        let s = s.to_string();
        self.call(ev, move |_, cc| Out::Num(BigFloat::from_ext(s.as_str(), p, rm, cc)))
    }
    pub fn from_str(&mut self, s: &str) -> u8 {
        let ev = self.evt(84, 2, usize::MAX, RoundingMode::ToEven, s.as_bytes());
        let s = s.to_string();
        self.call(ev, move |_, _| match s.parse::<BigFloat>() { Ok(v) => Out::Num(v), Err(e) => Out::Err(e) })
    }
    pub fn from_radix(&mut self, neg: bool, d: &[u8], e: i64, c: u8, p: usize, rm: RoundingMode) -> u8 {
        let mut ev = self.evt(82, c, p, rm, d);
        ev.x = e;
        if neg { ev.fl |= INNEG }
        let d = d.to_vec();
        self.call(ev, move |_, cc| Out::Num(BigFloat::convert_from_radix(if neg { Sign::Neg } else { Sign::Pos }, &d, e as Exponent, RDX[c as usize], p, rm, cc)))
    }
    pub fn to_radix(&mut self, a: u8, c: u8, rm: RoundingMode) {
        let mut ev = self.ev(83, a, 255, 0, rm);
        ev.c = c;
        self.call(ev, move |r, cc| match r[a as usize].convert_to_radix(RDX[c as usize], rm, cc) { Ok((s, d, e)) => Out::Digits(s == Sign::Neg, d, e as i64), Err(e) => Out::Err(e) });
    }
    pub fn format(&mut self, a: u8, c: u8, rm: RoundingMode) -> Option<String> {
        let mut ev = self.ev(81, a, 255, 0, rm);
        ev.c = c;
        let mut res = None;
        self.call(ev, |r, cc| match r[a as usize].format(RDX[c as usize], rm, cc) { Ok(s) => { res = Some(s.clone()); Out::Text(s.into_bytes()) } Err(e) => Out::Err(e) });
        res
    }
    pub fn display(&mut self, a: u8, c: u8) {
        let mut ev = self.ev(85, a, 255, 0, RoundingMode::ToEven);
        ev.c = c;
        self.call(ev, move |r, _| { let x = &r[a as usize]; Out::Text(match c { 0 => format!("{:b}", x), 1 => format!("{:o}", x), 2 => format!("{}", x), _ => format!("{:X}", x) }.into_bytes()) });
    }
    pub fn ser(&mut self, a: u8) -> Option<String> {
        let ev = self.ev(86, a, 255, 0, RoundingMode::ToEven);
        let mut res = None;
        self.call(ev, |r, _| match serde_json::to_string(&r[a as usize]) {
            Ok(s) if s.len() >= 2 && s.starts_with('"') && s.ends_with('"') => { res = Some(s.clone()); Out::Text(s[1..s.len() - 1].as_bytes().to_vec()) }
            _ => Out::Err(Error::InvalidArgument),
        });
        res
    }
    /// s: plain text without characters JSON must escape
    pub fn deser(&mut self, s: &str) -> u8 {
        let ev = self.evt(87, 2, usize::MAX, RoundingMode::ToEven, s.as_bytes());
        let j = format!("\"{}\"", s);
        self.call(ev, move |_, _| match serde_json::from_str::<BigFloat>(&j) { Ok(v) => Out::Num(v), Err(_) => Out::Err(Error::InvalidArgument) })
    }
    /// c: 0 u64, 1 f64 (bits), 2 i64, 3 f32 (bits), through plain deserializers of values
    pub fn deser_num(&mut self, c: u8, u: u64) -> u8 {
        let v = u as i64;
        let ev = Ev { op: 88, dst: self.fresh(), a: 255, b: 255, c, y: le(&[if c == 2 { v.unsigned_abs() } else { u }]), fl: if c == 2 && v < 0 { INNEG } else { 0 }, ..Default::default() };
        self.call(ev, move |_, _| {
            use serde::de::{value::*, Deserialize, IntoDeserializer};
            let r: Result<BigFloat, serde::de::value::Error> = match c {
                0 => { let d: U64Deserializer<_> = u.into_deserializer(); BigFloat::deserialize(d) }
                1 => { let d: F64Deserializer<_> = f64::from_bits(u).into_deserializer(); BigFloat::deserialize(d) }
                2 => { let d: I64Deserializer<_> = v.into_deserializer(); BigFloat::deserialize(d) }
                _ => { let d: F32Deserializer<_> = f32::from_bits(u as u32).into_deserializer(); BigFloat::deserialize(d) }
            };
            match r { Ok(v) => Out::Num(v), Err(_) => Out::Err(astro_float_num::Error::InvalidArgument) }
        })
    }

    pub fn val(&self, r: u8) -> &BigFloat { &self.regs[r as usize] }
}

pub fn apply2(op: u8, x: &BigFloat, y: &BigFloat, p: usize, rm: RoundingMode, cc: &mut Consts) -> BigFloat {
    match op {
        1 => x.add(y, p, rm), 2 => x.sub(y, p, rm), 3 => x.mul(y, p, rm), 4 => x.div(y, p, rm),
        10 => x.add_full_prec(y), 11 => x.sub_full_prec(y), 12 => x.mul_full_prec(y), 13 => x.rem(y),
        31 => x.pow(y, p, rm, cc), 36 => x.log(y, p, rm, cc),
        _ => unreachable!(),
    }
}
pub fn apply1(op: u8, x: &BigFloat, p: usize, rm: RoundingMode, cc: &mut Consts) -> BigFloat {
    match op {
        5 => x.reciprocal(p, rm), 6 => x.sqrt(p, rm), 7 => x.cbrt(p, rm),
        14 => match p { 1 => -x, 2 => -(x.clone()), _ => x.neg() }, 15 => x.abs(), 16 => x.int(), 17 => x.fract(), 18 => x.floor(), 19 => x.ceil(),
        30 => x.exp(p, rm, cc), 33 => x.ln(p, rm, cc), 34 => x.log2(p, rm, cc), 35 => x.log10(p, rm, cc),
        40 => x.sin(p, rm, cc), 41 => x.cos(p, rm, cc), 42 => x.tan(p, rm, cc), 43 => x.asin(p, rm, cc), 44 => x.acos(p, rm, cc), 45 => x.atan(p, rm, cc),
        50 => x.sinh(p, rm, cc), 51 => x.cosh(p, rm, cc), 52 => x.tanh(p, rm, cc), 53 => x.asinh(p, rm, cc), 54 => x.acosh(p, rm, cc), 55 => x.atanh(p, rm, cc),
        _ => unreachable!(),
    }
}
