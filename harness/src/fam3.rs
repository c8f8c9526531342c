//! Families of histories: constants caches, repeated and concurrent calls, special values, programs, unreasonable
//! arguments, failing memory.
use crate::any::Call;
use crate::fam::*;
use crate::fam2::*;
use crate::gen::*;
use crate::tr::*;
use astro_float_num::*;

const E: RoundingMode = RoundingMode::ToEven;
pub const UNARY: [u8; 31] = [5, 6, 7, 14, 15, 16, 17, 18, 19, 20, 30, 33, 34, 35, 40, 41, 42, 43, 44, 45, 50, 51, 52, 53, 54, 55, 21, 32, 75, 76, 81];
pub const BINARY: [u8; 14] = [1, 2, 3, 4, 10, 11, 12, 13, 31, 36, 70, 71, 72, 73];
fn finite(t: &Tr, a: u8) -> Option<(i64, usize)> { let v = t.val(a); if v.is_nan() || v.is_inf() { None } else { Some((v.exponent()? as i64, v.mantissa_max_bit_len()?)) } }

/// calls the specification and the library can both afford
pub fn fair(t: &Tr, op: u8, a: u8, b: u8) -> bool {
    let x = finite(t, a);
    let y = finite(t, b);
    let zero = |r: u8| t.val(r).is_zero();
    match op {
        40..=42 => x.map_or(true, |(e, _)| e < 12000),
        10 | 11 => match (x, y) { (Some((e, p)), Some((f, q))) => zero(a) || zero(b) || ((e - f).abs() < 5000 && p + q < 4000), _ => true },
        12 => match (x, y) { (Some((_, p)), Some((_, q))) => p + q < 3000, _ => true },
        13 => match (x, y) { (Some((e, p)), Some((f, q))) => zero(b) || (e - f < 4000 && p + q < 4000), _ => true },
        // decimal conversion needs powers of ten as large as the exponent
        81 | 83 => x.map_or(true, |(e, _)| e.abs() < 20000),
        _ => true,
    }
}

// ---------------------------------------------------------------------- constants caches (C07)
fn konst(t: &mut Tr, op: u8, p: usize, rm: RoundingMode) -> u8 { t.konst(op, p, rm) }
/// values larger than this make every later step of the evaluator slow
fn drop(t: &mut Tr) { t.load_special(0); }
pub fn consts(t: &mut Tr, r: &Rng, c: &Cfg) {
    let ks = [60u8, 61, 62, 63];
    // every size up to some length from a new cache, by growing, by falling, by one large request
    let max = if c.thorough { 400 } else { 90 };
    let mine: Vec<usize> = (1..=max).filter(|k| (*k as u64) % c.shards == c.shard).collect();
    for &k in &mine {
        for op in ks {
            t.cc = Consts::new().unwrap();
            konst(t, op, k * 64, if k % 3 == 0 { RoundingMode::None } else { E });
            let rm = rmany(r);
            let p = k * 64 - r.below(64) as usize;
            konst(t, op, p, rm);
        }
        drop(t);
    }
    // longer ones: the number of terms of each series passes several powers of two
    let mut long: Vec<usize> = (max + 1..=270).filter(|k| (*k as u64) % c.shards == c.shard).collect();
    for _ in 0..if c.thorough { 60 } else { 8 } { long.push(r.range(270, if c.thorough { 1400 } else { 540 }) as usize) }
    for &k in &long {
        for op in ks {
            t.cc = Consts::new().unwrap();
            konst(t, op, k * 64, rmany(r));
        }
    }
    for pass in 0..2 {
        for op in ks {
            t.cc = Consts::new().unwrap();
            let mut m = mine.clone();
            if pass == 1 { m.reverse() }
            for &k in &m { if r.chance(1, 2) { konst(t, op, k * 64, rmany(r)); } }
        }
    }
    // random histories
    while t.count < c.n {
        if r.chance(1, 3) { t.cc = Consts::new().unwrap(); }
        let wmax = r.pick(&[4usize, 12, 40]);
        for _ in 0..r.range(3, 25) {
            match r.below(20) {
                0..=9 => { let op = r.pick(&ks); let p = prec(r, wmax); konst(t, op, p, rmany(r)); }
                10 => { let op = r.pick(&ks); let p = 64 * wmax; for rm in RMS { konst(t, op, p, rm); } }
                11 => { // a request that cannot be served
                    let op = r.pick(&ks);
                    let p = r.pick(&[usize::MAX, usize::MAX - 62, usize::MAX / 2, usize::MAX / 4, 4611686016279904255, 4611686016279904256]);
                    konst(t, op, p, rmany(r));
                }
                12 | 13 => { // a request interrupted by memory
                    let op = r.pick(&ks);
                    t.fault = true;
                    t.arm = Some((r.below(40) as i64, r.chance(1, 2)));
                    let p = prec(r, wmax);
                    konst(t, op, p, rmany(r));
                    t.arm = None;
                    t.fault = false;
                    if r.chance(1, 2) { konst(t, op, p, rmany(r)); }
                }
                _ => { // functions that use the same cache
                    t.slot = 50;
                    let op = r.pick(&[30, 33, 34, 35, 40, 41, 42, 44, 45, 50, 51, 52, 53, 55]);
                    let p = prec(r, wmax.min(4));
                    if let Some(a) = farg(t, r, op, p) { t.op1(op, a, p, rmany(r)); }
                    t.slot = 0;
                }
            }
        }
        drop(t);
    }
}

// ---------------------------------------------------------------------- calls as data
fn decimal(r: &Rng) -> Vec<u8> {
    let n = 1 + r.below(40);
    let mut s = String::new();
    if r.chance(1, 3) { s.push('-') }
    for _ in 0..n { s.push((b'0' + r.below(10) as u8) as char) }
    if r.chance(1, 2) { s.push('.'); for _ in 0..r.below(30) { s.push((b'0' + r.below(10) as u8) as char) } }
    if r.chance(1, 2) { s.push_str(&format!("e{}", r.range(-400, 400))) }
    s.into_bytes()
}
/// some call on new operands (or the given ones)
pub fn somecall(t: &mut Tr, r: &Rng, c: &Cfg, operands: Option<(u8, u8)>) -> Call {
    let rm = rmany(r);
    loop {
        let kind = r.below(20);
        let p = if kind < 7 { prec(r, 5) } else { fprec(r, c).min(700) };
        match kind {
            0..=4 => {
                let (a, b) = match operands { Some(x) => x, None => { let (a, b, _) = twosomes(t, r); (a, b) } };
                let op = r.pick(&[1, 2, 3, 4, 5, 6, 7, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 70, 71, 72, 73, 74, 75]);
                if !fair(t, op, a, b) { continue }
                let mut k = Call::new(op, a, if BINARY.contains(&op) || op == 74 { b } else { 255 }, p, rm);
                if op == 21 { k.n = r.below(200) as usize }
                if op == 74 { k.c = a }
                return k;
            }
            5..=11 => {
                let op = r.pick(&[30, 33, 34, 35, 40, 41, 42, 43, 44, 45, 50, 51, 52, 53, 54, 55]);
                let a = match operands { Some((a, _)) => a, None => match farg(t, r, op, p) { Some(a) => a, None => continue } };
                if !fair(t, op, a, 255) { continue }
                return Call::new(op, a, 255, p, rm);
            }
            12 => {
                let (a, b) = match operands { Some(x) => x, None => {
                    let mut a = fin(r, words(r, 3), Ec::Small); a.neg = false;
                    let mut b = fin(r, words(r, 2), Ec::Small); b.e = r.range(-20, 6);
                    (t.load(&a), t.load(&b))
                } };
                return Call::new(r.pick(&[31, 36]), a, b, p, rm);
            }
            13 => {
                let a = match operands { Some(x) => x.0, None => { let a = fin(r, words(r, 3), Ec::Small); t.load(&a) } };
                let mut k = Call::new(32, a, 255, p, rm);
                k.n = r.below(300) as usize;
                return k;
            }
            14 | 15 => return Call::new(r.pick(&[60, 61, 62, 63]), 255, 255, p, rm),
            16 | 17 => {
                let mut k = Call::new(if r.chance(1, 5) { 84 } else { 80 }, 255, 255, if r.chance(1, 4) { usize::MAX } else { p }, rm);
                k.c = 2;
                k.t = decimal(r);
                return k;
            }
            18 => {
                let a = match operands { Some(x) => x.0, None => { let e = r.pick(&[Ec::Small, Ec::Mid]); let a = fin(r, words(r, 4), e); t.load(&a) } };
                let op = r.pick(&[81, 83, 85]);
                if !fair(t, 83, a, 255) { continue }
                let mut k = Call::new(op, a, 255, 0, if rm == RoundingMode::None { E } else { rm });
                k.c = r.below(4) as u8;
                return k;
            }
            _ => {
                let mut k = Call::new(82, 255, 255, p, rm);
                k.c = 2;
                k.t = (0..1 + r.below(50)).map(|_| r.below(10) as u8).collect();
                k.e = r.range(-300, 300);
                k.neg = r.chance(1, 2);
                return k;
            }
        }
    }
}
fn call(t: &mut Tr, k: &Call, slot: u8) -> u8 { t.slot = slot; let d = t.any(k); t.slot = 0; d }

// ---------------------------------------------------------------------- results depend on the arguments only (C08)
pub fn memo(t: &mut Tr, r: &Rng, c: &Cfg) {
    while t.count < c.n {
        let n = 6 + r.below(6) as usize;
        let ks: Vec<Call> = (0..n).map(|_| somecall(t, r, c, None)).collect();
        for (i, k) in ks.iter().enumerate() { call(t, k, 1 + i as u8); }
        for round in 0..3 {
            match r.below(6) { // what happened before must not matter
                0 => t.cc = Consts::new().unwrap(),
                1 => { let op = r.pick(&[60, 61, 62, 63]); t.konst(op, r.pick(&[1usize, 64, 640, 1280, 3000]), rmany(r)); }
                2 => { let k = somecall(t, r, c, None); call(t, &k, 0); }
                3 => { t.fault = true; t.arm = Some((r.below(60) as i64, r.chance(1, 2))); let k = r.below(n as u64) as usize; if ks[k].op != 85 && ks[k].op != 84 { call(t, &ks[k], 1 + k as u8); } t.arm = None; t.fault = false; }
                4 => { let _ = format!("{}", BigFloat::from_raw_parts(&[1, 1 << 63, 3 << 62], 192, Sign::Pos, r.range(-3000, 3000) as Exponent, false)); }
                _ => {}
            }
            t.thread = r.chance(1, 4);
            if round == 2 && r.chance(1, 2) {
                let l: Vec<(Call, u8)> = (0..8).map(|_| { let k = r.below(n as u64) as usize; (ks[k].clone(), 1 + k as u8) }).collect();
                t.par(&l);
            } else {
                for _ in 0..n { let k = r.below(n as u64) as usize; call(t, &ks[k], 1 + k as u8); }
            }
            t.thread = false;
        }
    }
}

// ---------------------------------------------------------------------- special values (C09)
pub fn specials(t: &mut Tr, r: &Rng, c: &Cfg) {
    let pow2 = |neg: bool, x: i64| Fin::from_nat(&[1], neg, x, 1);
    let mut fins: Vec<Fin> = vec![];
    for neg in [false, true] {
        fins.push(Fin { m: vec![0], neg, e: 0, ix: false });
        fins.push(pow2(neg, 0));
        fins.push(pow2(neg, 1));
        fins.push(pow2(neg, -1));
        fins.push(Fin::from_nat(&[3], neg, 0, 2));
        fins.push(Fin::from_nat(&[5], neg, -1, 1));
        fins.push(Fin { m: vec![1], neg, e: EMIN, ix: false });
        fins.push(Fin { m: vec![!0, !0], neg, e: EMAX, ix: false });
        fins.push(Fin { m: vec![1, 1 << 63], neg, e: 1, ix: false });           // next above one
        fins.push(Fin { m: vec![!0], neg, e: 0, ix: false });                   // next below one
    }
    fins.push(Fin { m: vec![0, 0], neg: false, e: 0, ix: true });
    fins.push(Fin { m: vec![1 << 63], neg: false, e: 1, ix: true });
    let mut i = 0u64;
    let mut regs: Vec<u8> = vec![];
    let mut live = 0;
    let load = |t: &mut Tr| -> Vec<u8> { let mut v: Vec<u8> = (0..6).map(|k| t.load_special(k)).collect(); for f in &fins { v.push(t.load(f)); } v };
    let pass = if c.thorough { 12 } else { 1 };
    for _ in 0..pass {
        let nops = 6 + fins.len();
        for op in UNARY.iter().chain(BINARY.iter()).chain([74u8, 60, 61, 62, 63, 80].iter()) {
            let two = BINARY.contains(op);
            for x in 0..nops {
                for y in 0..(if two { nops } else if *op == 32 { 6 } else if *op == 74 { 4 } else { 2 }) {
                    i += 1;
                    if i % c.shards != c.shard { continue }
                    // finite against finite belongs to the other families
                    if two && x >= 6 && y >= 6 && *op != 31 && *op != 36 && r.chance(2, 3) { continue }
                    if *op >= 60 && *op <= 63 && x > 3 { continue }
                    if *op == 80 && x > 5 { continue }
                    if live == 0 { regs = load(t); live = 120; }
                    live -= 1;
                    let p = r.pick(&[64usize, 64, 128, 1, 100]);
                    let rm = rmany(r);
                    let (a, b) = (regs[x], regs[y]);
                    if !fair(t, *op, a, if two { b } else { 255 }) { continue }
                    let mut k = Call::new(*op, a, if two || *op == 74 { b } else { 255 }, p, rm);
                    match *op {
                        21 => k.n = r.pick(&[0usize, 3, 64, usize::MAX, usize::MAX / 4]),
                        32 => k.n = [0usize, 1, 2, 3, usize::MAX, 1 << 40][y],
                        60..=63 => k.p = if x < 2 { usize::MAX / 2 } else { 64 },
                        74 => { k.b = regs[r.below(nops as u64) as usize]; k.c = regs[r.below(nops as u64) as usize] }
                        80 => { k.a = 255; k.c = y as u8 * 2; k.t = [&b"inf"[..], b"-Inf", b"nan", b"x", b"+INF", b"NaN"][x].to_vec(); }
                        81 => { k.c = r.below(4) as u8; if x >= 6 && t.val(a).exponent().map_or(false, |e| (e as i64).abs() > 10000) { k.c = r.pick(&[0, 1, 3]) } if k.rm == RoundingMode::None { k.rm = E } }
                        _ => {}
                    }
                    if *op == 76 { t.pred(a); continue }
                    t.any(&k);
                }
            }
        }
    }
    // NaN and infinity through programs
    while t.count < c.n {
        let mut x = if r.chance(1, 2) { t.load_special(r.below(6) as u8) } else { anynum(t, r) };
        for _ in 0..4 {
            let y = anynum(t, r);
            let p = prec(r, 3);
            if r.chance(1, 2) { let op = r.pick(&BINARY); if fair(t, op, x, y) { let k = Call::new(op, x, y, p, rmany(r)); let d = if r.chance(1, 2) { k } else { Call { a: y, b: x, ..k } }; if fair(t, op, d.a, d.b) { let o = t.any(&d); if op < 70 || op > 71 { x = o } } } }
            else { let op = r.pick(&UNARY[..26]); if fair(t, op, x, 255) { let d = t.any(&Call::new(op, x, 255, p, rmany(r))); if op != 20 { x = d } } }
        }
    }
}

// ---------------------------------------------------------------------- programs (C15, C16)
pub fn chains(t: &mut Tr, r: &Rng, c: &Cfg) {
    while t.count < c.n {
        // a pool of numbers, some flagged inexact, then operations on whatever the pool holds
        let mut pool: Vec<u8> = vec![];
        let flagged = r.chance(1, 2);
        for _ in 0..4 {
            let mut f = match r.below(8) {
                0 => Fin::from_nat(&[1 + r.below(40)], r.chance(1, 2), r.range(-4, 3), 1 + r.below(3) as usize),
                1 => Fin { m: vec![0; 1 + r.below(3) as usize], neg: r.chance(1, 2), e: 0, ix: false },
                2 => { let b = 1 + r.below(20) as usize; Fin::from_nat(&nat(r, b), r.chance(1, 2), r.range(-30, 30), 1 + r.below(4) as usize) }
                3 => { let e = eclass(r); fin(r, words(r, 4), e) }
                _ => fin(r, words(r, 4), Ec::Small),
            };
            f.ix = flagged && r.chance(1, 3);
            let x = t.load(&f);
            pool.push(x);
        }
        for _ in 0..r.range(6, 24) {
            let (a, b) = (r.pick(&pool), r.pick(&pool));
            let p = if r.chance(1, 30) { fprec(r, c).min(900) } else { prec(r, 4) };
            let rm = rmany(r);
            let d = match r.below(12) {
                0..=3 => { let op = r.pick(&[1, 2, 3, 4, 1, 2, 3, 4, 10, 11, 12, 13]); if !fair(t, op, a, b) { continue } t.op2(op, a, b, p, rm) }
                4 | 5 => { let op = r.pick(&[5, 6, 7, 14, 15, 16, 17, 18, 19]); if !fair(t, op, a, 255) { continue } t.op1(op, a, p, rm) }
                6 => { let op = r.pick(&[30, 33, 34, 35, 40, 41, 42, 43, 44, 45, 50, 51, 52, 53, 54, 55]); if !fair(t, op, a, 255) { continue } t.op1(op, a, p.min(300), rm) }
                7 => match r.below(3) { 0 => t.op2(31, a, b, p.min(300), rm), 1 => t.op2(36, a, b, p.min(300), rm), _ => t.powi(a, r.below(40) as usize, p, rm) },
                8 => match r.below(4) { 0 | 1 => t.setp(a, p, rm), 2 => t.round(a, r.below(150) as usize, rm), _ => { let s = (p + 63) / 64 * 64; t.tryp(a, p, rm, s) } },
                9 => match r.below(5) { 0 => t.sign(a, r.below(5) as u8), 1 => { let e = r.pick(&[0, 1, 5, -5, EMIN, EMAX, 1000]); t.sete(a, e) } 2 => t.acc(a), 3 => { let v = r.next() as i64 as i128; t.intc(3, v, 0, 64 + p) } _ => t.signum(a) },
                10 => match r.below(3) { 0 => t.order(r.pick(&[72, 73]), a, b), 1 => t.clamp(a, b, a), _ => { t.pred(a); continue } },
                _ => { let mut f = fin(r, words(r, 4), Ec::Small); f.ix = flagged && r.chance(1, 3); t.load(&f) }
            };
            if t.val(d).mantissa_max_bit_len().unwrap_or(0) > 1500 { continue }
            if t.val(d).is_nan() || t.val(d).is_inf() { if r.chance(3, 4) { continue } }
            let i = r.below(pool.len() as u64) as usize;
            if pool.len() < 8 { pool.push(d) } else { pool[i] = d }
        }
    }
}

// ---------------------------------------------------------------------- unreasonable arguments (C18)
pub fn wild(t: &mut Tr, r: &Rng, c: &Cfg) {
    while t.count < c.n {
        let hp = if r.chance(2, 3) { r.pick(&HUGEP) } else { let s = r.below(33); (r.next() >> s) as usize | 1 << 33 };
        // functions and constants get precisions that are refused; a legal one beyond memory may take forever
        let rp = r.pick(&[usize::MAX, usize::MAX - 1, usize::MAX - 62, usize::MAX - 63, usize::MAX - 64, usize::MAX / 2, usize::MAX / 2 + 1, usize::MAX / 4, 4611686016279904255, 4611686016279904256]);
        t.slot = 60;
        match r.below(16) {
            0..=3 => { // precisions
                let op = r.pick(&[1, 2, 3, 4, 31, 36]);
                let hp = if op > 30 { rp } else { hp };
                let (a, b) = if r.chance(1, 3) { (anynum(t, r), anynum(t, r)) } else { let (a, b, _) = twosomes(t, r); (a, b) };
                t.op2(op, a, b, hp, rmany(r));
            }
            4..=6 => {
                let op = r.pick(&[5, 6, 7, 30, 33, 34, 35, 40, 41, 42, 43, 44, 45, 50, 51, 52, 53, 54, 55]);
                let hp = if op >= 30 { rp } else { hp };
                let a = anynum(t, r);
                if fair(t, op, a, 255) { t.op1(op, a, hp, rmany(r)); }
            }
            7 => { let a = anynum(t, r); match r.below(4) { 0 => t.setp(a, hp, rmany(r)), 1 => t.tryp(a, hp, rmany(r), 64), 2 => t.konst(r.pick(&[60, 61, 62, 63]), rp, rmany(r)), _ => t.powi(a, r.next() as usize, hp, rmany(r)) }; }
            8 => { let a = anynum(t, r); let n = r.pick(&[usize::MAX, usize::MAX - 1, 1 << 63, (1 << 63) - 1, 1 << 62, 1 << 33, 4294967295, 0]); if r.chance(1, 2) { t.round(a, n, rmany(r)); } else { t.powi(a, n, prec(r, 3), rmany(r)); } }
            9 => { // construction
                let c = r.below(7) as u8;
                t.make(c, hp, r.next());
                t.make(c, r.pick(&[0usize, 1, 63, 64, 65]), r.next());
                let k = r.below(10) as u8;
                t.intc(k, (r.next() as i8) as i128, r.below(200) as u128, if r.chance(1, 2) { hp } else { r.below(70) as usize });
                t.f64c(r.next(), hp, false);
                t.f32c(r.next() as u32, hp, false);
                t.fromext(r.below(12) as u8, r.range(-100, 100) as i128, r.below(100) as u128, hp, rmany(r));
            }
            10 => { // raw parts
                let w = r.below(4) as usize;
                let m: Vec<u64> = (0..w).map(|_| r.pick(&[0, 1, !0, 1 << 63, r.next()])).collect();
                let n = match r.below(4) { 0 => bits(&m), 1 => r.below(300) as usize, 2 => usize::MAX - r.below(3) as usize, _ => bits(&m) + 1 };
                let e = r.pick(&[0, 1, EMIN, EMAX, EMIN + 1, -100]);
                let (g, i) = (r.chance(1, 2), r.chance(1, 2));
                t.raw(&m, n, g, e, i);
                t.fwords(&m, g, e);
                let a = anynum(t, r);
                t.sete(a, r.pick(&[EMIN, EMAX, EMIN + 1, 0, EMAX - 1]));
                t.random(r.pick(&[0usize, 1, 63, 64, hp]), r.pick(&[EMIN, 0, 5]), r.pick(&[EMAX, 0, -5]));
            }
            11 => { // digits out of range, empty, enormous exponents
                let d: Vec<u8> = (0..r.below(12)).map(|_| if r.chance(1, 6) { r.next() as u8 } else { r.below(10) as u8 }).collect();
                let e = r.pick(&[EMIN, EMAX, EMAX - 1, EMIN + 1, 0, 100]);
                let (g, rm) = (r.chance(1, 2), rmany(r));
                t.from_radix(g, &d, e, r.below(4) as u8, if r.chance(1, 2) { hp } else { prec(r, 3) }, rm);
            }
            12 | 13 => { // texts that are not numbers
                let n = r.below(14);
                let cs: &[u8] = b"0123456789.eE_+-infaNnIABCDEFxz ";
                let mut s: String = (0..n).map(|_| r.pick(cs) as char).collect();
                if r.chance(1, 12) { s.push('\u{e9}') }
                if r.chance(1, 12) { s.insert(0, '\u{2212}') }
                let rm = rmany(r);
                t.parse(&s, r.below(4) as u8, if r.chance(1, 4) { hp } else { prec(r, 3) }, rm);
                t.from_str(&s);
                t.deser(&s.replace(|c: char| c == '"' || c == '\\', ""));
            }
            _ => { // extreme exponents everywhere
                let ec = |r: &Rng| r.pick(&[Ec::Low, Ec::High, Ec::Sub]);
                let (e1, e2) = (ec(r), ec(r));
                let (a, b) = (fin(r, words(r, 4), e1), fin(r, words(r, 4), e2));
                let (a, b) = (t.load(&a), t.load(&b));
                let p = prec(r, 3);
                let op = r.pick(&BINARY); if fair(t, op, a, b) { t.any(&Call::new(op, a, b, p, rmany(r))); }
                let op = r.pick(&UNARY[..26]); if fair(t, op, a, 255) { t.any(&Call::new(op, a, 255, p, rmany(r))); }
                t.powi(a, r.pick(&[0usize, 1, 2, 3, usize::MAX, 1 << 31, 1 << 32]), p, rmany(r));
                let mut k = Call::new(81, a, 255, 0, E); k.c = r.pick(&[0, 1, 3]); t.any(&k);
            }
        }
        t.slot = 0;
    }
}

// ---------------------------------------------------------------------- failing memory (C17)
pub fn faults(t: &mut Tr, r: &Rng, c: &Cfg) {
    let mut slot = 100u8;
    while t.count < c.n {
        let cons = r.chance(1, 5);
        let mut k = if cons { Call::new(r.pick(&[60, 61, 62, 63]), 255, 255, r.pick(&[128usize, 192, 256, 320, 448, 640, 1000, 1500]) - r.below(3) as usize, rmany(r)) } else { somecall(t, r, c, None) };
        if k.op == 84 { k.op = 80; k.p = usize::MAX; k.rm = E }
        if k.op == 85 { k.op = 81 }
        let warm = r.pick(&[0usize, 64, 300]);
        let fresh = |t: &mut Tr| { t.cc = Consts::new().unwrap(); if warm > 0 { let _ = t.helper(|_| ()); for o in [60, 62] { let cc = &mut t.cc; if o == 60 { cc.pi(warm, E); } else { cc.ln_2(warm, E); } } } };
        slot = if slot >= 250 { 100 } else { slot + 1 };
        fresh(t);
        call(t, &k, slot);
        let n = t.allocs as i64;
        if n == 0 { continue }
        let mut at: Vec<i64> = if n <= 8 { (0..n).collect() } else { let mut v = vec![0, 1, n - 1, n / 2]; for _ in 0..6 { v.push(r.below(n as u64) as i64) } v };
        // the last steps of the growth of a cache
        if cons { for _ in 0..6 { at.push((n - 1 - r.below(60) as i64).max(0)) } }
        at.dedup();
        for i in at {
            fresh(t);
            t.fault = true;
            t.arm = Some((i, r.chance(1, 3)));
            call(t, &k, slot);
            t.arm = None;
            t.fault = false;
            // the same call, on the same cache
            if r.chance(3, 4) { call(t, &k, slot); }
            if cons && r.chance(1, 2) { let mut q = k.clone(); q.p = 1 + r.below(2 * k.p as u64) as usize; call(t, &q, 100); }
            if r.chance(1, 5) { // and a larger request of the constants
                let q = Call::new(r.pick(&[60, 61, 62, 63]), 255, 255, r.pick(&[64usize, 192, 320, 960]), E);
                call(t, &q, 100);
            }
        }
    }
}
