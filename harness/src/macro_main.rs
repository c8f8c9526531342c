#![allow(dead_code)]
//! The expression macro and its contexts (C19, C20).  The macro expands to paths below `astro_float`.
extern crate astro_float_num as astro_float;
mod alloc;
mod any;
mod ev;
mod exprs;
mod fam;
mod fam2;
mod fam3;
mod gen;
mod tr;
use astro_float_macro::expr;
use astro_float_num::ctx::{Context, Contextable};
use astro_float_num::*;
use ev::*;
use fam::Cfg;
use gen::*;
use tr::*;

#[global_allocator]
static GLOBAL: alloc::A = alloc::A;

pub struct Prog<C: 'static> { pub rpn: &'static [u8], pub cls: &'static [u8; 3], pub f: fn(&BigFloat, &BigFloat, &BigFloat, i32, f64, &str, &mut C) -> BigFloat }
pub type FT3 = for<'a, 'b, 'c, 'd, 'e, 'f> fn(&'a BigFloat, &'b BigFloat, &'c BigFloat, i32, f64, &'d str, &'e mut (usize, RoundingMode, &'f mut Consts)) -> BigFloat;
pub type FT5 = for<'a, 'b, 'c, 'd, 'e, 'f> fn(&'a BigFloat, &'b BigFloat, &'c BigFloat, i32, f64, &'d str, &'e mut (usize, RoundingMode, &'f mut Consts, Exponent, Exponent)) -> BigFloat;

struct Args { x: u8, y: u8, z: u8, i: i32, f: f64, s: String }

fn var(t: &mut Tr, r: &Rng, c: u8, p: usize) -> u8 {
    let w = words(r, 3);
    let mut v = fin(r, w, Ec::Small);
    v.ix = r.chance(1, 6);
    v.e = r.range(-5, 6);
    match c {
        b'g' => {}
        b'p' => v.neg = false,
        b'o' => { v.neg = false; v.e = r.range(-8, 0) }
        b'q' => v.e = r.range(-8, 0),
        b'b' => { v.neg = false; v.e = r.range(1, 7); let n = v.m.len(); v.m[0] |= 1; v.m[n - 1] |= 1 << 62 }
        b't' | b'T' => { v.e = -r.range(10, (p as i64 + 60).min(400)); if c == b'T' { v.neg = false } }
        b'm' => { v.m.truncate(1); v.m[0] |= 1 << 63; v.neg = false; v.e = 64; let n = 5 + r.below((p as u64 + 40) * 7 / 10); return t.nat(&[n * 1024 + r.below(1024)], false, -10, 1) }
        b'n' => { return t.nat(&[1 + r.below(50)], false, 0, w) }
        b'L' | b'l' => { v.e = r.range(20, 100); if c == b'l' { v.neg = false } }
        b'w' => {
            let k = r.range(3, 200) as usize;
            let mut m = nshl(&[1], k);
            if r.chance(1, 2) { m = nadd(&m, &[1 + r.below(7)]) } else { m = ndec(&m) }
            return t.nat(&m, false, -(k as i64), 0);
        }
        _ => unreachable!(),
    }
    t.load(&v)
}
fn args(t: &mut Tr, r: &Rng, cls: &[u8; 3], p: usize) -> Args {
    let x = var(t, r, cls[0], p);
    let y = var(t, r, cls[1], p);
    let z = var(t, r, cls[2], p);
    let i: i32 = r.pick(&[1, 2, 3, 7, 10, 100, 12345, i32::MAX, 5, 33]);
    let f = r.pick(&[0.5, 0.1, 1.5, 2.0, 3.14159, 1e-3, 12.75, 1.0 / 3.0, 77.0]) * (1.0 + r.below(1000) as f64 / 1024.0);
    let s = if r.chance(1, 4) { r.pick(&["0.1", "2", "1e-3", "3.3333333333333333333333333333333333333333", "17.5", "1e10", "0.9999999999999999999999999999999999999999999999999999999"]).to_string() }
        else { format!("{}.{}", 1 + r.below(50), r.next()) };
    Args { x, y, z, i, f, s }
}
/// the program with the values of the machine variables
fn bind(rpn: &[u8], a: &Args) -> Vec<u8> {
    let mut o = vec![];
    let mut k = 0;
    let lit = |o: &mut Vec<u8>, t: &str| { o.push(2); o.push(t.len() as u8); o.extend(t.bytes()) };
    while k < rpn.len() {
        match rpn[k] {
            1 => { o.extend(&rpn[k..k + 2]); k += 2 }
            2 => { let n = rpn[k + 1] as usize; o.extend(&rpn[k..k + 2 + n]); k += 2 + n }
            200 => { lit(&mut o, &a.i.to_string()); k += 1 }
            201 => {
                let b = a.f.to_bits();
                let (e, m) = ((b >> 52) & 0x7ff, b & ((1 << 52) - 1));
                let (m, x) = if e == 0 { (m, -1074) } else { (m | 1 << 52, e as i64 - 1075) };
                o.push(4); o.push((b >> 63) as u8); o.extend(m.to_le_bytes()); o.extend(((x + 32768) as u16).to_le_bytes()); k += 1
            }
            202 => { lit(&mut o, &a.s); k += 1 }
            x => { o.push(x); k += 1 }
        }
    }
    o
}
fn evx(t: &mut Tr, rpn: &[u8], a: &Args, p: usize, rm: RoundingMode, emin: i64, emax: i64) -> Ev {
    Ev { op: 102, rm: rmcode(rm), dst: t.fresh(), a: a.x, b: a.y, c: a.z, p: p as u64, x: emin, y: le(&[(emax + (1 << 31)) as u64]), z: text(&bind(rpn, a)), ..Default::default() }
}
fn run_ctx(t: &mut Tr, k: usize, a: Args, p: usize, rm: RoundingMode, emin: i64, emax: i64, keep: &mut Option<Consts>) {
    let pr = &exprs::PROGS[k];
    let ev = evx(t, pr.rpn, &a, p, rm, emin, emax);
    let cc = keep.take().unwrap_or_else(|| Consts::new().unwrap());
    t.call(ev, move |g, _| {
        let mut ctx = Context::new(p, rm, cc, emin as Exponent, emax as Exponent);
        let v = (pr.f)(&g[a.x as usize], &g[a.y as usize], &g[a.z as usize], a.i, a.f, &a.s, &mut ctx);
        *keep = Some(ctx.to_raw_parts().2);
        Out::Num(v)
    });
}
fn run_t3(t: &mut Tr, k: usize, a: Args, p: usize, rm: RoundingMode) {
    let (n, f) = exprs::T3[k];
    let ev = evx(t, exprs::PROGS[n].rpn, &a, p, rm, EMIN, EMAX);
    t.call(ev, move |g, cc| Out::Num(f(&g[a.x as usize], &g[a.y as usize], &g[a.z as usize], a.i, a.f, &a.s, &mut (p, rm, cc))));
}
/// emin, emax as given; the limits in force are clamped around zero
fn run_t5(t: &mut Tr, k: usize, a: Args, p: usize, rm: RoundingMode, emin: i64, emax: i64) {
    let (n, f) = exprs::T5[k];
    let ev = evx(t, exprs::PROGS[n].rpn, &a, p, rm, emin.clamp(EMIN, 0), emax.clamp(0, EMAX));
    t.call(ev, move |g, cc| Out::Num(f(&g[a.x as usize], &g[a.y as usize], &g[a.z as usize], a.i, a.f, &a.s, &mut (p, rm, cc, emin as Exponent, emax as Exponent))));
}
fn xprec(r: &Rng, thorough: bool) -> usize {
    match r.below(12) { 0 => 64, 1 => 128, 2..=4 => 1 + r.below(130) as usize, 5..=8 => 64 + r.below(140) as usize, 9 => 192, 10 => 256, _ => 200 + r.below(if thorough { 1200 } else { 330 }) as usize }
}
fn mode(r: &Rng) -> RoundingMode { if r.chance(1, 30) { RoundingMode::None } else { RMS[r.below(6) as usize] } }

/// every program in wide contexts
fn programs(t: &mut Tr, r: &Rng, c: &Cfg) {
    let np = exprs::PROGS.len();
    let mut keep = None;
    let mut k = c.shard as usize;
    let ill = |n: usize| exprs::PROGS[n].cls.iter().any(|x| b"mT".contains(x));
    while t.count < c.n {
        // compensation of large errors is seen when the precision is large, too
        let p = if ill(k % np) && r.chance(2, 5) { r.range(260, 720) as usize } else { xprec(r, c.thorough) };
        let rm = mode(r);
        let a = args(t, r, exprs::PROGS[k % np].cls, p);
        run_ctx(t, k % np, a, p, rm, -10000, 10000, &mut keep);
        if r.chance(1, 5) {
            let j = r.below(exprs::T3.len() as u64) as usize;
            let n = exprs::T3[j].0;
            let a = args(t, r, exprs::PROGS[n].cls, p);
            if r.chance(1, 2) || ill(n) { run_t5(t, j, a, p, rm, -r.range(5000, 20000), r.range(5000, 20000)) } else { run_t3(t, j, a, p, rm) }
        }
        k += c.shards as usize;
        if k >= np { k = c.shard as usize }
        if r.chance(1, 20) { keep = None }
    }
}

// ---------------------------------------------------------------------- contexts
fn settings<C: Contextable>(c: &mut C) -> (usize, RoundingMode, Exponent, Exponent) { (c.precision(), c.rounding_mode(), c.emin(), c.emax()) }
fn observed(ev: &mut Ev, v: (usize, RoundingMode, Exponent, Exponent)) {
    ev.k = 7;
    ev.pr = v.0 as u64;
    ev.n = rmcode(v.1) as u64;
    ev.e = v.2 as i64;
    ev.m = le(&[(v.3 as i64 + (1 << 31)) as u64]);
}
const OPC: [u8; 4] = [60, 61, 62, 63];
fn konst<C: Contextable>(c: &mut C, op: u8) -> BigFloat { match op { 60 => c.const_pi(), 61 => c.const_e(), 62 => c.const_ln2(), _ => c.const_ln10() } }
fn ikonst(c: &mut Context, op: u8) -> BigFloat { match op { 60 => c.const_pi(), 61 => c.const_e(), 62 => c.const_ln2(), _ => c.const_ln10() } }

fn limit(r: &Rng, lo: bool) -> i64 {
    let v = match r.below(10) { 0 => 0, 1 => r.pick(&[EMIN, EMAX, EMIN + 1, EMAX - 1]), 2 => r.range(-3, 3), 3 => r.range(-1 << 20, 1 << 20), _ => { let k = r.range(1, 400); if lo { -k } else { k } } };
    v.clamp(EMIN, EMAX)
}
fn contexts(t: &mut Tr, r: &Rng, c: &Cfg) {
    let np = exprs::PROGS.len();
    let gentle: Vec<usize> = (0..np).filter(|&k| !exprs::PROGS[k].cls.iter().any(|x| b"mTtw".contains(x)) && exprs::PROGS[k].rpn.len() < 24).collect();
    let mut slots: Vec<Option<Context>> = (0..6).map(|_| None).collect();
    // simple calls: no library panic is expected here, the watchdog still looks
    while t.count < c.n {
        let s = r.below(6) as usize;
        let base = |op: u8| Ev { op, a: 255, b: 255, c: s as u8, dst: 201, ..Default::default() };
        let live = slots[s].is_some();
        let what = if live { r.below(26) } else { 0 };
        match what {
            0 => {
                let p = if r.chance(1, 9) { r.pick(&[0usize, 1, usize::MAX, 1 << 20]) } else { xprec(r, c.thorough) };
                let (rm, lo, hi) = (mode(r), limit(r, true), limit(r, false));
                let mut ev = base(103);
                ev.p = p as u64; ev.rm = rmcode(rm); ev.x = lo; ev.y = le(&[(hi + (1 << 31)) as u64]);
                let cc = Consts::new().unwrap();
                let mut x = Context::new(p, rm, cc, lo as Exponent, hi as Exponent);
                observed(&mut ev, settings(&mut x));
                slots[s] = Some(x);
                t.put(&ev);
            }
            1 | 2 => { let mut ev = base(104); let p = if r.chance(1, 9) { r.pick(&[0usize, 1, 7, usize::MAX]) } else { xprec(r, c.thorough) }; ev.p = p as u64; let x = slots[s].as_mut().unwrap(); x.set_precision(p); observed(&mut ev, settings(x)); t.put(&ev); }
            3 | 4 => { let mut ev = base(105); let m = RMS[r.below(7) as usize]; ev.rm = rmcode(m); let x = slots[s].as_mut().unwrap(); x.set_rounding_mode(m); observed(&mut ev, settings(x)); t.put(&ev); }
            5 | 6 => { let mut ev = base(106); let l = limit(r, true); ev.x = l; let x = slots[s].as_mut().unwrap(); x.set_emin(l as Exponent); observed(&mut ev, settings(x)); t.put(&ev); }
            7 | 8 => { let mut ev = base(107); let l = limit(r, false); ev.y = le(&[(l + (1 << 31)) as u64]); let x = slots[s].as_mut().unwrap(); x.set_emax(l as Exponent); observed(&mut ev, settings(x)); t.put(&ev); }
            9 => { // clone into another slot
                let d = r.below(6) as usize;
                let mut ev = base(108);
                let mut x = slots[s].as_ref().unwrap().clone().unwrap();
                observed(&mut ev, settings(&mut x));
                ev.b = s as u8; ev.c = d as u8;
                slots[d] = Some(x);
                t.put(&ev);
            }
            10 => {
                let mut ev = base(109);
                let (p, rm, cc, lo, hi) = slots[s].take().unwrap().to_raw_parts();
                observed(&mut ev, (p, rm, lo, hi));
                slots[s] = Some(Context::new(p, rm, cc, lo, hi));
                t.put(&ev);
            }
            11 => { let mut ev = base(111); let x = slots[s].as_mut().unwrap(); x.set_consts(Consts::new().unwrap()); observed(&mut ev, settings(x)); t.put(&ev); }
            12 => { // read through the inherent methods
                let mut ev = base(116); let x = slots[s].as_ref().unwrap(); observed(&mut ev, (x.precision(), x.rounding_mode(), x.emin(), x.emax())); t.put(&ev);
            }
            13..=15 => {
                let op = r.pick(&OPC);
                let tr = r.chance(1, 2);
                let mut ev = base(112);
                ev.y = vec![op];
                ev.dst = t.fresh();
                let x = slots[s].as_mut().unwrap();
                if x.precision() > 5000 && x.precision() < usize::MAX { continue }
                t.call(ev, move |_, _| Out::Num(if tr { konst(x, op) } else { ikonst(x, op) }));
            }
            16 => {
                let (p, rm, lo, hi) = (xprec(r, c.thorough), mode(r), limit(r, true), limit(r, false));
                let five = r.chance(1, 2);
                let mut cc = Consts::new().unwrap();
                if r.chance(1, 2) {
                    let mut ev = base(113);
                    ev.p = p as u64; ev.rm = rmcode(rm); ev.x = lo; ev.y = le(&[(hi + (1 << 31)) as u64]); ev.c = if five { 5 } else { 3 };
                    if five { observed(&mut ev, settings(&mut (p, rm, &mut cc, lo as Exponent, hi as Exponent))) } else { observed(&mut ev, settings(&mut (p, rm, &mut cc))) }
                    t.put(&ev);
                } else {
                    let op = r.pick(&OPC);
                    let mut ev = base(114);
                    ev.p = p as u64; ev.rm = rmcode(rm); ev.y = vec![op]; ev.c = if five { 5 } else { 3 };
                    ev.dst = t.fresh();
                    t.call(ev, move |_, cc| Out::Num(if five { konst(&mut (p, rm, cc, lo as Exponent, hi as Exponent), op) } else { konst(&mut (p, rm, cc), op) }));
                }
            }
            17..=20 => { // an expression in the context as it stands
                let x = slots[s].as_mut().unwrap();
                if x.precision() > 3000 || x.precision() == 0 { continue }
                let k = gentle[r.below(gentle.len() as u64) as usize];
                let (p, rm, lo, hi) = (x.precision(), x.rounding_mode(), x.emin() as i64, x.emax() as i64);
                if lo < -20000 { continue }
                let a = args(t, r, exprs::PROGS[k].cls, p);
                let mut ev = evx(t, exprs::PROGS[k].rpn, &a, p, rm, lo, hi);
                // the specification uses its own idea of the settings
                ev.op = 115; ev.p = 0; ev.rm = 0; ev.x = s as i64; ev.y = vec![];
                let x = slots[s].as_mut().unwrap();
                t.call(ev, move |g, _| Out::Num((exprs::PROGS[k].f)(&g[a.x as usize], &g[a.y as usize], &g[a.z as usize], a.i, a.f, &a.s, x)));
            }
            _ => { // limits next to the exponent of the result
                let k = gentle[r.below(gentle.len() as u64) as usize];
                let p = xprec(r, c.thorough);
                let rm = mode(r);
                let mut a = args(t, r, exprs::PROGS[k].cls, p);
                if r.chance(1, 2) { // move the operands so that results are far from one
                    for q in [&mut a.x, &mut a.y] {
                        let w = words(r, 2);
                        let mut v = fin(r, w, Ec::Small);
                        v.e = r.range(-150, 150);
                        v.ix = false;
                        *q = t.load(&v);
                    }
                }
                let (x, y, z) = (t.val(a.x).clone(), t.val(a.y).clone(), t.val(a.z).clone());
                let (i, f, s2) = (a.i, a.f, a.s.clone());
                let v = t.helper(move |cc| { let mut cx = Context::new(p, rm, std::mem::replace(cc, Consts::new().unwrap()), -10000, 10000); (exprs::PROGS[k].f)(&x, &y, &z, i, f, &s2, &mut cx) });
                let e = match v.as_ref().and_then(|v| if v.is_zero() { None } else { v.exponent() }) { Some(e) => e as i64, None => continue };
                let d = r.pick(&[-1, -1, 0, 0, 1, -2, 2]);
                let (lo, hi) = if e > 0 { (-r.range(0, 400), (e + d).max(0)) } else if e < 0 { ((e + d).min(0), r.range(0, 400)) } else { (0, 0) };
                match r.below(3) {
                    0 => { let mut keep = None; run_ctx(t, k, a, p, rm, lo, hi, &mut keep) }
                    _ => match exprs::T5.iter().position(|q| q.0 == k) { Some(j) => run_t5(t, j, a, p, rm, if lo == 0 && r.chance(1, 2) { r.range(0, 50) } else { lo }, if hi == 0 && r.chance(1, 2) { -r.range(0, 50) } else { hi }), None => { let mut keep = None; run_ctx(t, k, a, p, rm, lo, hi, &mut keep) } },
                }
            }
        }
    }
}

// usage: afm FAMILY SEED SHARD SHARDS EVENTS OUT [thorough]
fn main() {
    let a: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|i| {
        alloc::disarm();
        if std::env::var_os("AFH_LOUD").is_some() { eprintln!("{}", i) }
    }));
    tr::watch();
    let seed: u64 = a[2].parse().unwrap();
    let c = Cfg { shard: a[3].parse().unwrap(), shards: a[4].parse().unwrap(), n: a[5].parse().unwrap(), thorough: a.len() > 7 && a[7] == "thorough" };
    let r = Rng::new(seed.wrapping_mul(1000003).wrapping_add(c.shard * 7919));
    let mut t = Tr::new(&a[6]);
    let h = std::thread::Builder::new().stack_size(64 << 20).spawn(move || match a[1].as_str() {
        "macro" => programs(&mut t, &r, &c),
        "ctx" => contexts(&mut t, &r, &c),
        f => panic!("family {}", f),
    }).unwrap();
    let ok = h.join().is_ok();
    std::process::exit(if ok { 0 } else { 70 });
}
