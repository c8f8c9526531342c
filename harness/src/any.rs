//! A call as data: it can be repeated, run on another thread, or run with failing memory.
use crate::ev::*;
use crate::tr::*;
use astro_float_num::*;

#[derive(Clone, Debug)]
pub struct Call { pub op: u8, pub a: u8, pub b: u8, pub c: u8, pub p: usize, pub rm: RoundingMode, pub n: usize, pub e: i64, pub t: Vec<u8>, pub neg: bool }

impl Call {
    pub fn new(op: u8, a: u8, b: u8, p: usize, rm: RoundingMode) -> Call { Call { op, a, b, c: 255, p, rm, n: 0, e: 0, t: vec![], neg: false } }
    pub fn ev(&self, dst: u8) -> Ev {
        let mut ev = Ev { op: self.op, rm: rmcode(self.rm), dst, a: self.a, b: self.b, c: self.c, p: self.p as u64, ..Default::default() };
        match self.op {
            10..=19 | 70..=73 | 75 | 76 | 86 | 96 => { ev.rm = 0; ev.p = 0; if self.op < 20 || self.op == 86 { ev.rm = rmcode(RoundingMode::ToEven) } }
            21 => { ev.p = 0; ev.y = le(&[self.n as u64]) }
            22 => ev.x = self.e,
            32 => ev.y = le(&[self.n as u64]),
            80 => ev.z = text(&self.t),
            82 => { ev.z = text(&self.t); ev.x = self.e; if self.neg { ev.fl |= INNEG } }
            81 | 83 => ev.p = 0,
            84 => { ev.z = text(&self.t); ev.c = 2; ev.p = u64::MAX; ev.rm = 32 }
            85 => { ev.p = 0; ev.rm = 32 }
            _ => {}
        }
        ev
    }
    pub fn run(&self, r: &[BigFloat], cc: &mut Consts) -> Out {
        let (x, y) = (&r[self.a as usize], &r[self.b as usize]);
        let (p, rm) = (self.p, self.rm);
        match self.op {
            1..=4 | 10..=13 | 31 | 36 => Out::Num(apply2(self.op, x, y, p, rm, cc)),
            5..=7 | 14..=19 | 30 | 33..=35 | 40..=45 | 50..=55 => Out::Num(apply1(self.op, x, p, rm, cc)),
            20 => { let mut x = x.clone(); match x.set_precision(p, rm) { Ok(()) => Out::Num(x), Err(e) => Out::Err(e) } }
            21 => Out::Num(x.round(self.n, rm)),
            22 => { let mut x = x.clone(); let ok = x.try_set_precision(p, rm, self.e as usize); Out::NumZ(x, ok as i64) }
            32 => Out::Num(x.powi(self.n, p, rm)),
            60 => Out::Num(cc.pi(p, rm)), 61 => Out::Num(cc.e(p, rm)), 62 => Out::Num(cc.ln_2(p, rm)), 63 => Out::Num(cc.ln_10(p, rm)),
            70 => Out::Int(x.cmp(y).map(|v| v.signum() as i64).unwrap_or(9)),
            71 => Out::Int(x.abs_cmp(y).map(|v| v.signum() as i64).unwrap_or(9)),
            72 => Out::Num(x.max(y)), 73 => Out::Num(x.min(y)), 74 => Out::Num(x.clamp(y, &r[self.c as usize])), 75 => Out::Num(x.signum()),
            80 => Out::Num(BigFloat::parse(std::str::from_utf8(&self.t).unwrap(), RDX[self.c as usize], p, rm, cc)),
            81 => match x.format(RDX[self.c as usize], rm, cc) { Ok(s) => Out::Text(s.into_bytes()), Err(e) => Out::Err(e) },
            82 => Out::Num(BigFloat::convert_from_radix(if self.neg { Sign::Neg } else { Sign::Pos }, &self.t, self.e as Exponent, RDX[self.c as usize], p, rm, cc)),
            83 => match x.convert_to_radix(RDX[self.c as usize], rm, cc) { Ok((s, d, e)) => Out::Digits(s == Sign::Neg, d, e as i64), Err(e) => Out::Err(e) },
            84 => match std::str::from_utf8(&self.t).unwrap().parse::<BigFloat>() { Ok(v) => Out::Num(v), Err(e) => Out::Err(e) },
            85 => Out::Text(match self.c { 0 => format!("{:b}", x), 1 => format!("{:o}", x), 2 => format!("{}", x), _ => format!("{:X}", x) }.into_bytes()),
            o => unreachable!("{}", o),
        }
    }
}
