// Written by tools/genexpr.py.
#![allow(unused)]
use super::*;
fn e0(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(recip(x), *ctx) }
fn e1(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(recip(x), *ctx) }
fn e2(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(cbrt(x), *ctx) }
fn e3(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(cbrt(x), *ctx) }
fn e4(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(exp(x), *ctx) }
fn e5(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(exp(x), *ctx) }
fn e6(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(sin(x), *ctx) }
fn e7(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(sin(x), *ctx) }
fn e8(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(cos(x), *ctx) }
fn e9(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(cos(x), *ctx) }
fn e10(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(tan(x), *ctx) }
fn e11(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(tan(x), *ctx) }
fn e12(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(atan(x), *ctx) }
fn e13(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(atan(x), *ctx) }
fn e14(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(sinh(x), *ctx) }
fn e15(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(sinh(x), *ctx) }
fn e16(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(cosh(x), *ctx) }
fn e17(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(cosh(x), *ctx) }
fn e18(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(tanh(x), *ctx) }
fn e19(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(tanh(x), *ctx) }
fn e20(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(asinh(x), *ctx) }
fn e21(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(asinh(x), *ctx) }
fn e22(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(sin(x), *ctx) }
fn e23(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(cos(x), *ctx) }
fn e24(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(tan(x), *ctx) }
fn e25(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(sqrt(x), *ctx) }
fn e26(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(sqrt(x), *ctx) }
fn e27(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(sqrt(x), *ctx) }
fn e28(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(ln(x), *ctx) }
fn e29(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(ln(x), *ctx) }
fn e30(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(ln(x), *ctx) }
fn e31(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(log2(x), *ctx) }
fn e32(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(log2(x), *ctx) }
fn e33(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(log2(x), *ctx) }
fn e34(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(log10(x), *ctx) }
fn e35(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(log10(x), *ctx) }
fn e36(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(log10(x), *ctx) }
fn e37(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(asin(x), *ctx) }
fn e38(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(asin(x), *ctx) }
fn e39(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(acos(x), *ctx) }
fn e40(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(acos(x), *ctx) }
fn e41(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(atanh(x), *ctx) }
fn e42(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(atanh(x), *ctx) }
fn e43(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(acosh(x), *ctx) }
fn e44(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(acosh(x), *ctx) }
fn e45(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(log(x, y), *ctx) }
fn e46(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(log(x, y), *ctx) }
fn e47(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(log(x, y), *ctx) }
fn e48(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(pow(x, y), *ctx) }
fn e49(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(pow(x, y), *ctx) }
fn e50(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(pow(x, y), *ctx) }
fn e51(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(x + y, *ctx) }
fn e52(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(x + y, *ctx) }
fn e53(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(y + x, *ctx) }
fn e54(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(x - y, *ctx) }
fn e55(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(x - y, *ctx) }
fn e56(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(y - x, *ctx) }
fn e57(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(x * y, *ctx) }
fn e58(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(x * y, *ctx) }
fn e59(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(y * x, *ctx) }
fn e60(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(x / y, *ctx) }
fn e61(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(x / y, *ctx) }
fn e62(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(y / x, *ctx) }
fn e63(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(x % y, *ctx) }
fn e64(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(x % y, *ctx) }
fn e65(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(y % x, *ctx) }
fn e66(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(x % y, *ctx) }
fn e67(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(-x, *ctx) }
fn e68(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(x, *ctx) }
fn e69(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(--x, *ctx) }
fn e70(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(pi, *ctx) }
fn e71(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(x * pi, *ctx) }
fn e72(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(-pi, *ctx) }
fn e73(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(e, *ctx) }
fn e74(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(x * e, *ctx) }
fn e75(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(-e, *ctx) }
fn e76(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(ln_2, *ctx) }
fn e77(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(x * ln_2, *ctx) }
fn e78(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(-ln_2, *ctx) }
fn e79(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(ln_10, *ctx) }
fn e80(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(x * ln_10, *ctx) }
fn e81(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(-ln_10, *ctx) }
fn e82(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(x + y * z, *ctx) }
fn e83(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(x * y + z, *ctx) }
fn e84(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(x - y - z, *ctx) }
fn e85(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(x - (y - z), *ctx) }
fn e86(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(x / y / z, *ctx) }
fn e87(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(x / (y / z), *ctx) }
fn e88(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(-x * y, *ctx) }
fn e89(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(-x + y, *ctx) }
fn e90(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(x * -y, *ctx) }
fn e91(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(x - -y, *ctx) }
fn e92(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(-(x + y), *ctx) }
fn e93(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(x % y * z, *ctx) }
fn e94(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(x * y % z, *ctx) }
fn e95(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(x - y % z, *ctx) }
fn e96(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(x % y - z, *ctx) }
fn e97(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!((x + y) * z, *ctx) }
fn e98(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(x * (y + z), *ctx) }
fn e99(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(-pow(x, 2), *ctx) }
fn e100(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(x - y + z, *ctx) }
fn e101(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(x / y * z, *ctx) }
fn e102(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(x + y / z, *ctx) }
fn e103(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!((x - y) / (x + y), *ctx) }
fn e104(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(-x / -y, *ctx) }
fn e105(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(((x)), *ctx) }
fn e106(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!((x + (y)) - (z), *ctx) }
fn e107(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(x * y * z + x, *ctx) }
fn e108(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(x + y + z + x, *ctx) }
fn e109(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(-(-x), *ctx) }
fn e110(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(-x - y, *ctx) }
fn e111(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(-x % y, *ctx) }
fn e112(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!((-x) % y, *ctx) }
fn e113(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(x % -y, *ctx) }
fn e114(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(-sqrt(x) + y, *ctx) }
fn e115(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(2 * x - y / 3, *ctx) }
fn e116(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(log(x, y), *ctx) }
fn e117(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(log(y, x), *ctx) }
fn e118(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(pow(x, y), *ctx) }
fn e119(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(pow(y, x), *ctx) }
fn e120(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(log(sqrt(x), y), *ctx) }
fn e121(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(log(x, sqrt(y)), *ctx) }
fn e122(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(pow(sqrt(x), y), *ctx) }
fn e123(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(pow(x, sqrt(y)), *ctx) }
fn e124(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(log(x + y, z), *ctx) }
fn e125(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(pow(x / y, z - x), *ctx) }
fn e126(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(log(8, 2), *ctx) }
fn e127(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(log(2, 8), *ctx) }
fn e128(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(pow(2, 10), *ctx) }
fn e129(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(pow(10, 2), *ctx) }
fn e130(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(log(1000, 10), *ctx) }
fn e131(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(pow(2, -3), *ctx) }
fn e132(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(pow(x, 3), *ctx) }
fn e133(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(pow(3, x), *ctx) }
fn e134(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(pow(-x, 3), *ctx) }
fn e135(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(pow(-x, 4), *ctx) }
fn e136(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(pow(4, 0.5), *ctx) }
fn e137(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(1, *ctx) }
fn e138(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(x * 1, *ctx) }
fn e139(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(0, *ctx) }
fn e140(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(x + 1, *ctx) }
fn e141(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(123, *ctx) }
fn e142(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(x * 123, *ctx) }
fn e143(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(1_000_000, *ctx) }
fn e144(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(x * 1_000_000, *ctx) }
fn e145(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(0x1f, *ctx) }
fn e146(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(x * 0x1f, *ctx) }
fn e147(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(0b101, *ctx) }
fn e148(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(x * 0b101, *ctx) }
fn e149(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(0o17, *ctx) }
fn e150(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(x * 0o17, *ctx) }
fn e151(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(7u8, *ctx) }
fn e152(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(x * 7u8, *ctx) }
fn e153(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(200i64, *ctx) }
fn e154(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(x * 200i64, *ctx) }
fn e155(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(1.5, *ctx) }
fn e156(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(x * 1.5, *ctx) }
fn e157(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(0.1, *ctx) }
fn e158(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(x * 0.1, *ctx) }
fn e159(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(1e5, *ctx) }
fn e160(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(x * 1e5, *ctx) }
fn e161(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(1e-5, *ctx) }
fn e162(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(x * 1e-5, *ctx) }
fn e163(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(2.5e3, *ctx) }
fn e164(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(x * 2.5e3, *ctx) }
fn e165(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(1.25f32, *ctx) }
fn e166(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(x * 1.25f32, *ctx) }
fn e167(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(3f64, *ctx) }
fn e168(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(x * 3f64, *ctx) }
fn e169(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!("0.1", *ctx) }
fn e170(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(x * "0.1", *ctx) }
fn e171(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!("-2.75", *ctx) }
fn e172(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(x * "-2.75", *ctx) }
fn e173(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!("1e-30", *ctx) }
fn e174(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(x * "1e-30", *ctx) }
fn e175(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!("123456789.123456789", *ctx) }
fn e176(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(x * "123456789.123456789", *ctx) }
fn e177(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(123456789012345678901234567890, *ctx) }
fn e178(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(x * 123456789012345678901234567890, *ctx) }
fn e179(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!("1e100", *ctx) }
fn e180(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(x * "1e100", *ctx) }
fn e181(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(-0.1, *ctx) }
fn e182(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(x * -0.1, *ctx) }
fn e183(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(- 5, *ctx) }
fn e184(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(x * - 5, *ctx) }
fn e185(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!("3.14159265358979323846264338327950288419716939937510582097494459230781640628620899", *ctx) }
fn e186(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(x * "3.14159265358979323846264338327950288419716939937510582097494459230781640628620899", *ctx) }
fn e187(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(0.000, *ctx) }
fn e188(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(x + 1, *ctx) }
fn e189(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!("inf", *ctx) }
fn e190(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(x + 1, *ctx) }
fn e191(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(-"inf", *ctx) }
fn e192(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(x + 1, *ctx) }
fn e193(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!("nan", *ctx) }
fn e194(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(x + 1, *ctx) }
fn e195(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(18446744073709551616, *ctx) }
fn e196(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(x * 18446744073709551616, *ctx) }
fn e197(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(0.3333333333333333333333333333333333333333333, *ctx) }
fn e198(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(x * 0.3333333333333333333333333333333333333333333, *ctx) }
fn e199(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!("7.0", *ctx) }
fn e200(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(x * "7.0", *ctx) }
fn e201(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(1_0.5_0, *ctx) }
fn e202(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(x * 1_0.5_0, *ctx) }
fn e203(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(0.1 + 0.2, *ctx) }
fn e204(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!("0.1" + "0.2" - "0.3", *ctx) }
fn e205(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(1 / 3, *ctx) }
fn e206(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(1 / 3 * 3, *ctx) }
fn e207(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(10 % 3, *ctx) }
fn e208(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!("0.1" * 10 - 1, *ctx) }
fn e209(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(7 - 0.7 * 10, *ctx) }
fn e210(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(2 * 3 + 4, *ctx) }
fn e211(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(2 + 3 * 4, *ctx) }
fn e212(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(100 - 10 - 1, *ctx) }
fn e213(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(1 - 1, *ctx) }
fn e214(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(5 % 2.5, *ctx) }
fn e215(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(100000000000000000000 + 1, *ctx) }
fn e216(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(i, *ctx) }
fn e217(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(f, *ctx) }
fn e218(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(s, *ctx) }
fn e219(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(i + x, *ctx) }
fn e220(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(x - f, *ctx) }
fn e221(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(s * x, *ctx) }
fn e222(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(i / 3, *ctx) }
fn e223(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(f * f, *ctx) }
fn e224(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(s + s, *ctx) }
fn e225(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(exp(f), *ctx) }
fn e226(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(sin(i), *ctx) }
fn e227(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(ln(s), *ctx) }
fn e228(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(pow(i, f), *ctx) }
fn e229(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(log(s, x), *ctx) }
fn e230(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(i * f - s, *ctx) }
fn e231(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(s - f, *ctx) }
fn e232(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(sqrt(i) + f, *ctx) }
fn e233(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(x % f, *ctx) }
fn e234(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(atan(s / i), *ctx) }
fn e235(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(s / s, *ctx) }
fn e236(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(f - f, *ctx) }
fn e237(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(ln(1 + exp(-y)), *ctx) }
fn e238(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(ln(1 - exp(-y)), *ctx) }
fn e239(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(log2(1 + exp(-y)), *ctx) }
fn e240(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(log2(1 - exp(-y)), *ctx) }
fn e241(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(log10(1 + exp(-y)), *ctx) }
fn e242(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(log10(1 - exp(-y)), *ctx) }
fn e243(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(log(1 + exp(-y), x), *ctx) }
fn e244(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(log(1 - exp(-y), x), *ctx) }
fn e245(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(log(x, 1 + exp(-y)), *ctx) }
fn e246(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(log(x, 1 - exp(-y)), *ctx) }
fn e247(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(log(1 + exp(-y), 1 - exp(-y)), *ctx) }
fn e248(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(log(1 + exp(-y), 1 + exp(-y) * x), *ctx) }
fn e249(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(log(exp(x), 1 + exp(-y)), *ctx) }
fn e250(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(log(1 + exp(-y), exp(x)), *ctx) }
fn e251(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(pow(1 + exp(-y), exp(y)), *ctx) }
fn e252(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(pow(1 - exp(-y), exp(y)), *ctx) }
fn e253(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(pow(1 + exp(-y), x * exp(y * 0.9)), *ctx) }
fn e254(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(pow(1 + exp(-y), -exp(y)), *ctx) }
fn e255(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(pow(sqrt(x), exp(y * 0.1)), *ctx) }
fn e256(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(pow(sqrt(x), 1000), *ctx) }
fn e257(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(pow(sqrt(x), -1000), *ctx) }
fn e258(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(pow(exp(x), sqrt(z)), *ctx) }
fn e259(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(pow(x, 100 * sqrt(z)), *ctx) }
fn e260(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(pow(1 + exp(-y), z), *ctx) }
fn e261(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(pow(x, exp(-y)), *ctx) }
fn e262(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(pow(x, exp(-y)) - 1, *ctx) }
fn e263(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(sin(pi + exp(-y)), *ctx) }
fn e264(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(sin(pi * 3 - exp(-y)), *ctx) }
fn e265(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(sin(-pi * 10 + exp(-y)), *ctx) }
fn e266(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(cos(pi / 2 + exp(-y)), *ctx) }
fn e267(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(cos(pi / 2 - exp(-y)), *ctx) }
fn e268(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(cos(pi * 7 / 2 + exp(-y)), *ctx) }
fn e269(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(cos(-pi * 1.5 + exp(-y)), *ctx) }
fn e270(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(tan(pi + exp(-y)), *ctx) }
fn e271(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(tan(pi - exp(-y)), *ctx) }
fn e272(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(tan(pi / 2 + exp(-y)), *ctx) }
fn e273(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(tan(pi / 2 - exp(-y)), *ctx) }
fn e274(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(tan(-pi * 5 / 2 + exp(-y)), *ctx) }
fn e275(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(tan(pi * 4 + exp(-y)), *ctx) }
fn e276(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(sin(pi * 1000000 + exp(-y)), *ctx) }
fn e277(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(cos(pi * 1000000.5 + exp(-y)), *ctx) }
fn e278(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(tan(pi * 1000000.5 + exp(-y)), *ctx) }
fn e279(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(sin(exp(y * 0.8)), *ctx) }
fn e280(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(cos(exp(y * 0.8)), *ctx) }
fn e281(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(tan(exp(y * 0.8)), *ctx) }
fn e282(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(sin(1000000 * sqrt(x)), *ctx) }
fn e283(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(cos(1000000 * sqrt(x)), *ctx) }
fn e284(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(tan(1000000 * sqrt(x)), *ctx) }
fn e285(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(asin(1 - exp(-y)), *ctx) }
fn e286(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(asin(exp(-y) - 1), *ctx) }
fn e287(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(acos(1 - exp(-y)), *ctx) }
fn e288(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(acos(exp(-y) - 1), *ctx) }
fn e289(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(acos(exp(-y)), *ctx) }
fn e290(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(asin(exp(-y)), *ctx) }
fn e291(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(acosh(1 + exp(-y)), *ctx) }
fn e292(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(atanh(1 - exp(-y)), *ctx) }
fn e293(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(atanh(exp(-y) - 1), *ctx) }
fn e294(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(atanh(exp(-y)), *ctx) }
fn e295(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(asinh(exp(-y)), *ctx) }
fn e296(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(tanh(exp(-y)), *ctx) }
fn e297(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(sinh(exp(-y)), *ctx) }
fn e298(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(atan(exp(-y)), *ctx) }
fn e299(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(tanh(x) - 1, *ctx) }
fn e300(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(acosh(cosh(x * 0.1)), *ctx) }
fn e301(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(acos(cos(x * 0.01)), *ctx) }
fn e302(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(asin(cos(x * 0.01)), *ctx) }
fn e303(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(atanh(tanh(x * 0.3)), *ctx) }
fn e304(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(exp(exp(-y)) - 1, *ctx) }
fn e305(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!((exp(exp(-y)) - 1) / exp(-y), *ctx) }
fn e306(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(cosh(exp(-y * 0.4)) - 1, *ctx) }
fn e307(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(1 - cos(exp(-y * 0.4)), *ctx) }
fn e308(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(sqrt(1 + exp(-y)) - 1, *ctx) }
fn e309(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(cbrt(1 + exp(-y)) - 1, *ctx) }
fn e310(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!((x + exp(-y)) - x, *ctx) }
fn e311(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(x - (x - exp(-y)), *ctx) }
fn e312(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(exp(x + exp(-y)) - exp(x), *ctx) }
fn e313(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(ln(x + exp(-y)) - ln(x), *ctx) }
fn e314(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(atan(x + exp(-y)) - atan(x), *ctx) }
fn e315(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(sqrt(x + exp(-y)) - sqrt(x), *ctx) }
fn e316(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(sin(x + exp(-y)) - sin(x), *ctx) }
fn e317(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(1 / x - 1 / (x + exp(-y)), *ctx) }
fn e318(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(recip(x) - recip(x + exp(-y)), *ctx) }
fn e319(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(tan(x) - sin(x) / cos(x) + exp(-y), *ctx) }
fn e320(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(exp(ln(x)) - x + exp(-y), *ctx) }
fn e321(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(pi - 3.14159265358979 + exp(-y), *ctx) }
fn e322(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(pi - 355 / 113, *ctx) }
fn e323(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(e - 2.718281828459045, *ctx) }
fn e324(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(ln_10 - ln(10) + exp(-y), *ctx) }
fn e325(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(ln_2 * 3 - ln(8) + exp(-y), *ctx) }
fn e326(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(-x + (x + exp(-y)), *ctx) }
fn e327(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(-(x + exp(-y)) + x, *ctx) }
fn e328(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(-exp(x) + exp(x + exp(-y)), *ctx) }
fn e329(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(1 - tanh(x * 10), *ctx) }
fn e330(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!((1 + exp(-y)) * (1 - exp(-y)) - 1, *ctx) }
fn e331(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(sin(x) * sin(x) + cos(x) * cos(x) - 1 + exp(-y), *ctx) }
fn e332(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(cosh(x) * cosh(x) - sinh(x) * sinh(x) - 1 + exp(-y), *ctx) }
fn e333(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!((sqrt(x + exp(-y)) - sqrt(x)) / exp(-y), *ctx) }
fn e334(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(ln(x + exp(-y)) - ln(x) + z * exp(-y), *ctx) }
fn e335(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(exp(1000 * (sqrt(x + exp(-y)) - sqrt(x))), *ctx) }
fn e336(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(sin(1000 * (exp(exp(-y)) - 1) / exp(-y)), *ctx) }
fn e337(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!((exp(x) - 1) % exp(-y), *ctx) }
fn e338(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(exp(x * 10) % pi, *ctx) }
fn e339(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(exp(x * 10) % 1, *ctx) }
fn e340(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(x % exp(-x * 10), *ctx) }
fn e341(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(1000000 * sqrt(x) % ln_2, *ctx) }
fn e342(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(1000 * ln(x) % sqrt(z), *ctx) }
fn e343(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(exp(1000 * sqrt(x)), *ctx) }
fn e344(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(exp(-1000 * sqrt(x)), *ctx) }
fn e345(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(sinh(1000 * sqrt(x)), *ctx) }
fn e346(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(cosh(1000 * sqrt(x)), *ctx) }
fn e347(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(sinh(-100 * sqrt(x)), *ctx) }
fn e348(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(exp(exp(x * 0.1)), *ctx) }
fn e349(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(ln(ln(x + 3)), *ctx) }
fn e350(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(ln(exp(x)), *ctx) }
fn e351(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(exp(ln(x)), *ctx) }
fn e352(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(sqrt(x) * sqrt(x), *ctx) }
fn e353(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(exp(x) * exp(-x), *ctx) }
fn e354(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(tan(atan(x)), *ctx) }
fn e355(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(sin(asin(1 / (x + 1))), *ctx) }
fn e356(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(ln(sqrt(1 + exp(-y))), *ctx) }
fn e357(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(ln(1 + exp(-y) + exp(-y)), *ctx) }
fn e358(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(ln(1 + exp(-y)) + ln(1 - exp(-y)), *ctx) }
fn e359(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(acos(1 - exp(-y)) * acos(1 - exp(-y)), *ctx) }
fn e360(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(recip(ln(1 + exp(-y))), *ctx) }
fn e361(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(1 / (x - (x - exp(-y))), *ctx) }
fn e362(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(1 / sin(pi + exp(-y)), *ctx) }
fn e363(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(sqrt(sin(pi - exp(-y))), *ctx) }
fn e364(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(ln(sin(pi - exp(-y))), *ctx) }
fn e365(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(atan(1 / cos(pi / 2 - exp(-y))), *ctx) }
fn e366(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(pow(1 + exp(-y), 1 / exp(-y)), *ctx) }
fn e367(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(pow(1 - exp(-y), 1 / exp(-y)), *ctx) }
fn e368(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(log(1 + exp(-y), 1 + exp(-y) / 3), *ctx) }
fn e369(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(acos(cos(exp(-y))), *ctx) }
fn e370(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(asin(cos(exp(-y))), *ctx) }
fn e371(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(acosh(cosh(exp(-y))), *ctx) }
fn e372(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(acosh(exp(exp(-y))), *ctx) }
fn e373(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(ln(cos(exp(-y))), *ctx) }
fn e374(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(ln(cosh(exp(-y))), *ctx) }
fn e375(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(ln(exp(exp(-y))), *ctx) }
fn e376(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(log2(exp(exp(-y))), *ctx) }
fn e377(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(log10(sqrt(exp(exp(-y)))), *ctx) }
fn e378(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(log(cosh(exp(-y)), x), *ctx) }
fn e379(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(log(x, exp(exp(-y))), *ctx) }
fn e380(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(log(x, cos(exp(-y))), *ctx) }
fn e381(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(pow(cosh(exp(-y)), 1 / exp(-y)), *ctx) }
fn e382(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(pow(cos(exp(-y)), exp(y)), *ctx) }
fn e383(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(pow(exp(exp(-y)), exp(y)), *ctx) }
fn e384(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(cos(acos(exp(-y))), *ctx) }
fn e385(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(sin(acos(exp(-y) - 1)), *ctx) }
fn e386(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(tan(acos(exp(-y))), *ctx) }
fn e387(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(cos(atan(1 / exp(-y))), *ctx) }
fn e388(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(tan(atan(1 / exp(-y))), *ctx) }
fn e389(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(sin(2 * acos(exp(-y))), *ctx) }
fn e390(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(sin(2 * atan(1 / exp(-y))), *ctx) }
fn e391(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(acos(sqrt(exp(-exp(-y)))), *ctx) }
fn e392(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(asin(cbrt(exp(-exp(-y)))), *ctx) }
fn e393(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(atanh(sqrt(exp(-exp(-y)))), *ctx) }
fn e394(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(atanh(cos(exp(-y))), *ctx) }
fn e395(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(acosh(sqrt(1 + exp(-y)) / cos(exp(-y))), *ctx) }
fn e396(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(acos(-cos(exp(-y))), *ctx) }
fn e397(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(asin(-cos(exp(-y))), *ctx) }
fn e398(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(atanh(-exp(-exp(-y))), *ctx) }
fn e399(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(acos(cos(exp(-y * 0.5))), *ctx) }
fn e400(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(asin(cos(exp(-y * 0.5))), *ctx) }
fn e401(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(acosh(cosh(exp(-y * 0.5))), *ctx) }
fn e402(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(acosh(exp(exp(-y * 0.5))), *ctx) }
fn e403(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(ln(cos(exp(-y * 0.5))), *ctx) }
fn e404(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(ln(cosh(exp(-y * 0.5))), *ctx) }
fn e405(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(ln(exp(exp(-y * 0.5))), *ctx) }
fn e406(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(log2(exp(exp(-y * 0.5))), *ctx) }
fn e407(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(log10(sqrt(exp(exp(-y * 0.5)))), *ctx) }
fn e408(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(log(cosh(exp(-y * 0.5)), x), *ctx) }
fn e409(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(log(x, exp(exp(-y * 0.5))), *ctx) }
fn e410(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(log(x, cos(exp(-y * 0.5))), *ctx) }
fn e411(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(pow(cosh(exp(-y * 0.5)), 1 / exp(-y * 0.5)), *ctx) }
fn e412(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(pow(cos(exp(-y * 0.5)), exp(y)), *ctx) }
fn e413(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(pow(exp(exp(-y * 0.5)), exp(y)), *ctx) }
fn e414(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(cos(acos(exp(-y * 0.5))), *ctx) }
fn e415(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(sin(acos(exp(-y * 0.5) - 1)), *ctx) }
fn e416(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(tan(acos(exp(-y * 0.5))), *ctx) }
fn e417(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(cos(atan(1 / exp(-y * 0.5))), *ctx) }
fn e418(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(tan(atan(1 / exp(-y * 0.5))), *ctx) }
fn e419(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(sin(2 * acos(exp(-y * 0.5))), *ctx) }
fn e420(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(sin(2 * atan(1 / exp(-y * 0.5))), *ctx) }
fn e421(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(acos(sqrt(exp(-exp(-y * 0.5)))), *ctx) }
fn e422(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(asin(cbrt(exp(-exp(-y * 0.5)))), *ctx) }
fn e423(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(atanh(sqrt(exp(-exp(-y * 0.5)))), *ctx) }
fn e424(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(atanh(cos(exp(-y * 0.5))), *ctx) }
fn e425(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(acosh(sqrt(1 + exp(-y * 0.5)) / cos(exp(-y * 0.5))), *ctx) }
fn e426(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(acos(-cos(exp(-y * 0.5))), *ctx) }
fn e427(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(asin(-cos(exp(-y * 0.5))), *ctx) }
fn e428(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(atanh(-exp(-exp(-y * 0.5))), *ctx) }
fn e429(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(acos(cos(y / exp(y))), *ctx) }
fn e430(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(asin(cos(y / exp(y))), *ctx) }
fn e431(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(acosh(cosh(y / exp(y))), *ctx) }
fn e432(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(acosh(exp(y / exp(y))), *ctx) }
fn e433(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(ln(cos(y / exp(y))), *ctx) }
fn e434(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(ln(cosh(y / exp(y))), *ctx) }
fn e435(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(ln(exp(y / exp(y))), *ctx) }
fn e436(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(log2(exp(y / exp(y))), *ctx) }
fn e437(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(log10(sqrt(exp(y / exp(y)))), *ctx) }
fn e438(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(log(cosh(y / exp(y)), x), *ctx) }
fn e439(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(log(x, exp(y / exp(y))), *ctx) }
fn e440(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(log(x, cos(y / exp(y))), *ctx) }
fn e441(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(pow(cosh(y / exp(y)), 1 / y / exp(y)), *ctx) }
fn e442(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(pow(cos(y / exp(y)), exp(y)), *ctx) }
fn e443(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(pow(exp(y / exp(y)), exp(y)), *ctx) }
fn e444(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(cos(acos(y / exp(y))), *ctx) }
fn e445(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(sin(acos(y / exp(y) - 1)), *ctx) }
fn e446(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(tan(acos(y / exp(y))), *ctx) }
fn e447(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(cos(atan(1 / y / exp(y))), *ctx) }
fn e448(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(tan(atan(1 / y / exp(y))), *ctx) }
fn e449(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(sin(2 * acos(y / exp(y))), *ctx) }
fn e450(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(sin(2 * atan(1 / y / exp(y))), *ctx) }
fn e451(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(acos(sqrt(exp(-y / exp(y)))), *ctx) }
fn e452(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(asin(cbrt(exp(-y / exp(y)))), *ctx) }
fn e453(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(atanh(sqrt(exp(-y / exp(y)))), *ctx) }
fn e454(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(atanh(cos(y / exp(y))), *ctx) }
fn e455(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(acosh(sqrt(1 + y / exp(y)) / cos(y / exp(y))), *ctx) }
fn e456(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(acos(-cos(y / exp(y))), *ctx) }
fn e457(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(asin(-cos(y / exp(y))), *ctx) }
fn e458(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(atanh(-exp(-y / exp(y))), *ctx) }
fn e459(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(acos(tanh(x * 9 + z)), *ctx) }
fn e460(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(asin(tanh(x * 9 + z)), *ctx) }
fn e461(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(atanh(tanh(x * 9 + z)), *ctx) }
fn e462(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(ln(tanh(x * 9 + z)), *ctx) }
fn e463(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(log(x, tanh(y * 9)), *ctx) }
fn e464(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(pow(tanh(x * 9 + z), exp(x * 18)), *ctx) }
fn e465(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(atanh(sin(x)), *ctx) }
fn e466(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(acos(sin(x)), *ctx) }
fn e467(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(asin(sin(x)), *ctx) }
fn e468(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(acos(cos(x)), *ctx) }
fn e469(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(atan(tan(x)), *ctx) }
fn e470(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(asin(cos(1000 * x)), *ctx) }
fn e471(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(acos(1 / cosh(x)), *ctx) }
fn e472(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(atanh(1 / cosh(x)), *ctx) }
fn e473(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(acosh(1 / cos(x * 0.01)), *ctx) }
fn e474(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!((x + y) - x, *ctx) }
fn e475(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!((x + y) - (x - y), *ctx) }
fn e476(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!((x + y) * (x - y) - x * x, *ctx) }
fn e477(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!((x - y) % x, *ctx) }
fn e478(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(x * x - (x - y) * (x + y), *ctx) }
fn e479(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(x - y * x / y, *ctx) }
fn e480(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(1 / (1 + y) - 1, *ctx) }
fn e481(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(sqrt(x * x + y) - x, *ctx) }
fn e482(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(ln(1 + y), *ctx) }
fn e483(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(log(1 + y, 1 + 2 * y), *ctx) }
fn e484(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(atanh(1 - y), *ctx) }
fn e485(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(acos(1 - y), *ctx) }
fn e486(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(asin(1 - y), *ctx) }
fn e487(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(acosh(1 + y), *ctx) }
fn e488(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(exp(y) - 1, *ctx) }
fn e489(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(recip(asinh(log((x + y), x * y))), *ctx) }
fn e490(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(recip(cos(pow(x, ln_2))), *ctx) }
fn e491(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(recip((x) / (z + x)), *ctx) }
fn e492(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(sqrt(cosh(z)), *ctx) }
fn e493(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(sqrt(y), *ctx) }
fn e494(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(sqrt(sqrt(x)), *ctx) }
fn e495(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(cbrt((y) % (ln(exp(5)))), *ctx) }
fn e496(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(cbrt(pow(x / y, 0.3 % (5))), *ctx) }
fn e497(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(cbrt(pow(cosh(z), asin(sin(ln_10)))), *ctx) }
fn e498(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(exp(e), *ctx) }
fn e499(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(exp((pow(exp(x), z)) + (5)), *ctx) }
fn e500(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(exp(asinh((x) - (y))), *ctx) }
fn e501(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(ln(y), *ctx) }
fn e502(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(ln(x), *ctx) }
fn e503(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(ln(x / y), *ctx) }
fn e504(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(log2(sqrt(x)), *ctx) }
fn e505(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(log2(cosh(z)), *ctx) }
fn e506(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(log2(x), *ctx) }
fn e507(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(log10(cosh(z)), *ctx) }
fn e508(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(log10(x), *ctx) }
fn e509(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(log10((x + y)), *ctx) }
fn e510(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(sin(-(ln_10) % log2(x / y)), *ctx) }
fn e511(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(sin(pow(acos(1 / (y + 1)), ("1.1") - z)), *ctx) }
fn e512(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(sin(ln_2 + (z) - (pow((x + sqrt(y)), e))), *ctx) }
fn e513(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(cos(log2(x / y)), *ctx) }
fn e514(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(cos(-(ln_2 - (ln_10))), *ctx) }
fn e515(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(cos(pow(x * y, log(x, y))), *ctx) }
fn e516(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(tan(acos(tanh(z))), *ctx) }
fn e517(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(tan((acosh(exp(x))) * (ln_10 * (y))), *ctx) }
fn e518(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(tan((z) - (y) % log10(y)), *ctx) }
fn e519(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(asin(recip(1 + y)), *ctx) }
fn e520(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(asin(cos((x) + (2))), *ctx) }
fn e521(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(acos(exp(-x)), *ctx) }
fn e522(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(acos(tanh(z)), *ctx) }
fn e523(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(acos(sin((0.3) * (pi))), *ctx) }
fn e524(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(atan(((0.3) * (x)) * ((y) / (0.3))), *ctx) }
fn e525(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(atan(asin(tanh(z))), *ctx) }
fn e526(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(atan((5) / (ln_2 / z)), *ctx) }
fn e527(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(sinh((cbrt(5)) + (pow(exp(pi), z))), *ctx) }
fn e528(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(sinh(y), *ctx) }
fn e529(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(sinh(log(x, x)), *ctx) }
fn e530(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(cosh(sqrt(x / y)), *ctx) }
fn e531(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(cosh(recip(pi * (z))), *ctx) }
fn e532(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(cosh(cos(log(x * y, y))), *ctx) }
fn e533(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(tanh(ln_10), *ctx) }
fn e534(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(tanh(x), *ctx) }
fn e535(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(tanh(log10(y)), *ctx) }
fn e536(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(asinh((5) + sinh(5)), *ctx) }
fn e537(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(asinh(tanh(("1.1") * (e))), *ctx) }
fn e538(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(asinh(asin(x / (x + y))), *ctx) }
fn e539(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(acosh((x + y) / x), *ctx) }
fn e540(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(acosh(exp(x)), *ctx) }
fn e541(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(acosh(1 + x), *ctx) }
fn e542(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(atanh(recip(1 + y)), *ctx) }
fn e543(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(atanh(exp(-x)), *ctx) }
fn e544(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(atanh(1 / (1 + x)), *ctx) }
fn e545(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(exp(e) - tanh(x) - pow(exp(y), (x) - x) - ((pow(cosh(z), z % (z))) + (log(x, x * y))), *ctx) }
fn e546(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(log((x + 1), y), *ctx) }
fn e547(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(((acosh((1 + exp(z)))) - (pi)) + (ln(acos(1 / (y + 1)))), *ctx) }
fn e548(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(ln_2, *ctx) }
fn e549(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(pow(sqrt(x), x), *ctx) }
fn e550(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(pow(exp(log((x + pi), x / y)), tan(z)), *ctx) }
fn e551(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(cosh(e - 5), *ctx) }
fn e552(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(((5) * ("1.1")) + (cbrt(y)), *ctx) }
fn e553(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(log(sqrt(x), y) - -x - recip(e), *ctx) }
fn e554(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(atanh(sin(y - (ln_10))), *ctx) }
fn e555(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(pow(exp(z + (z)), log(acos(1 / (y + 1)), sqrt(x))) - sin((y / "1.1") * -(z)), *ctx) }
fn e556(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!((("1.1") / (pi)) - (2) / z, *ctx) }
fn e557(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(log((x + y), (x + sqrt(y))) - (atanh(sin(pi))), *ctx) }
fn e558(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(pow(x, 5), *ctx) }
fn e559(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(log(cosh(z), x / y) + x % (x) + 2 + (2) - (sqrt(x * y)), *ctx) }
fn e560(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(pow((x + sqrt(y)), ("1.1") + (x)), *ctx) }
fn e561(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(log(x, y), *ctx) }
fn e562(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(((z) % (e)) - ((0.3) * (pi * (5))), *ctx) }
fn e563(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!((sin(z)) * (ln_2) * y - ((-x) - acos(tanh(z))), *ctx) }
fn e564(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(sinh(tanh(-(z))), *ctx) }
fn e565(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!((atanh(exp(-x))) + (pi) * asin(exp(-x)), *ctx) }
fn e566(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(log(y, sqrt(x)), *ctx) }
fn e567(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(sqrt((x + y)), *ctx) }
fn e568(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(-(atanh(x / (x + y))), *ctx) }
fn e569(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!((cbrt(pow(exp(ln_2), cosh(y)))) + -y, *ctx) }
fn e570(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(tan(pow(cosh(z), e)), *ctx) }
fn e571(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!((ln_2) + ((e) + (y)), *ctx) }
fn e572(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(log(acos(1 / (y + 1)), (x + sqrt(y))), *ctx) }
fn e573(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!((log(exp("1.1"), (x + 1))) + ((e) * 0.3 - (sinh(5))), *ctx) }
fn e574(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(sinh(pow((x + pi), exp(e))), *ctx) }
fn e575(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!((z) - ("1.1"), *ctx) }
fn e576(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(pow(acos(1 / (y + 1)), (ln_10) % (pi)), *ctx) }
fn e577(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!((atan(x) - (ln(y))) - (pow(exp("1.1"), acos(1 / (1 + x)))), *ctx) }
fn e578(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(asinh(ln_10 + 2 - (2) - x), *ctx) }
fn e579(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(pow(cosh(z), -(log(sqrt(x), acos(1 / (y + 1))))), *ctx) }
fn e580(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!((log((x + y), x * y)) * sqrt(x) / ((ln_10) / 5), *ctx) }
fn e581(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!((log(x / y, x / y)) - ((pi) + 2), *ctx) }
fn e582(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(cosh(sqrt(exp(atan(x)))), *ctx) }
fn e583(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(sin((e) - (pow(sqrt(x), cbrt(y)))), *ctx) }
fn e584(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!((x) + (((2) / (y)) - (pow(x * y, e))), *ctx) }
fn e585(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(log(x, exp("1.1")), *ctx) }
fn e586(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!((2) * (e), *ctx) }
fn e587(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(exp(sin(z)), *ctx) }
fn e588(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(tanh(atanh(tanh(z))), *ctx) }
fn e589(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(cosh(log(cosh(z), acos(1 / (y + 1)))) + (pow(cosh(z), (x) + (5))), *ctx) }
fn e590(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(cos(asinh(log((x + sqrt(y)), x / y))), *ctx) }
fn e591(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(tan((ln_2) / (pow(y, pi) + z % ("1.1"))), *ctx) }
fn e592(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(sin(z + (y)), *ctx) }
fn e593(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(ln(acos(1 / (y + 1))), *ctx) }
fn e594(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(pow(y, log((x + pi), exp(-(5)))), *ctx) }
fn e595(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!((0.3) * (pow(exp(0.3), ln_10)), *ctx) }
fn e596(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!((sinh(log2(x * y))) - "1.1", *ctx) }
fn e597(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(asin(sin(0.3 + (5))), *ctx) }
fn e598(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!((cbrt(0.3) - (log(x / y, x * y))) / log(exp(ln_10), acos(1 / (y + 1))), *ctx) }
fn e599(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(log(y, x / y), *ctx) }
fn e600(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(z - z - (pow(x, ln_10)) * (asinh(acosh(cosh(x)))), *ctx) }
fn e601(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!((e + y) % (atanh(sin(2))) * ((y) / (2) + (log(sqrt(x), x))) - log(sqrt(x), y), *ctx) }
fn e602(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!((pow(exp(y), sin(y))) * (log(sqrt(x), exp(y))), *ctx) }
fn e603(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(sin(sinh(log(sqrt(x), x / y))), *ctx) }
fn e604(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(((z) % (y)) + (log(x, acos(1 / (y + 1)))) - (e), *ctx) }
fn e605(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(sinh(z) % (atanh(x / (x + y))), *ctx) }
fn e606(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(acosh(1 + x) - "1.1", *ctx) }
fn e607(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(sqrt(exp(asinh(e) * (z))), *ctx) }
fn e608(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(acosh(cosh(x)), *ctx) }
fn e609(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(tan(asinh(acos(1 / (1 + x)) + log(x, acos(1 / (y + 1))))), *ctx) }
fn e610(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!((atan(z)) % (z) * (z) / (tan(2)), *ctx) }
fn e611(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(((2) + (log(exp(z), sqrt(x)))) % log(exp(pi), cosh(z)), *ctx) }
fn e612(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(0.3 - (x + ((ln_2 * 5) * (sin(x)))), *ctx) }
fn e613(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(log10(sqrt(x)), *ctx) }
fn e614(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(atanh(x / (x + y)) * (acosh((x + y) / x)) - acosh(cosh(x)), *ctx) }
fn e615(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!((cbrt(exp(sinh(x)))) + (pow(x * y, atan(ln(sqrt(x))))), *ctx) }
fn e616(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(((x) % (z)) / pow(acos(1 / (y + 1)), "1.1"), *ctx) }
fn e617(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(asinh(log10(exp(z))), *ctx) }
fn e618(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(log(cosh(z), x * y), *ctx) }
fn e619(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!((pow(cosh(z), atanh(x / (x + y)))) - ((2) % y) / "1.1", *ctx) }
fn e620(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(log((x + sqrt(y)), (x + sqrt(y))), *ctx) }
fn e621(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(atanh(cos((y) / (e))), *ctx) }
fn e622(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(cbrt(pi), *ctx) }
fn e623(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(tanh(sinh(z)), *ctx) }
fn e624(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(exp((pow(x, pi)) / ((y) * ln_10)), *ctx) }
fn e625(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!((atan(0.3)) % (log(x, y)) * (-x), *ctx) }
fn e626(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!((z + log(exp("1.1"), exp(5))) - ln_2, *ctx) }
fn e627(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(-(sinh(log2(x / y))), *ctx) }
fn e628(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(recip(asinh(ln_10) + (log10(acos(1 / (y + 1))))), *ctx) }
fn e629(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(ln(cosh(z)), *ctx) }
fn e630(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(log(exp(z), exp(x)), *ctx) }
fn e631(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!((cosh(ln_10)) + log(exp(z), x), *ctx) }
fn e632(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!((log((x + pi), acos(1 / (y + 1)))) * (((x) % (y)) % (acosh(cosh(x)))), *ctx) }
fn e633(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(log(exp((0.3) - (2)), exp(("1.1") + x)), *ctx) }
fn e634(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(-((log(y, (x + sqrt(y)))) / ((e) + y)), *ctx) }
fn e635(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(log2(x * y), *ctx) }
fn e636(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(recip(atanh(sin(y))), *ctx) }
fn e637(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!((sinh(acosh(1 + x))) * (-y), *ctx) }
fn e638(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(asinh(sin((5) - pi)), *ctx) }
macro_rules! g639 { ($a:expr, $b:expr, $c:expr) => { expr!($a * $b, $c) } }
fn e639(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { g639!(x, y, *ctx) }
macro_rules! g640 { ($a:expr, $b:expr, $c:expr) => { expr!($a - $b, $c) } }
fn e640(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { g640!(x, y, *ctx) }
macro_rules! g641 { ($a:expr, $b:expr, $c:expr) => { expr!(-$a, $c) } }
fn e641(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { g641!(x, y, *ctx) }
macro_rules! g642 { ($a:expr, $b:expr, $c:expr) => { expr!($b / $a, $c) } }
fn e642(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { g642!(x, y, *ctx) }
macro_rules! g643 { ($a:expr, $b:expr, $c:expr) => { expr!(exp($a) - $b, $c) } }
fn e643(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { g643!(x, y, *ctx) }
macro_rules! g644 { ($a:expr, $b:expr, $c:expr) => { expr!($a * $b, $c) } }
fn e644(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { g644!(x + 1, y, *ctx) }
macro_rules! g645 { ($a:expr, $b:expr, $c:expr) => { expr!($a - $b, $c) } }
fn e645(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { g645!(x + 1, y, *ctx) }
macro_rules! g646 { ($a:expr, $b:expr, $c:expr) => { expr!(-$a, $c) } }
fn e646(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { g646!(x + 1, y, *ctx) }
macro_rules! g647 { ($a:expr, $b:expr, $c:expr) => { expr!($b / $a, $c) } }
fn e647(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { g647!(x + 1, y, *ctx) }
macro_rules! g648 { ($a:expr, $b:expr, $c:expr) => { expr!(exp($a) - $b, $c) } }
fn e648(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { g648!(x + 1, y, *ctx) }
macro_rules! g649 { ($a:expr, $b:expr, $c:expr) => { expr!($a * $b, $c) } }
fn e649(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { g649!(-x, y - z, *ctx) }
macro_rules! g650 { ($a:expr, $b:expr, $c:expr) => { expr!($a - $b, $c) } }
fn e650(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { g650!(-x, y - z, *ctx) }
macro_rules! g651 { ($a:expr, $b:expr, $c:expr) => { expr!(-$a, $c) } }
fn e651(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { g651!(-x, y - z, *ctx) }
macro_rules! g652 { ($a:expr, $b:expr, $c:expr) => { expr!($b / $a, $c) } }
fn e652(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { g652!(-x, y - z, *ctx) }
macro_rules! g653 { ($a:expr, $b:expr, $c:expr) => { expr!(exp($a) - $b, $c) } }
fn e653(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { g653!(-x, y - z, *ctx) }
macro_rules! g654 { ($a:expr, $b:expr, $c:expr) => { expr!($a * $b, $c) } }
fn e654(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { g654!(sin(x), 2, *ctx) }
macro_rules! g655 { ($a:expr, $b:expr, $c:expr) => { expr!($a - $b, $c) } }
fn e655(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { g655!(sin(x), 2, *ctx) }
macro_rules! g656 { ($a:expr, $b:expr, $c:expr) => { expr!(-$a, $c) } }
fn e656(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { g656!(sin(x), 2, *ctx) }
macro_rules! g657 { ($a:expr, $b:expr, $c:expr) => { expr!($b / $a, $c) } }
fn e657(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { g657!(sin(x), 2, *ctx) }
macro_rules! g658 { ($a:expr, $b:expr, $c:expr) => { expr!(exp($a) - $b, $c) } }
fn e658(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { g658!(sin(x), 2, *ctx) }
fn e659(x: &BigFloat, arg1: &BigFloat, arg2: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(x + arg1, *ctx) }
fn e660(arg2: &BigFloat, arg1: &BigFloat, ret: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(arg2 + arg1, *ctx) }
fn e661(emin: &BigFloat, arg: &BigFloat, emax: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(emin + arg, *ctx) }
fn e662(x: &BigFloat, arg1: &BigFloat, arg2: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(arg1 - x, *ctx) }
fn e663(arg2: &BigFloat, arg1: &BigFloat, ret: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(arg1 - arg2, *ctx) }
fn e664(emin: &BigFloat, arg: &BigFloat, emax: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(arg - emin, *ctx) }
fn e665(x: &BigFloat, arg1: &BigFloat, arg2: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(x * (arg1 + arg2), *ctx) }
fn e666(arg2: &BigFloat, arg1: &BigFloat, ret: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(arg2 * (arg1 + ret), *ctx) }
fn e667(emin: &BigFloat, arg: &BigFloat, emax: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(emin * (arg + emax), *ctx) }
fn e668(x: &BigFloat, arg1: &BigFloat, arg2: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(x - arg1 * arg2, *ctx) }
fn e669(arg2: &BigFloat, arg1: &BigFloat, ret: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(arg2 - arg1 * ret, *ctx) }
fn e670(emin: &BigFloat, arg: &BigFloat, emax: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(emin - arg * emax, *ctx) }
fn e671(x: &BigFloat, arg1: &BigFloat, arg2: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(log(x, arg1) - arg2, *ctx) }
fn e672(arg2: &BigFloat, arg1: &BigFloat, ret: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(log(arg2, arg1) - ret, *ctx) }
fn e673(emin: &BigFloat, arg: &BigFloat, emax: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(log(emin, arg) - emax, *ctx) }
fn e674(x: &BigFloat, arg1: &BigFloat, arg2: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(exp(x) / (arg1 % arg2), *ctx) }
fn e675(arg2: &BigFloat, arg1: &BigFloat, ret: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(exp(arg2) / (arg1 % ret), *ctx) }
fn e676(emin: &BigFloat, arg: &BigFloat, emax: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(exp(emin) / (arg % emax), *ctx) }
fn e677(x: &BigFloat, arg1: &BigFloat, arg2: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(pow(x, arg1) + ln(arg2), *ctx) }
fn e678(arg2: &BigFloat, arg1: &BigFloat, ret: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(pow(arg2, arg1) + ln(ret), *ctx) }
fn e679(emin: &BigFloat, arg: &BigFloat, emax: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!(pow(emin, arg) + ln(emax), *ctx) }
fn e680(x: &BigFloat, arg1: &BigFloat, arg2: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!((x + arg1) * (arg2 - x) - arg1, *ctx) }
fn e681(arg2: &BigFloat, arg1: &BigFloat, ret: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!((arg2 + arg1) * (ret - arg2) - arg1, *ctx) }
fn e682(emin: &BigFloat, arg: &BigFloat, emax: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut Context) -> BigFloat { expr!((emin + arg) * (emax - emin) - arg, *ctx) }
pub static PROGS: [Prog<Context>; 683] = [
    Prog { rpn: b"\x01\x00\x45", cls: b"ggg", f: e0 }, // recip(x)
    Prog { rpn: b"\x01\x00\x45", cls: b"tgg", f: e1 }, // recip(x)
    Prog { rpn: b"\x01\x00\x47", cls: b"ggg", f: e2 }, // cbrt(x)
    Prog { rpn: b"\x01\x00\x47", cls: b"tgg", f: e3 }, // cbrt(x)
    Prog { rpn: b"\x01\x00\x5e", cls: b"ggg", f: e4 }, // exp(x)
    Prog { rpn: b"\x01\x00\x5e", cls: b"tgg", f: e5 }, // exp(x)
    Prog { rpn: b"\x01\x00\x68", cls: b"ggg", f: e6 }, // sin(x)
    Prog { rpn: b"\x01\x00\x68", cls: b"tgg", f: e7 }, // sin(x)
    Prog { rpn: b"\x01\x00\x69", cls: b"ggg", f: e8 }, // cos(x)
    Prog { rpn: b"\x01\x00\x69", cls: b"tgg", f: e9 }, // cos(x)
    Prog { rpn: b"\x01\x00\x6a", cls: b"ggg", f: e10 }, // tan(x)
    Prog { rpn: b"\x01\x00\x6a", cls: b"tgg", f: e11 }, // tan(x)
    Prog { rpn: b"\x01\x00\x6d", cls: b"ggg", f: e12 }, // atan(x)
    Prog { rpn: b"\x01\x00\x6d", cls: b"tgg", f: e13 }, // atan(x)
    Prog { rpn: b"\x01\x00\x72", cls: b"ggg", f: e14 }, // sinh(x)
    Prog { rpn: b"\x01\x00\x72", cls: b"tgg", f: e15 }, // sinh(x)
    Prog { rpn: b"\x01\x00\x73", cls: b"ggg", f: e16 }, // cosh(x)
    Prog { rpn: b"\x01\x00\x73", cls: b"tgg", f: e17 }, // cosh(x)
    Prog { rpn: b"\x01\x00\x74", cls: b"ggg", f: e18 }, // tanh(x)
    Prog { rpn: b"\x01\x00\x74", cls: b"tgg", f: e19 }, // tanh(x)
    Prog { rpn: b"\x01\x00\x75", cls: b"ggg", f: e20 }, // asinh(x)
    Prog { rpn: b"\x01\x00\x75", cls: b"tgg", f: e21 }, // asinh(x)
    Prog { rpn: b"\x01\x00\x68", cls: b"Lgg", f: e22 }, // sin(x)
    Prog { rpn: b"\x01\x00\x69", cls: b"Lgg", f: e23 }, // cos(x)
    Prog { rpn: b"\x01\x00\x6a", cls: b"Lgg", f: e24 }, // tan(x)
    Prog { rpn: b"\x01\x00\x46", cls: b"pgg", f: e25 }, // sqrt(x)
    Prog { rpn: b"\x01\x00\x46", cls: b"wgg", f: e26 }, // sqrt(x)
    Prog { rpn: b"\x01\x00\x46", cls: b"lgg", f: e27 }, // sqrt(x)
    Prog { rpn: b"\x01\x00\x61", cls: b"pgg", f: e28 }, // ln(x)
    Prog { rpn: b"\x01\x00\x61", cls: b"wgg", f: e29 }, // ln(x)
    Prog { rpn: b"\x01\x00\x61", cls: b"lgg", f: e30 }, // ln(x)
    Prog { rpn: b"\x01\x00\x62", cls: b"pgg", f: e31 }, // log2(x)
    Prog { rpn: b"\x01\x00\x62", cls: b"wgg", f: e32 }, // log2(x)
    Prog { rpn: b"\x01\x00\x62", cls: b"lgg", f: e33 }, // log2(x)
    Prog { rpn: b"\x01\x00\x63", cls: b"pgg", f: e34 }, // log10(x)
    Prog { rpn: b"\x01\x00\x63", cls: b"wgg", f: e35 }, // log10(x)
    Prog { rpn: b"\x01\x00\x63", cls: b"lgg", f: e36 }, // log10(x)
    Prog { rpn: b"\x01\x00\x6b", cls: b"qgg", f: e37 }, // asin(x)
    Prog { rpn: b"\x01\x00\x6b", cls: b"tgg", f: e38 }, // asin(x)
    Prog { rpn: b"\x01\x00\x6c", cls: b"qgg", f: e39 }, // acos(x)
    Prog { rpn: b"\x01\x00\x6c", cls: b"tgg", f: e40 }, // acos(x)
    Prog { rpn: b"\x01\x00\x77", cls: b"qgg", f: e41 }, // atanh(x)
    Prog { rpn: b"\x01\x00\x77", cls: b"tgg", f: e42 }, // atanh(x)
    Prog { rpn: b"\x01\x00\x76", cls: b"bgg", f: e43 }, // acosh(x)
    Prog { rpn: b"\x01\x00\x76", cls: b"lgg", f: e44 }, // acosh(x)
    Prog { rpn: b"\x01\x00\x01\x01\x64", cls: b"ppg", f: e45 }, // log(x, y)
    Prog { rpn: b"\x01\x00\x01\x01\x64", cls: b"wpg", f: e46 }, // log(x, y)
    Prog { rpn: b"\x01\x00\x01\x01\x64", cls: b"pwg", f: e47 }, // log(x, y)
    Prog { rpn: b"\x01\x00\x01\x01\x5f", cls: b"pgg", f: e48 }, // pow(x, y)
    Prog { rpn: b"\x01\x00\x01\x01\x5f", cls: b"wlg", f: e49 }, // pow(x, y)
    Prog { rpn: b"\x01\x00\x01\x01\x5f", cls: b"gng", f: e50 }, // pow(x, y)
    Prog { rpn: b"\x01\x00\x01\x01\x41", cls: b"ggg", f: e51 }, // x + y
    Prog { rpn: b"\x01\x00\x01\x01\x41", cls: b"gtg", f: e52 }, // x + y
    Prog { rpn: b"\x01\x01\x01\x00\x41", cls: b"gtg", f: e53 }, // y + x
    Prog { rpn: b"\x01\x00\x01\x01\x42", cls: b"ggg", f: e54 }, // x - y
    Prog { rpn: b"\x01\x00\x01\x01\x42", cls: b"gtg", f: e55 }, // x - y
    Prog { rpn: b"\x01\x01\x01\x00\x42", cls: b"gtg", f: e56 }, // y - x
    Prog { rpn: b"\x01\x00\x01\x01\x43", cls: b"ggg", f: e57 }, // x * y
    Prog { rpn: b"\x01\x00\x01\x01\x43", cls: b"gtg", f: e58 }, // x * y
    Prog { rpn: b"\x01\x01\x01\x00\x43", cls: b"gtg", f: e59 }, // y * x
    Prog { rpn: b"\x01\x00\x01\x01\x44", cls: b"ggg", f: e60 }, // x / y
    Prog { rpn: b"\x01\x00\x01\x01\x44", cls: b"gtg", f: e61 }, // x / y
    Prog { rpn: b"\x01\x01\x01\x00\x44", cls: b"gtg", f: e62 }, // y / x
    Prog { rpn: b"\x01\x00\x01\x01\x4d", cls: b"ggg", f: e63 }, // x % y
    Prog { rpn: b"\x01\x00\x01\x01\x4d", cls: b"gtg", f: e64 }, // x % y
    Prog { rpn: b"\x01\x01\x01\x00\x4d", cls: b"gtg", f: e65 }, // y % x
    Prog { rpn: b"\x01\x00\x01\x01\x4d", cls: b"lpg", f: e66 }, // x % y
    Prog { rpn: b"\x01\x00\x4e", cls: b"ggg", f: e67 }, // -x
    Prog { rpn: b"\x01\x00", cls: b"ggg", f: e68 }, // x
    Prog { rpn: b"\x01\x00\x4e\x4e", cls: b"ggg", f: e69 }, // --x
    Prog { rpn: b"\x7c", cls: b"ppp", f: e70 }, // pi
    Prog { rpn: b"\x01\x00\x7c\x43", cls: b"ggg", f: e71 }, // x * pi
    Prog { rpn: b"\x7c\x4e", cls: b"ppp", f: e72 }, // -pi
    Prog { rpn: b"\x7d", cls: b"ppp", f: e73 }, // e
    Prog { rpn: b"\x01\x00\x7d\x43", cls: b"ggg", f: e74 }, // x * e
    Prog { rpn: b"\x7d\x4e", cls: b"ppp", f: e75 }, // -e
    Prog { rpn: b"\x7e", cls: b"ppp", f: e76 }, // ln_2
    Prog { rpn: b"\x01\x00\x7e\x43", cls: b"ggg", f: e77 }, // x * ln_2
    Prog { rpn: b"\x7e\x4e", cls: b"ppp", f: e78 }, // -ln_2
    Prog { rpn: b"\x7f", cls: b"ppp", f: e79 }, // ln_10
    Prog { rpn: b"\x01\x00\x7f\x43", cls: b"ggg", f: e80 }, // x * ln_10
    Prog { rpn: b"\x7f\x4e", cls: b"ppp", f: e81 }, // -ln_10
    Prog { rpn: b"\x01\x00\x01\x01\x01\x02\x43\x41", cls: b"ppp", f: e82 }, // x + y * z
    Prog { rpn: b"\x01\x00\x01\x01\x43\x01\x02\x41", cls: b"ppp", f: e83 }, // x * y + z
    Prog { rpn: b"\x01\x00\x01\x01\x42\x01\x02\x42", cls: b"ppp", f: e84 }, // x - y - z
    Prog { rpn: b"\x01\x00\x01\x01\x01\x02\x42\x42", cls: b"ppp", f: e85 }, // x - (y - z)
    Prog { rpn: b"\x01\x00\x01\x01\x44\x01\x02\x44", cls: b"ppp", f: e86 }, // x / y / z
    Prog { rpn: b"\x01\x00\x01\x01\x01\x02\x44\x44", cls: b"ppp", f: e87 }, // x / (y / z)
    Prog { rpn: b"\x01\x00\x4e\x01\x01\x43", cls: b"ppp", f: e88 }, // -x * y
    Prog { rpn: b"\x01\x00\x4e\x01\x01\x41", cls: b"ppp", f: e89 }, // -x + y
    Prog { rpn: b"\x01\x00\x01\x01\x4e\x43", cls: b"ppp", f: e90 }, // x * -y
    Prog { rpn: b"\x01\x00\x01\x01\x4e\x42", cls: b"ppp", f: e91 }, // x - -y
    Prog { rpn: b"\x01\x00\x01\x01\x41\x4e", cls: b"ppp", f: e92 }, // -(x + y)
    Prog { rpn: b"\x01\x00\x01\x01\x4d\x01\x02\x43", cls: b"ppp", f: e93 }, // x % y * z
    Prog { rpn: b"\x01\x00\x01\x01\x43\x01\x02\x4d", cls: b"ppp", f: e94 }, // x * y % z
    Prog { rpn: b"\x01\x00\x01\x01\x01\x02\x4d\x42", cls: b"ppp", f: e95 }, // x - y % z
    Prog { rpn: b"\x01\x00\x01\x01\x4d\x01\x02\x42", cls: b"ppp", f: e96 }, // x % y - z
    Prog { rpn: b"\x01\x00\x01\x01\x41\x01\x02\x43", cls: b"ppp", f: e97 }, // (x + y) * z
    Prog { rpn: b"\x01\x00\x01\x01\x01\x02\x41\x43", cls: b"ppp", f: e98 }, // x * (y + z)
    Prog { rpn: b"\x01\x00\x02\x01\x32\x5f\x4e", cls: b"ppp", f: e99 }, // -pow(x, 2)
    Prog { rpn: b"\x01\x00\x01\x01\x42\x01\x02\x41", cls: b"ppp", f: e100 }, // x - y + z
    Prog { rpn: b"\x01\x00\x01\x01\x44\x01\x02\x43", cls: b"ppp", f: e101 }, // x / y * z
    Prog { rpn: b"\x01\x00\x01\x01\x01\x02\x44\x41", cls: b"ppp", f: e102 }, // x + y / z
    Prog { rpn: b"\x01\x00\x01\x01\x42\x01\x00\x01\x01\x41\x44", cls: b"ppp", f: e103 }, // (x - y) / (x + y)
    Prog { rpn: b"\x01\x00\x4e\x01\x01\x4e\x44", cls: b"ppp", f: e104 }, // -x / -y
    Prog { rpn: b"\x01\x00", cls: b"ppp", f: e105 }, // ((x))
    Prog { rpn: b"\x01\x00\x01\x01\x41\x01\x02\x42", cls: b"ppp", f: e106 }, // (x + (y)) - (z)
    Prog { rpn: b"\x01\x00\x01\x01\x43\x01\x02\x43\x01\x00\x41", cls: b"ppp", f: e107 }, // x * y * z + x
    Prog { rpn: b"\x01\x00\x01\x01\x41\x01\x02\x41\x01\x00\x41", cls: b"ppp", f: e108 }, // x + y + z + x
    Prog { rpn: b"\x01\x00\x4e\x4e", cls: b"ppp", f: e109 }, // -(-x)
    Prog { rpn: b"\x01\x00\x4e\x01\x01\x42", cls: b"ppp", f: e110 }, // -x - y
    Prog { rpn: b"\x01\x00\x4e\x01\x01\x4d", cls: b"ppp", f: e111 }, // -x % y
    Prog { rpn: b"\x01\x00\x4e\x01\x01\x4d", cls: b"ppp", f: e112 }, // (-x) % y
    Prog { rpn: b"\x01\x00\x01\x01\x4e\x4d", cls: b"ppp", f: e113 }, // x % -y
    Prog { rpn: b"\x01\x00\x46\x4e\x01\x01\x41", cls: b"ppp", f: e114 }, // -sqrt(x) + y
    Prog { rpn: b"\x02\x01\x32\x01\x00\x43\x01\x01\x02\x01\x33\x44\x42", cls: b"ppp", f: e115 }, // 2 * x - y / 3
    Prog { rpn: b"\x01\x00\x01\x01\x64", cls: b"ppp", f: e116 }, // log(x, y)
    Prog { rpn: b"\x01\x01\x01\x00\x64", cls: b"ppp", f: e117 }, // log(y, x)
    Prog { rpn: b"\x01\x00\x01\x01\x5f", cls: b"ppp", f: e118 }, // pow(x, y)
    Prog { rpn: b"\x01\x01\x01\x00\x5f", cls: b"ppp", f: e119 }, // pow(y, x)
    Prog { rpn: b"\x01\x00\x46\x01\x01\x64", cls: b"ppp", f: e120 }, // log(sqrt(x), y)
    Prog { rpn: b"\x01\x00\x01\x01\x46\x64", cls: b"ppp", f: e121 }, // log(x, sqrt(y))
    Prog { rpn: b"\x01\x00\x46\x01\x01\x5f", cls: b"ppp", f: e122 }, // pow(sqrt(x), y)
    Prog { rpn: b"\x01\x00\x01\x01\x46\x5f", cls: b"ppp", f: e123 }, // pow(x, sqrt(y))
    Prog { rpn: b"\x01\x00\x01\x01\x41\x01\x02\x64", cls: b"ppp", f: e124 }, // log(x + y, z)
    Prog { rpn: b"\x01\x00\x01\x01\x44\x01\x02\x01\x00\x42\x5f", cls: b"ppp", f: e125 }, // pow(x / y, z - x)
    Prog { rpn: b"\x02\x01\x38\x02\x01\x32\x64", cls: b"ppp", f: e126 }, // log(8, 2)
    Prog { rpn: b"\x02\x01\x32\x02\x01\x38\x64", cls: b"ppp", f: e127 }, // log(2, 8)
    Prog { rpn: b"\x02\x01\x32\x02\x02\x31\x30\x5f", cls: b"ppp", f: e128 }, // pow(2, 10)
    Prog { rpn: b"\x02\x02\x31\x30\x02\x01\x32\x5f", cls: b"ppp", f: e129 }, // pow(10, 2)
    Prog { rpn: b"\x02\x04\x31\x30\x30\x30\x02\x02\x31\x30\x64", cls: b"ppp", f: e130 }, // log(1000, 10)
    Prog { rpn: b"\x02\x01\x32\x02\x01\x33\x4e\x5f", cls: b"ppp", f: e131 }, // pow(2, -3)
    Prog { rpn: b"\x01\x00\x02\x01\x33\x5f", cls: b"ppp", f: e132 }, // pow(x, 3)
    Prog { rpn: b"\x02\x01\x33\x01\x00\x5f", cls: b"ppp", f: e133 }, // pow(3, x)
    Prog { rpn: b"\x01\x00\x4e\x02\x01\x33\x5f", cls: b"ppp", f: e134 }, // pow(-x, 3)
    Prog { rpn: b"\x01\x00\x4e\x02\x01\x34\x5f", cls: b"ppp", f: e135 }, // pow(-x, 4)
    Prog { rpn: b"\x02\x01\x34\x02\x03\x30\x2e\x35\x5f", cls: b"ppp", f: e136 }, // pow(4, 0.5)
    Prog { rpn: b"\x02\x01\x31", cls: b"ggg", f: e137 }, // 1
    Prog { rpn: b"\x01\x00\x02\x01\x31\x43", cls: b"ppp", f: e138 }, // x * 1
    Prog { rpn: b"\x02\x01\x30", cls: b"ggg", f: e139 }, // 0
    Prog { rpn: b"\x01\x00\x02\x01\x31\x41", cls: b"ppp", f: e140 }, // x + 1
    Prog { rpn: b"\x02\x03\x31\x32\x33", cls: b"ggg", f: e141 }, // 123
    Prog { rpn: b"\x01\x00\x02\x03\x31\x32\x33\x43", cls: b"ppp", f: e142 }, // x * 123
    Prog { rpn: b"\x02\x07\x31\x30\x30\x30\x30\x30\x30", cls: b"ggg", f: e143 }, // 1_000_000
    Prog { rpn: b"\x01\x00\x02\x07\x31\x30\x30\x30\x30\x30\x30\x43", cls: b"ppp", f: e144 }, // x * 1_000_000
    Prog { rpn: b"\x02\x02\x33\x31", cls: b"ggg", f: e145 }, // 0x1f
    Prog { rpn: b"\x01\x00\x02\x02\x33\x31\x43", cls: b"ppp", f: e146 }, // x * 0x1f
    Prog { rpn: b"\x02\x01\x35", cls: b"ggg", f: e147 }, // 0b101
    Prog { rpn: b"\x01\x00\x02\x01\x35\x43", cls: b"ppp", f: e148 }, // x * 0b101
    Prog { rpn: b"\x02\x02\x31\x35", cls: b"ggg", f: e149 }, // 0o17
    Prog { rpn: b"\x01\x00\x02\x02\x31\x35\x43", cls: b"ppp", f: e150 }, // x * 0o17
    Prog { rpn: b"\x02\x01\x37", cls: b"ggg", f: e151 }, // 7u8
    Prog { rpn: b"\x01\x00\x02\x01\x37\x43", cls: b"ppp", f: e152 }, // x * 7u8
    Prog { rpn: b"\x02\x03\x32\x30\x30", cls: b"ggg", f: e153 }, // 200i64
    Prog { rpn: b"\x01\x00\x02\x03\x32\x30\x30\x43", cls: b"ppp", f: e154 }, // x * 200i64
    Prog { rpn: b"\x02\x03\x31\x2e\x35", cls: b"ggg", f: e155 }, // 1.5
    Prog { rpn: b"\x01\x00\x02\x03\x31\x2e\x35\x43", cls: b"ppp", f: e156 }, // x * 1.5
    Prog { rpn: b"\x02\x03\x30\x2e\x31", cls: b"ggg", f: e157 }, // 0.1
    Prog { rpn: b"\x01\x00\x02\x03\x30\x2e\x31\x43", cls: b"ppp", f: e158 }, // x * 0.1
    Prog { rpn: b"\x02\x03\x31\x65\x35", cls: b"ggg", f: e159 }, // 1e5
    Prog { rpn: b"\x01\x00\x02\x03\x31\x65\x35\x43", cls: b"ppp", f: e160 }, // x * 1e5
    Prog { rpn: b"\x02\x04\x31\x65\x2d\x35", cls: b"ggg", f: e161 }, // 1e-5
    Prog { rpn: b"\x01\x00\x02\x04\x31\x65\x2d\x35\x43", cls: b"ppp", f: e162 }, // x * 1e-5
    Prog { rpn: b"\x02\x05\x32\x2e\x35\x65\x33", cls: b"ggg", f: e163 }, // 2.5e3
    Prog { rpn: b"\x01\x00\x02\x05\x32\x2e\x35\x65\x33\x43", cls: b"ppp", f: e164 }, // x * 2.5e3
    Prog { rpn: b"\x02\x04\x31\x2e\x32\x35", cls: b"ggg", f: e165 }, // 1.25f32
    Prog { rpn: b"\x01\x00\x02\x04\x31\x2e\x32\x35\x43", cls: b"ppp", f: e166 }, // x * 1.25f32
    Prog { rpn: b"\x02\x01\x33", cls: b"ggg", f: e167 }, // 3f64
    Prog { rpn: b"\x01\x00\x02\x01\x33\x43", cls: b"ppp", f: e168 }, // x * 3f64
    Prog { rpn: b"\x02\x03\x30\x2e\x31", cls: b"ggg", f: e169 }, // "0.1"
    Prog { rpn: b"\x01\x00\x02\x03\x30\x2e\x31\x43", cls: b"ppp", f: e170 }, // x * "0.1"
    Prog { rpn: b"\x02\x05\x2d\x32\x2e\x37\x35", cls: b"ggg", f: e171 }, // "-2.75"
    Prog { rpn: b"\x01\x00\x02\x05\x2d\x32\x2e\x37\x35\x43", cls: b"ppp", f: e172 }, // x * "-2.75"
    Prog { rpn: b"\x02\x05\x31\x65\x2d\x33\x30", cls: b"ggg", f: e173 }, // "1e-30"
    Prog { rpn: b"\x01\x00\x02\x05\x31\x65\x2d\x33\x30\x43", cls: b"ppp", f: e174 }, // x * "1e-30"
    Prog { rpn: b"\x02\x13\x31\x32\x33\x34\x35\x36\x37\x38\x39\x2e\x31\x32\x33\x34\x35\x36\x37\x38\x39", cls: b"ggg", f: e175 }, // "123456789.123456789"
    Prog { rpn: b"\x01\x00\x02\x13\x31\x32\x33\x34\x35\x36\x37\x38\x39\x2e\x31\x32\x33\x34\x35\x36\x37\x38\x39\x43", cls: b"ppp", f: e176 }, // x * "123456789.123456789"
    Prog { rpn: b"\x02\x1e\x31\x32\x33\x34\x35\x36\x37\x38\x39\x30\x31\x32\x33\x34\x35\x36\x37\x38\x39\x30\x31\x32\x33\x34\x35\x36\x37\x38\x39\x30", cls: b"ggg", f: e177 }, // 123456789012345678901234567890
    Prog { rpn: b"\x01\x00\x02\x1e\x31\x32\x33\x34\x35\x36\x37\x38\x39\x30\x31\x32\x33\x34\x35\x36\x37\x38\x39\x30\x31\x32\x33\x34\x35\x36\x37\x38\x39\x30\x43", cls: b"ppp", f: e178 }, // x * 123456789012345678901234567890
    Prog { rpn: b"\x02\x05\x31\x65\x31\x30\x30", cls: b"ggg", f: e179 }, // "1e100"
    Prog { rpn: b"\x01\x00\x02\x05\x31\x65\x31\x30\x30\x43", cls: b"ppp", f: e180 }, // x * "1e100"
    Prog { rpn: b"\x02\x03\x30\x2e\x31\x4e", cls: b"ggg", f: e181 }, // -0.1
    Prog { rpn: b"\x01\x00\x02\x03\x30\x2e\x31\x4e\x43", cls: b"ppp", f: e182 }, // x * -0.1
    Prog { rpn: b"\x02\x01\x35\x4e", cls: b"ggg", f: e183 }, // - 5
    Prog { rpn: b"\x01\x00\x02\x01\x35\x4e\x43", cls: b"ppp", f: e184 }, // x * - 5
    Prog { rpn: b"\x02\x52\x33\x2e\x31\x34\x31\x35\x39\x32\x36\x35\x33\x35\x38\x39\x37\x39\x33\x32\x33\x38\x34\x36\x32\x36\x34\x33\x33\x38\x33\x32\x37\x39\x35\x30\x32\x38\x38\x34\x31\x39\x37\x31\x36\x39\x33\x39\x39\x33\x37\x35\x31\x30\x35\x38\x32\x30\x39\x37\x34\x39\x34\x34\x35\x39\x32\x33\x30\x37\x38\x31\x36\x34\x30\x36\x32\x38\x36\x32\x30\x38\x39\x39", cls: b"ggg", f: e185 }, // "3.14159265358979323846264338327950288419716939937510582097494459230781640628620899"
    Prog { rpn: b"\x01\x00\x02\x52\x33\x2e\x31\x34\x31\x35\x39\x32\x36\x35\x33\x35\x38\x39\x37\x39\x33\x32\x33\x38\x34\x36\x32\x36\x34\x33\x33\x38\x33\x32\x37\x39\x35\x30\x32\x38\x38\x34\x31\x39\x37\x31\x36\x39\x33\x39\x39\x33\x37\x35\x31\x30\x35\x38\x32\x30\x39\x37\x34\x39\x34\x34\x35\x39\x32\x33\x30\x37\x38\x31\x36\x34\x30\x36\x32\x38\x36\x32\x30\x38\x39\x39\x43", cls: b"ppp", f: e186 }, // x * "3.14159265358979323846264338327950288419716939937510582097494459230781640628620899"
    Prog { rpn: b"\x02\x05\x30\x2e\x30\x30\x30", cls: b"ggg", f: e187 }, // 0.000
    Prog { rpn: b"\x01\x00\x02\x01\x31\x41", cls: b"ppp", f: e188 }, // x + 1
    Prog { rpn: b"\x02\x03\x69\x6e\x66", cls: b"ggg", f: e189 }, // "inf"
    Prog { rpn: b"\x01\x00\x02\x01\x31\x41", cls: b"ppp", f: e190 }, // x + 1
    Prog { rpn: b"\x02\x03\x69\x6e\x66\x4e", cls: b"ggg", f: e191 }, // -"inf"
    Prog { rpn: b"\x01\x00\x02\x01\x31\x41", cls: b"ppp", f: e192 }, // x + 1
    Prog { rpn: b"\x02\x03\x6e\x61\x6e", cls: b"ggg", f: e193 }, // "nan"
    Prog { rpn: b"\x01\x00\x02\x01\x31\x41", cls: b"ppp", f: e194 }, // x + 1
    Prog { rpn: b"\x02\x14\x31\x38\x34\x34\x36\x37\x34\x34\x30\x37\x33\x37\x30\x39\x35\x35\x31\x36\x31\x36", cls: b"ggg", f: e195 }, // 18446744073709551616
    Prog { rpn: b"\x01\x00\x02\x14\x31\x38\x34\x34\x36\x37\x34\x34\x30\x37\x33\x37\x30\x39\x35\x35\x31\x36\x31\x36\x43", cls: b"ppp", f: e196 }, // x * 18446744073709551616
    Prog { rpn: b"\x02\x2d\x30\x2e\x33\x33\x33\x33\x33\x33\x33\x33\x33\x33\x33\x33\x33\x33\x33\x33\x33\x33\x33\x33\x33\x33\x33\x33\x33\x33\x33\x33\x33\x33\x33\x33\x33\x33\x33\x33\x33\x33\x33\x33\x33\x33\x33", cls: b"ggg", f: e197 }, // 0.3333333333333333333333333333333333333333333
    Prog { rpn: b"\x01\x00\x02\x2d\x30\x2e\x33\x33\x33\x33\x33\x33\x33\x33\x33\x33\x33\x33\x33\x33\x33\x33\x33\x33\x33\x33\x33\x33\x33\x33\x33\x33\x33\x33\x33\x33\x33\x33\x33\x33\x33\x33\x33\x33\x33\x33\x33\x33\x33\x43", cls: b"ppp", f: e198 }, // x * 0.3333333333333333333333333333333333333333333
    Prog { rpn: b"\x02\x03\x37\x2e\x30", cls: b"ggg", f: e199 }, // "7.0"
    Prog { rpn: b"\x01\x00\x02\x03\x37\x2e\x30\x43", cls: b"ppp", f: e200 }, // x * "7.0"
    Prog { rpn: b"\x02\x05\x31\x30\x2e\x35\x30", cls: b"ggg", f: e201 }, // 1_0.5_0
    Prog { rpn: b"\x01\x00\x02\x05\x31\x30\x2e\x35\x30\x43", cls: b"ppp", f: e202 }, // x * 1_0.5_0
    Prog { rpn: b"\x02\x03\x30\x2e\x31\x02\x03\x30\x2e\x32\x41", cls: b"ppp", f: e203 }, // 0.1 + 0.2
    Prog { rpn: b"\x02\x03\x30\x2e\x31\x02\x03\x30\x2e\x32\x41\x02\x03\x30\x2e\x33\x42", cls: b"ppp", f: e204 }, // "0.1" + "0.2" - "0.3"
    Prog { rpn: b"\x02\x01\x31\x02\x01\x33\x44", cls: b"ppp", f: e205 }, // 1 / 3
    Prog { rpn: b"\x02\x01\x31\x02\x01\x33\x44\x02\x01\x33\x43", cls: b"ppp", f: e206 }, // 1 / 3 * 3
    Prog { rpn: b"\x02\x02\x31\x30\x02\x01\x33\x4d", cls: b"ppp", f: e207 }, // 10 % 3
    Prog { rpn: b"\x02\x03\x30\x2e\x31\x02\x02\x31\x30\x43\x02\x01\x31\x42", cls: b"ppp", f: e208 }, // "0.1" * 10 - 1
    Prog { rpn: b"\x02\x01\x37\x02\x03\x30\x2e\x37\x02\x02\x31\x30\x43\x42", cls: b"ppp", f: e209 }, // 7 - 0.7 * 10
    Prog { rpn: b"\x02\x01\x32\x02\x01\x33\x43\x02\x01\x34\x41", cls: b"ppp", f: e210 }, // 2 * 3 + 4
    Prog { rpn: b"\x02\x01\x32\x02\x01\x33\x02\x01\x34\x43\x41", cls: b"ppp", f: e211 }, // 2 + 3 * 4
    Prog { rpn: b"\x02\x03\x31\x30\x30\x02\x02\x31\x30\x42\x02\x01\x31\x42", cls: b"ppp", f: e212 }, // 100 - 10 - 1
    Prog { rpn: b"\x02\x01\x31\x02\x01\x31\x42", cls: b"ppp", f: e213 }, // 1 - 1
    Prog { rpn: b"\x02\x01\x35\x02\x03\x32\x2e\x35\x4d", cls: b"ppp", f: e214 }, // 5 % 2.5
    Prog { rpn: b"\x02\x15\x31\x30\x30\x30\x30\x30\x30\x30\x30\x30\x30\x30\x30\x30\x30\x30\x30\x30\x30\x30\x30\x02\x01\x31\x41", cls: b"ppp", f: e215 }, // 100000000000000000000 + 1
    Prog { rpn: b"\xc8", cls: b"ppp", f: e216 }, // i
    Prog { rpn: b"\xc9", cls: b"ppp", f: e217 }, // f
    Prog { rpn: b"\xca", cls: b"ppp", f: e218 }, // s
    Prog { rpn: b"\xc8\x01\x00\x41", cls: b"ppp", f: e219 }, // i + x
    Prog { rpn: b"\x01\x00\xc9\x42", cls: b"ppp", f: e220 }, // x - f
    Prog { rpn: b"\xca\x01\x00\x43", cls: b"ppp", f: e221 }, // s * x
    Prog { rpn: b"\xc8\x02\x01\x33\x44", cls: b"ppp", f: e222 }, // i / 3
    Prog { rpn: b"\xc9\xc9\x43", cls: b"ppp", f: e223 }, // f * f
    Prog { rpn: b"\xca\xca\x41", cls: b"ppp", f: e224 }, // s + s
    Prog { rpn: b"\xc9\x5e", cls: b"ppp", f: e225 }, // exp(f)
    Prog { rpn: b"\xc8\x68", cls: b"ppp", f: e226 }, // sin(i)
    Prog { rpn: b"\xca\x61", cls: b"ppp", f: e227 }, // ln(s)
    Prog { rpn: b"\xc8\xc9\x5f", cls: b"ppp", f: e228 }, // pow(i, f)
    Prog { rpn: b"\xca\x01\x00\x64", cls: b"ppp", f: e229 }, // log(s, x)
    Prog { rpn: b"\xc8\xc9\x43\xca\x42", cls: b"ppp", f: e230 }, // i * f - s
    Prog { rpn: b"\xca\xc9\x42", cls: b"ppp", f: e231 }, // s - f
    Prog { rpn: b"\xc8\x46\xc9\x41", cls: b"ppp", f: e232 }, // sqrt(i) + f
    Prog { rpn: b"\x01\x00\xc9\x4d", cls: b"ppp", f: e233 }, // x % f
    Prog { rpn: b"\xca\xc8\x44\x6d", cls: b"ppp", f: e234 }, // atan(s / i)
    Prog { rpn: b"\xca\xca\x44", cls: b"ppp", f: e235 }, // s / s
    Prog { rpn: b"\xc9\xc9\x42", cls: b"ppp", f: e236 }, // f - f
    Prog { rpn: b"\x02\x01\x31\x01\x01\x4e\x5e\x41\x61", cls: b"pmp", f: e237 }, // ln(1 + exp(-y))
    Prog { rpn: b"\x02\x01\x31\x01\x01\x4e\x5e\x42\x61", cls: b"pmp", f: e238 }, // ln(1 - exp(-y))
    Prog { rpn: b"\x02\x01\x31\x01\x01\x4e\x5e\x41\x62", cls: b"pmp", f: e239 }, // log2(1 + exp(-y))
    Prog { rpn: b"\x02\x01\x31\x01\x01\x4e\x5e\x42\x62", cls: b"pmp", f: e240 }, // log2(1 - exp(-y))
    Prog { rpn: b"\x02\x01\x31\x01\x01\x4e\x5e\x41\x63", cls: b"pmp", f: e241 }, // log10(1 + exp(-y))
    Prog { rpn: b"\x02\x01\x31\x01\x01\x4e\x5e\x42\x63", cls: b"pmp", f: e242 }, // log10(1 - exp(-y))
    Prog { rpn: b"\x02\x01\x31\x01\x01\x4e\x5e\x41\x01\x00\x64", cls: b"pmp", f: e243 }, // log(1 + exp(-y), x)
    Prog { rpn: b"\x02\x01\x31\x01\x01\x4e\x5e\x42\x01\x00\x64", cls: b"pmp", f: e244 }, // log(1 - exp(-y), x)
    Prog { rpn: b"\x01\x00\x02\x01\x31\x01\x01\x4e\x5e\x41\x64", cls: b"pmp", f: e245 }, // log(x, 1 + exp(-y))
    Prog { rpn: b"\x01\x00\x02\x01\x31\x01\x01\x4e\x5e\x42\x64", cls: b"pmp", f: e246 }, // log(x, 1 - exp(-y))
    Prog { rpn: b"\x02\x01\x31\x01\x01\x4e\x5e\x41\x02\x01\x31\x01\x01\x4e\x5e\x42\x64", cls: b"pmp", f: e247 }, // log(1 + exp(-y), 1 - exp(-y))
    Prog { rpn: b"\x02\x01\x31\x01\x01\x4e\x5e\x41\x02\x01\x31\x01\x01\x4e\x5e\x01\x00\x43\x41\x64", cls: b"pmp", f: e248 }, // log(1 + exp(-y), 1 + exp(-y) * x)
    Prog { rpn: b"\x01\x00\x5e\x02\x01\x31\x01\x01\x4e\x5e\x41\x64", cls: b"pmp", f: e249 }, // log(exp(x), 1 + exp(-y))
    Prog { rpn: b"\x02\x01\x31\x01\x01\x4e\x5e\x41\x01\x00\x5e\x64", cls: b"pmp", f: e250 }, // log(1 + exp(-y), exp(x))
    Prog { rpn: b"\x02\x01\x31\x01\x01\x4e\x5e\x41\x01\x01\x5e\x5f", cls: b"pmp", f: e251 }, // pow(1 + exp(-y), exp(y))
    Prog { rpn: b"\x02\x01\x31\x01\x01\x4e\x5e\x42\x01\x01\x5e\x5f", cls: b"pmp", f: e252 }, // pow(1 - exp(-y), exp(y))
    Prog { rpn: b"\x02\x01\x31\x01\x01\x4e\x5e\x41\x01\x00\x01\x01\x02\x03\x30\x2e\x39\x43\x5e\x43\x5f", cls: b"pmp", f: e253 }, // pow(1 + exp(-y), x * exp(y * 0.9))
    Prog { rpn: b"\x02\x01\x31\x01\x01\x4e\x5e\x41\x01\x01\x5e\x4e\x5f", cls: b"pmp", f: e254 }, // pow(1 + exp(-y), -exp(y))
    Prog { rpn: b"\x01\x00\x46\x01\x01\x02\x03\x30\x2e\x31\x43\x5e\x5f", cls: b"pmp", f: e255 }, // pow(sqrt(x), exp(y * 0.1))
    Prog { rpn: b"\x01\x00\x46\x02\x04\x31\x30\x30\x30\x5f", cls: b"pmp", f: e256 }, // pow(sqrt(x), 1000)
    Prog { rpn: b"\x01\x00\x46\x02\x04\x31\x30\x30\x30\x4e\x5f", cls: b"pmp", f: e257 }, // pow(sqrt(x), -1000)
    Prog { rpn: b"\x01\x00\x5e\x01\x02\x46\x5f", cls: b"pmp", f: e258 }, // pow(exp(x), sqrt(z))
    Prog { rpn: b"\x01\x00\x02\x03\x31\x30\x30\x01\x02\x46\x43\x5f", cls: b"pmp", f: e259 }, // pow(x, 100 * sqrt(z))
    Prog { rpn: b"\x02\x01\x31\x01\x01\x4e\x5e\x41\x01\x02\x5f", cls: b"pmp", f: e260 }, // pow(1 + exp(-y), z)
    Prog { rpn: b"\x01\x00\x01\x01\x4e\x5e\x5f", cls: b"pmp", f: e261 }, // pow(x, exp(-y))
    Prog { rpn: b"\x01\x00\x01\x01\x4e\x5e\x5f\x02\x01\x31\x42", cls: b"pmp", f: e262 }, // pow(x, exp(-y)) - 1
    Prog { rpn: b"\x7c\x01\x01\x4e\x5e\x41\x68", cls: b"pmp", f: e263 }, // sin(pi + exp(-y))
    Prog { rpn: b"\x7c\x02\x01\x33\x43\x01\x01\x4e\x5e\x42\x68", cls: b"pmp", f: e264 }, // sin(pi * 3 - exp(-y))
    Prog { rpn: b"\x7c\x4e\x02\x02\x31\x30\x43\x01\x01\x4e\x5e\x41\x68", cls: b"pmp", f: e265 }, // sin(-pi * 10 + exp(-y))
    Prog { rpn: b"\x7c\x02\x01\x32\x44\x01\x01\x4e\x5e\x41\x69", cls: b"pmp", f: e266 }, // cos(pi / 2 + exp(-y))
    Prog { rpn: b"\x7c\x02\x01\x32\x44\x01\x01\x4e\x5e\x42\x69", cls: b"pmp", f: e267 }, // cos(pi / 2 - exp(-y))
    Prog { rpn: b"\x7c\x02\x01\x37\x43\x02\x01\x32\x44\x01\x01\x4e\x5e\x41\x69", cls: b"pmp", f: e268 }, // cos(pi * 7 / 2 + exp(-y))
    Prog { rpn: b"\x7c\x4e\x02\x03\x31\x2e\x35\x43\x01\x01\x4e\x5e\x41\x69", cls: b"pmp", f: e269 }, // cos(-pi * 1.5 + exp(-y))
    Prog { rpn: b"\x7c\x01\x01\x4e\x5e\x41\x6a", cls: b"pmp", f: e270 }, // tan(pi + exp(-y))
    Prog { rpn: b"\x7c\x01\x01\x4e\x5e\x42\x6a", cls: b"pmp", f: e271 }, // tan(pi - exp(-y))
    Prog { rpn: b"\x7c\x02\x01\x32\x44\x01\x01\x4e\x5e\x41\x6a", cls: b"pmp", f: e272 }, // tan(pi / 2 + exp(-y))
    Prog { rpn: b"\x7c\x02\x01\x32\x44\x01\x01\x4e\x5e\x42\x6a", cls: b"pmp", f: e273 }, // tan(pi / 2 - exp(-y))
    Prog { rpn: b"\x7c\x4e\x02\x01\x35\x43\x02\x01\x32\x44\x01\x01\x4e\x5e\x41\x6a", cls: b"pmp", f: e274 }, // tan(-pi * 5 / 2 + exp(-y))
    Prog { rpn: b"\x7c\x02\x01\x34\x43\x01\x01\x4e\x5e\x41\x6a", cls: b"pmp", f: e275 }, // tan(pi * 4 + exp(-y))
    Prog { rpn: b"\x7c\x02\x07\x31\x30\x30\x30\x30\x30\x30\x43\x01\x01\x4e\x5e\x41\x68", cls: b"pmp", f: e276 }, // sin(pi * 1000000 + exp(-y))
    Prog { rpn: b"\x7c\x02\x09\x31\x30\x30\x30\x30\x30\x30\x2e\x35\x43\x01\x01\x4e\x5e\x41\x69", cls: b"pmp", f: e277 }, // cos(pi * 1000000.5 + exp(-y))
    Prog { rpn: b"\x7c\x02\x09\x31\x30\x30\x30\x30\x30\x30\x2e\x35\x43\x01\x01\x4e\x5e\x41\x6a", cls: b"pmp", f: e278 }, // tan(pi * 1000000.5 + exp(-y))
    Prog { rpn: b"\x01\x01\x02\x03\x30\x2e\x38\x43\x5e\x68", cls: b"pmp", f: e279 }, // sin(exp(y * 0.8))
    Prog { rpn: b"\x01\x01\x02\x03\x30\x2e\x38\x43\x5e\x69", cls: b"pmp", f: e280 }, // cos(exp(y * 0.8))
    Prog { rpn: b"\x01\x01\x02\x03\x30\x2e\x38\x43\x5e\x6a", cls: b"pmp", f: e281 }, // tan(exp(y * 0.8))
    Prog { rpn: b"\x02\x07\x31\x30\x30\x30\x30\x30\x30\x01\x00\x46\x43\x68", cls: b"pmp", f: e282 }, // sin(1000000 * sqrt(x))
    Prog { rpn: b"\x02\x07\x31\x30\x30\x30\x30\x30\x30\x01\x00\x46\x43\x69", cls: b"pmp", f: e283 }, // cos(1000000 * sqrt(x))
    Prog { rpn: b"\x02\x07\x31\x30\x30\x30\x30\x30\x30\x01\x00\x46\x43\x6a", cls: b"pmp", f: e284 }, // tan(1000000 * sqrt(x))
    Prog { rpn: b"\x02\x01\x31\x01\x01\x4e\x5e\x42\x6b", cls: b"pmp", f: e285 }, // asin(1 - exp(-y))
    Prog { rpn: b"\x01\x01\x4e\x5e\x02\x01\x31\x42\x6b", cls: b"pmp", f: e286 }, // asin(exp(-y) - 1)
    Prog { rpn: b"\x02\x01\x31\x01\x01\x4e\x5e\x42\x6c", cls: b"pmp", f: e287 }, // acos(1 - exp(-y))
    Prog { rpn: b"\x01\x01\x4e\x5e\x02\x01\x31\x42\x6c", cls: b"pmp", f: e288 }, // acos(exp(-y) - 1)
    Prog { rpn: b"\x01\x01\x4e\x5e\x6c", cls: b"pmp", f: e289 }, // acos(exp(-y))
    Prog { rpn: b"\x01\x01\x4e\x5e\x6b", cls: b"pmp", f: e290 }, // asin(exp(-y))
    Prog { rpn: b"\x02\x01\x31\x01\x01\x4e\x5e\x41\x76", cls: b"pmp", f: e291 }, // acosh(1 + exp(-y))
    Prog { rpn: b"\x02\x01\x31\x01\x01\x4e\x5e\x42\x77", cls: b"pmp", f: e292 }, // atanh(1 - exp(-y))
    Prog { rpn: b"\x01\x01\x4e\x5e\x02\x01\x31\x42\x77", cls: b"pmp", f: e293 }, // atanh(exp(-y) - 1)
    Prog { rpn: b"\x01\x01\x4e\x5e\x77", cls: b"pmp", f: e294 }, // atanh(exp(-y))
    Prog { rpn: b"\x01\x01\x4e\x5e\x75", cls: b"pmp", f: e295 }, // asinh(exp(-y))
    Prog { rpn: b"\x01\x01\x4e\x5e\x74", cls: b"pmp", f: e296 }, // tanh(exp(-y))
    Prog { rpn: b"\x01\x01\x4e\x5e\x72", cls: b"pmp", f: e297 }, // sinh(exp(-y))
    Prog { rpn: b"\x01\x01\x4e\x5e\x6d", cls: b"pmp", f: e298 }, // atan(exp(-y))
    Prog { rpn: b"\x01\x00\x74\x02\x01\x31\x42", cls: b"pmp", f: e299 }, // tanh(x) - 1
    Prog { rpn: b"\x01\x00\x02\x03\x30\x2e\x31\x43\x73\x76", cls: b"pmp", f: e300 }, // acosh(cosh(x * 0.1))
    Prog { rpn: b"\x01\x00\x02\x04\x30\x2e\x30\x31\x43\x69\x6c", cls: b"pmp", f: e301 }, // acos(cos(x * 0.01))
    Prog { rpn: b"\x01\x00\x02\x04\x30\x2e\x30\x31\x43\x69\x6b", cls: b"pmp", f: e302 }, // asin(cos(x * 0.01))
    Prog { rpn: b"\x01\x00\x02\x03\x30\x2e\x33\x43\x74\x77", cls: b"pmp", f: e303 }, // atanh(tanh(x * 0.3))
    Prog { rpn: b"\x01\x01\x4e\x5e\x5e\x02\x01\x31\x42", cls: b"pmp", f: e304 }, // exp(exp(-y)) - 1
    Prog { rpn: b"\x01\x01\x4e\x5e\x5e\x02\x01\x31\x42\x01\x01\x4e\x5e\x44", cls: b"pmp", f: e305 }, // (exp(exp(-y)) - 1) / exp(-y)
    Prog { rpn: b"\x01\x01\x4e\x02\x03\x30\x2e\x34\x43\x5e\x73\x02\x01\x31\x42", cls: b"pmp", f: e306 }, // cosh(exp(-y * 0.4)) - 1
    Prog { rpn: b"\x02\x01\x31\x01\x01\x4e\x02\x03\x30\x2e\x34\x43\x5e\x69\x42", cls: b"pmp", f: e307 }, // 1 - cos(exp(-y * 0.4))
    Prog { rpn: b"\x02\x01\x31\x01\x01\x4e\x5e\x41\x46\x02\x01\x31\x42", cls: b"pmp", f: e308 }, // sqrt(1 + exp(-y)) - 1
    Prog { rpn: b"\x02\x01\x31\x01\x01\x4e\x5e\x41\x47\x02\x01\x31\x42", cls: b"pmp", f: e309 }, // cbrt(1 + exp(-y)) - 1
    Prog { rpn: b"\x01\x00\x01\x01\x4e\x5e\x41\x01\x00\x42", cls: b"pmp", f: e310 }, // (x + exp(-y)) - x
    Prog { rpn: b"\x01\x00\x01\x00\x01\x01\x4e\x5e\x42\x42", cls: b"pmp", f: e311 }, // x - (x - exp(-y))
    Prog { rpn: b"\x01\x00\x01\x01\x4e\x5e\x41\x5e\x01\x00\x5e\x42", cls: b"pmp", f: e312 }, // exp(x + exp(-y)) - exp(x)
    Prog { rpn: b"\x01\x00\x01\x01\x4e\x5e\x41\x61\x01\x00\x61\x42", cls: b"pmp", f: e313 }, // ln(x + exp(-y)) - ln(x)
    Prog { rpn: b"\x01\x00\x01\x01\x4e\x5e\x41\x6d\x01\x00\x6d\x42", cls: b"pmp", f: e314 }, // atan(x + exp(-y)) - atan(x)
    Prog { rpn: b"\x01\x00\x01\x01\x4e\x5e\x41\x46\x01\x00\x46\x42", cls: b"pmp", f: e315 }, // sqrt(x + exp(-y)) - sqrt(x)
    Prog { rpn: b"\x01\x00\x01\x01\x4e\x5e\x41\x68\x01\x00\x68\x42", cls: b"pmp", f: e316 }, // sin(x + exp(-y)) - sin(x)
    Prog { rpn: b"\x02\x01\x31\x01\x00\x44\x02\x01\x31\x01\x00\x01\x01\x4e\x5e\x41\x44\x42", cls: b"pmp", f: e317 }, // 1 / x - 1 / (x + exp(-y))
    Prog { rpn: b"\x01\x00\x45\x01\x00\x01\x01\x4e\x5e\x41\x45\x42", cls: b"pmp", f: e318 }, // recip(x) - recip(x + exp(-y))
    Prog { rpn: b"\x01\x00\x6a\x01\x00\x68\x01\x00\x69\x44\x42\x01\x01\x4e\x5e\x41", cls: b"pmp", f: e319 }, // tan(x) - sin(x) / cos(x) + exp(-y)
    Prog { rpn: b"\x01\x00\x61\x5e\x01\x00\x42\x01\x01\x4e\x5e\x41", cls: b"pmp", f: e320 }, // exp(ln(x)) - x + exp(-y)
    Prog { rpn: b"\x7c\x02\x10\x33\x2e\x31\x34\x31\x35\x39\x32\x36\x35\x33\x35\x38\x39\x37\x39\x42\x01\x01\x4e\x5e\x41", cls: b"pmp", f: e321 }, // pi - 3.14159265358979 + exp(-y)
    Prog { rpn: b"\x7c\x02\x03\x33\x35\x35\x02\x03\x31\x31\x33\x44\x42", cls: b"pmp", f: e322 }, // pi - 355 / 113
    Prog { rpn: b"\x7d\x02\x11\x32\x2e\x37\x31\x38\x32\x38\x31\x38\x32\x38\x34\x35\x39\x30\x34\x35\x42", cls: b"pmp", f: e323 }, // e - 2.718281828459045
    Prog { rpn: b"\x7f\x02\x02\x31\x30\x61\x42\x01\x01\x4e\x5e\x41", cls: b"pmp", f: e324 }, // ln_10 - ln(10) + exp(-y)
    Prog { rpn: b"\x7e\x02\x01\x33\x43\x02\x01\x38\x61\x42\x01\x01\x4e\x5e\x41", cls: b"pmp", f: e325 }, // ln_2 * 3 - ln(8) + exp(-y)
    Prog { rpn: b"\x01\x00\x4e\x01\x00\x01\x01\x4e\x5e\x41\x41", cls: b"pmp", f: e326 }, // -x + (x + exp(-y))
    Prog { rpn: b"\x01\x00\x01\x01\x4e\x5e\x41\x4e\x01\x00\x41", cls: b"pmp", f: e327 }, // -(x + exp(-y)) + x
    Prog { rpn: b"\x01\x00\x5e\x4e\x01\x00\x01\x01\x4e\x5e\x41\x5e\x41", cls: b"pmp", f: e328 }, // -exp(x) + exp(x + exp(-y))
    Prog { rpn: b"\x02\x01\x31\x01\x00\x02\x02\x31\x30\x43\x74\x42", cls: b"pmp", f: e329 }, // 1 - tanh(x * 10)
    Prog { rpn: b"\x02\x01\x31\x01\x01\x4e\x5e\x41\x02\x01\x31\x01\x01\x4e\x5e\x42\x43\x02\x01\x31\x42", cls: b"pmp", f: e330 }, // (1 + exp(-y)) * (1 - exp(-y)) - 1
    Prog { rpn: b"\x01\x00\x68\x01\x00\x68\x43\x01\x00\x69\x01\x00\x69\x43\x41\x02\x01\x31\x42\x01\x01\x4e\x5e\x41", cls: b"pmp", f: e331 }, // sin(x) * sin(x) + cos(x) * cos(x) - 1 + exp(-y)
    Prog { rpn: b"\x01\x00\x73\x01\x00\x73\x43\x01\x00\x72\x01\x00\x72\x43\x42\x02\x01\x31\x42\x01\x01\x4e\x5e\x41", cls: b"pmp", f: e332 }, // cosh(x) * cosh(x) - sinh(x) * sinh(x) - 1 + exp(-y)
    Prog { rpn: b"\x01\x00\x01\x01\x4e\x5e\x41\x46\x01\x00\x46\x42\x01\x01\x4e\x5e\x44", cls: b"pmp", f: e333 }, // (sqrt(x + exp(-y)) - sqrt(x)) / exp(-y)
    Prog { rpn: b"\x01\x00\x01\x01\x4e\x5e\x41\x61\x01\x00\x61\x42\x01\x02\x01\x01\x4e\x5e\x43\x41", cls: b"pmp", f: e334 }, // ln(x + exp(-y)) - ln(x) + z * exp(-y)
    Prog { rpn: b"\x02\x04\x31\x30\x30\x30\x01\x00\x01\x01\x4e\x5e\x41\x46\x01\x00\x46\x42\x43\x5e", cls: b"pmp", f: e335 }, // exp(1000 * (sqrt(x + exp(-y)) - sqrt(x)))
    Prog { rpn: b"\x02\x04\x31\x30\x30\x30\x01\x01\x4e\x5e\x5e\x02\x01\x31\x42\x43\x01\x01\x4e\x5e\x44\x68", cls: b"pmp", f: e336 }, // sin(1000 * (exp(exp(-y)) - 1) / exp(-y))
    Prog { rpn: b"\x01\x00\x5e\x02\x01\x31\x42\x01\x01\x4e\x5e\x4d", cls: b"pmp", f: e337 }, // (exp(x) - 1) % exp(-y)
    Prog { rpn: b"\x01\x00\x02\x02\x31\x30\x43\x5e\x7c\x4d", cls: b"pmp", f: e338 }, // exp(x * 10) % pi
    Prog { rpn: b"\x01\x00\x02\x02\x31\x30\x43\x5e\x02\x01\x31\x4d", cls: b"pmp", f: e339 }, // exp(x * 10) % 1
    Prog { rpn: b"\x01\x00\x01\x00\x4e\x02\x02\x31\x30\x43\x5e\x4d", cls: b"pmp", f: e340 }, // x % exp(-x * 10)
    Prog { rpn: b"\x02\x07\x31\x30\x30\x30\x30\x30\x30\x01\x00\x46\x43\x7e\x4d", cls: b"pmp", f: e341 }, // 1000000 * sqrt(x) % ln_2
    Prog { rpn: b"\x02\x04\x31\x30\x30\x30\x01\x00\x61\x43\x01\x02\x46\x4d", cls: b"pmp", f: e342 }, // 1000 * ln(x) % sqrt(z)
    Prog { rpn: b"\x02\x04\x31\x30\x30\x30\x01\x00\x46\x43\x5e", cls: b"pmp", f: e343 }, // exp(1000 * sqrt(x))
    Prog { rpn: b"\x02\x04\x31\x30\x30\x30\x4e\x01\x00\x46\x43\x5e", cls: b"pmp", f: e344 }, // exp(-1000 * sqrt(x))
    Prog { rpn: b"\x02\x04\x31\x30\x30\x30\x01\x00\x46\x43\x72", cls: b"pmp", f: e345 }, // sinh(1000 * sqrt(x))
    Prog { rpn: b"\x02\x04\x31\x30\x30\x30\x01\x00\x46\x43\x73", cls: b"pmp", f: e346 }, // cosh(1000 * sqrt(x))
    Prog { rpn: b"\x02\x03\x31\x30\x30\x4e\x01\x00\x46\x43\x72", cls: b"pmp", f: e347 }, // sinh(-100 * sqrt(x))
    Prog { rpn: b"\x01\x00\x02\x03\x30\x2e\x31\x43\x5e\x5e", cls: b"pmp", f: e348 }, // exp(exp(x * 0.1))
    Prog { rpn: b"\x01\x00\x02\x01\x33\x41\x61\x61", cls: b"pmp", f: e349 }, // ln(ln(x + 3))
    Prog { rpn: b"\x01\x00\x5e\x61", cls: b"pmp", f: e350 }, // ln(exp(x))
    Prog { rpn: b"\x01\x00\x61\x5e", cls: b"pmp", f: e351 }, // exp(ln(x))
    Prog { rpn: b"\x01\x00\x46\x01\x00\x46\x43", cls: b"pmp", f: e352 }, // sqrt(x) * sqrt(x)
    Prog { rpn: b"\x01\x00\x5e\x01\x00\x4e\x5e\x43", cls: b"pmp", f: e353 }, // exp(x) * exp(-x)
    Prog { rpn: b"\x01\x00\x6d\x6a", cls: b"pmp", f: e354 }, // tan(atan(x))
    Prog { rpn: b"\x02\x01\x31\x01\x00\x02\x01\x31\x41\x44\x6b\x68", cls: b"pmp", f: e355 }, // sin(asin(1 / (x + 1)))
    Prog { rpn: b"\x02\x01\x31\x01\x01\x4e\x5e\x41\x46\x61", cls: b"pmp", f: e356 }, // ln(sqrt(1 + exp(-y)))
    Prog { rpn: b"\x02\x01\x31\x01\x01\x4e\x5e\x41\x01\x01\x4e\x5e\x41\x61", cls: b"pmp", f: e357 }, // ln(1 + exp(-y) + exp(-y))
    Prog { rpn: b"\x02\x01\x31\x01\x01\x4e\x5e\x41\x61\x02\x01\x31\x01\x01\x4e\x5e\x42\x61\x41", cls: b"pmp", f: e358 }, // ln(1 + exp(-y)) + ln(1 - exp(-y))
    Prog { rpn: b"\x02\x01\x31\x01\x01\x4e\x5e\x42\x6c\x02\x01\x31\x01\x01\x4e\x5e\x42\x6c\x43", cls: b"pmp", f: e359 }, // acos(1 - exp(-y)) * acos(1 - exp(-y))
    Prog { rpn: b"\x02\x01\x31\x01\x01\x4e\x5e\x41\x61\x45", cls: b"pmp", f: e360 }, // recip(ln(1 + exp(-y)))
    Prog { rpn: b"\x02\x01\x31\x01\x00\x01\x00\x01\x01\x4e\x5e\x42\x42\x44", cls: b"pmp", f: e361 }, // 1 / (x - (x - exp(-y)))
    Prog { rpn: b"\x02\x01\x31\x7c\x01\x01\x4e\x5e\x41\x68\x44", cls: b"pmp", f: e362 }, // 1 / sin(pi + exp(-y))
    Prog { rpn: b"\x7c\x01\x01\x4e\x5e\x42\x68\x46", cls: b"pmp", f: e363 }, // sqrt(sin(pi - exp(-y)))
    Prog { rpn: b"\x7c\x01\x01\x4e\x5e\x42\x68\x61", cls: b"pmp", f: e364 }, // ln(sin(pi - exp(-y)))
    Prog { rpn: b"\x02\x01\x31\x7c\x02\x01\x32\x44\x01\x01\x4e\x5e\x42\x69\x44\x6d", cls: b"pmp", f: e365 }, // atan(1 / cos(pi / 2 - exp(-y)))
    Prog { rpn: b"\x02\x01\x31\x01\x01\x4e\x5e\x41\x02\x01\x31\x01\x01\x4e\x5e\x44\x5f", cls: b"pmp", f: e366 }, // pow(1 + exp(-y), 1 / exp(-y))
    Prog { rpn: b"\x02\x01\x31\x01\x01\x4e\x5e\x42\x02\x01\x31\x01\x01\x4e\x5e\x44\x5f", cls: b"pmp", f: e367 }, // pow(1 - exp(-y), 1 / exp(-y))
    Prog { rpn: b"\x02\x01\x31\x01\x01\x4e\x5e\x41\x02\x01\x31\x01\x01\x4e\x5e\x02\x01\x33\x44\x41\x64", cls: b"pmp", f: e368 }, // log(1 + exp(-y), 1 + exp(-y) / 3)
    Prog { rpn: b"\x01\x01\x4e\x5e\x69\x6c", cls: b"pmp", f: e369 }, // acos(cos(exp(-y)))
    Prog { rpn: b"\x01\x01\x4e\x5e\x69\x6b", cls: b"pmp", f: e370 }, // asin(cos(exp(-y)))
    Prog { rpn: b"\x01\x01\x4e\x5e\x73\x76", cls: b"pmp", f: e371 }, // acosh(cosh(exp(-y)))
    Prog { rpn: b"\x01\x01\x4e\x5e\x5e\x76", cls: b"pmp", f: e372 }, // acosh(exp(exp(-y)))
    Prog { rpn: b"\x01\x01\x4e\x5e\x69\x61", cls: b"pmp", f: e373 }, // ln(cos(exp(-y)))
    Prog { rpn: b"\x01\x01\x4e\x5e\x73\x61", cls: b"pmp", f: e374 }, // ln(cosh(exp(-y)))
    Prog { rpn: b"\x01\x01\x4e\x5e\x5e\x61", cls: b"pmp", f: e375 }, // ln(exp(exp(-y)))
    Prog { rpn: b"\x01\x01\x4e\x5e\x5e\x62", cls: b"pmp", f: e376 }, // log2(exp(exp(-y)))
    Prog { rpn: b"\x01\x01\x4e\x5e\x5e\x46\x63", cls: b"pmp", f: e377 }, // log10(sqrt(exp(exp(-y))))
    Prog { rpn: b"\x01\x01\x4e\x5e\x73\x01\x00\x64", cls: b"pmp", f: e378 }, // log(cosh(exp(-y)), x)
    Prog { rpn: b"\x01\x00\x01\x01\x4e\x5e\x5e\x64", cls: b"pmp", f: e379 }, // log(x, exp(exp(-y)))
    Prog { rpn: b"\x01\x00\x01\x01\x4e\x5e\x69\x64", cls: b"pmp", f: e380 }, // log(x, cos(exp(-y)))
    Prog { rpn: b"\x01\x01\x4e\x5e\x73\x02\x01\x31\x01\x01\x4e\x5e\x44\x5f", cls: b"pmp", f: e381 }, // pow(cosh(exp(-y)), 1 / exp(-y))
    Prog { rpn: b"\x01\x01\x4e\x5e\x69\x01\x01\x5e\x5f", cls: b"pmp", f: e382 }, // pow(cos(exp(-y)), exp(y))
    Prog { rpn: b"\x01\x01\x4e\x5e\x5e\x01\x01\x5e\x5f", cls: b"pmp", f: e383 }, // pow(exp(exp(-y)), exp(y))
    Prog { rpn: b"\x01\x01\x4e\x5e\x6c\x69", cls: b"pmp", f: e384 }, // cos(acos(exp(-y)))
    Prog { rpn: b"\x01\x01\x4e\x5e\x02\x01\x31\x42\x6c\x68", cls: b"pmp", f: e385 }, // sin(acos(exp(-y) - 1))
    Prog { rpn: b"\x01\x01\x4e\x5e\x6c\x6a", cls: b"pmp", f: e386 }, // tan(acos(exp(-y)))
    Prog { rpn: b"\x02\x01\x31\x01\x01\x4e\x5e\x44\x6d\x69", cls: b"pmp", f: e387 }, // cos(atan(1 / exp(-y)))
    Prog { rpn: b"\x02\x01\x31\x01\x01\x4e\x5e\x44\x6d\x6a", cls: b"pmp", f: e388 }, // tan(atan(1 / exp(-y)))
    Prog { rpn: b"\x02\x01\x32\x01\x01\x4e\x5e\x6c\x43\x68", cls: b"pmp", f: e389 }, // sin(2 * acos(exp(-y)))
    Prog { rpn: b"\x02\x01\x32\x02\x01\x31\x01\x01\x4e\x5e\x44\x6d\x43\x68", cls: b"pmp", f: e390 }, // sin(2 * atan(1 / exp(-y)))
    Prog { rpn: b"\x01\x01\x4e\x5e\x4e\x5e\x46\x6c", cls: b"pmp", f: e391 }, // acos(sqrt(exp(-exp(-y))))
    Prog { rpn: b"\x01\x01\x4e\x5e\x4e\x5e\x47\x6b", cls: b"pmp", f: e392 }, // asin(cbrt(exp(-exp(-y))))
    Prog { rpn: b"\x01\x01\x4e\x5e\x4e\x5e\x46\x77", cls: b"pmp", f: e393 }, // atanh(sqrt(exp(-exp(-y))))
    Prog { rpn: b"\x01\x01\x4e\x5e\x69\x77", cls: b"pmp", f: e394 }, // atanh(cos(exp(-y)))
    Prog { rpn: b"\x02\x01\x31\x01\x01\x4e\x5e\x41\x46\x01\x01\x4e\x5e\x69\x44\x76", cls: b"pmp", f: e395 }, // acosh(sqrt(1 + exp(-y)) / cos(exp(-y)))
    Prog { rpn: b"\x01\x01\x4e\x5e\x69\x4e\x6c", cls: b"pmp", f: e396 }, // acos(-cos(exp(-y)))
    Prog { rpn: b"\x01\x01\x4e\x5e\x69\x4e\x6b", cls: b"pmp", f: e397 }, // asin(-cos(exp(-y)))
    Prog { rpn: b"\x01\x01\x4e\x5e\x4e\x5e\x4e\x77", cls: b"pmp", f: e398 }, // atanh(-exp(-exp(-y)))
    Prog { rpn: b"\x01\x01\x4e\x02\x03\x30\x2e\x35\x43\x5e\x69\x6c", cls: b"pmp", f: e399 }, // acos(cos(exp(-y * 0.5)))
    Prog { rpn: b"\x01\x01\x4e\x02\x03\x30\x2e\x35\x43\x5e\x69\x6b", cls: b"pmp", f: e400 }, // asin(cos(exp(-y * 0.5)))
    Prog { rpn: b"\x01\x01\x4e\x02\x03\x30\x2e\x35\x43\x5e\x73\x76", cls: b"pmp", f: e401 }, // acosh(cosh(exp(-y * 0.5)))
    Prog { rpn: b"\x01\x01\x4e\x02\x03\x30\x2e\x35\x43\x5e\x5e\x76", cls: b"pmp", f: e402 }, // acosh(exp(exp(-y * 0.5)))
    Prog { rpn: b"\x01\x01\x4e\x02\x03\x30\x2e\x35\x43\x5e\x69\x61", cls: b"pmp", f: e403 }, // ln(cos(exp(-y * 0.5)))
    Prog { rpn: b"\x01\x01\x4e\x02\x03\x30\x2e\x35\x43\x5e\x73\x61", cls: b"pmp", f: e404 }, // ln(cosh(exp(-y * 0.5)))
    Prog { rpn: b"\x01\x01\x4e\x02\x03\x30\x2e\x35\x43\x5e\x5e\x61", cls: b"pmp", f: e405 }, // ln(exp(exp(-y * 0.5)))
    Prog { rpn: b"\x01\x01\x4e\x02\x03\x30\x2e\x35\x43\x5e\x5e\x62", cls: b"pmp", f: e406 }, // log2(exp(exp(-y * 0.5)))
    Prog { rpn: b"\x01\x01\x4e\x02\x03\x30\x2e\x35\x43\x5e\x5e\x46\x63", cls: b"pmp", f: e407 }, // log10(sqrt(exp(exp(-y * 0.5))))
    Prog { rpn: b"\x01\x01\x4e\x02\x03\x30\x2e\x35\x43\x5e\x73\x01\x00\x64", cls: b"pmp", f: e408 }, // log(cosh(exp(-y * 0.5)), x)
    Prog { rpn: b"\x01\x00\x01\x01\x4e\x02\x03\x30\x2e\x35\x43\x5e\x5e\x64", cls: b"pmp", f: e409 }, // log(x, exp(exp(-y * 0.5)))
    Prog { rpn: b"\x01\x00\x01\x01\x4e\x02\x03\x30\x2e\x35\x43\x5e\x69\x64", cls: b"pmp", f: e410 }, // log(x, cos(exp(-y * 0.5)))
    Prog { rpn: b"\x01\x01\x4e\x02\x03\x30\x2e\x35\x43\x5e\x73\x02\x01\x31\x01\x01\x4e\x02\x03\x30\x2e\x35\x43\x5e\x44\x5f", cls: b"pmp", f: e411 }, // pow(cosh(exp(-y * 0.5)), 1 / exp(-y * 0.5))
    Prog { rpn: b"\x01\x01\x4e\x02\x03\x30\x2e\x35\x43\x5e\x69\x01\x01\x5e\x5f", cls: b"pmp", f: e412 }, // pow(cos(exp(-y * 0.5)), exp(y))
    Prog { rpn: b"\x01\x01\x4e\x02\x03\x30\x2e\x35\x43\x5e\x5e\x01\x01\x5e\x5f", cls: b"pmp", f: e413 }, // pow(exp(exp(-y * 0.5)), exp(y))
    Prog { rpn: b"\x01\x01\x4e\x02\x03\x30\x2e\x35\x43\x5e\x6c\x69", cls: b"pmp", f: e414 }, // cos(acos(exp(-y * 0.5)))
    Prog { rpn: b"\x01\x01\x4e\x02\x03\x30\x2e\x35\x43\x5e\x02\x01\x31\x42\x6c\x68", cls: b"pmp", f: e415 }, // sin(acos(exp(-y * 0.5) - 1))
    Prog { rpn: b"\x01\x01\x4e\x02\x03\x30\x2e\x35\x43\x5e\x6c\x6a", cls: b"pmp", f: e416 }, // tan(acos(exp(-y * 0.5)))
    Prog { rpn: b"\x02\x01\x31\x01\x01\x4e\x02\x03\x30\x2e\x35\x43\x5e\x44\x6d\x69", cls: b"pmp", f: e417 }, // cos(atan(1 / exp(-y * 0.5)))
    Prog { rpn: b"\x02\x01\x31\x01\x01\x4e\x02\x03\x30\x2e\x35\x43\x5e\x44\x6d\x6a", cls: b"pmp", f: e418 }, // tan(atan(1 / exp(-y * 0.5)))
    Prog { rpn: b"\x02\x01\x32\x01\x01\x4e\x02\x03\x30\x2e\x35\x43\x5e\x6c\x43\x68", cls: b"pmp", f: e419 }, // sin(2 * acos(exp(-y * 0.5)))
    Prog { rpn: b"\x02\x01\x32\x02\x01\x31\x01\x01\x4e\x02\x03\x30\x2e\x35\x43\x5e\x44\x6d\x43\x68", cls: b"pmp", f: e420 }, // sin(2 * atan(1 / exp(-y * 0.5)))
    Prog { rpn: b"\x01\x01\x4e\x02\x03\x30\x2e\x35\x43\x5e\x4e\x5e\x46\x6c", cls: b"pmp", f: e421 }, // acos(sqrt(exp(-exp(-y * 0.5))))
    Prog { rpn: b"\x01\x01\x4e\x02\x03\x30\x2e\x35\x43\x5e\x4e\x5e\x47\x6b", cls: b"pmp", f: e422 }, // asin(cbrt(exp(-exp(-y * 0.5))))
    Prog { rpn: b"\x01\x01\x4e\x02\x03\x30\x2e\x35\x43\x5e\x4e\x5e\x46\x77", cls: b"pmp", f: e423 }, // atanh(sqrt(exp(-exp(-y * 0.5))))
    Prog { rpn: b"\x01\x01\x4e\x02\x03\x30\x2e\x35\x43\x5e\x69\x77", cls: b"pmp", f: e424 }, // atanh(cos(exp(-y * 0.5)))
    Prog { rpn: b"\x02\x01\x31\x01\x01\x4e\x02\x03\x30\x2e\x35\x43\x5e\x41\x46\x01\x01\x4e\x02\x03\x30\x2e\x35\x43\x5e\x69\x44\x76", cls: b"pmp", f: e425 }, // acosh(sqrt(1 + exp(-y * 0.5)) / cos(exp(-y * 0.5)))
    Prog { rpn: b"\x01\x01\x4e\x02\x03\x30\x2e\x35\x43\x5e\x69\x4e\x6c", cls: b"pmp", f: e426 }, // acos(-cos(exp(-y * 0.5)))
    Prog { rpn: b"\x01\x01\x4e\x02\x03\x30\x2e\x35\x43\x5e\x69\x4e\x6b", cls: b"pmp", f: e427 }, // asin(-cos(exp(-y * 0.5)))
    Prog { rpn: b"\x01\x01\x4e\x02\x03\x30\x2e\x35\x43\x5e\x4e\x5e\x4e\x77", cls: b"pmp", f: e428 }, // atanh(-exp(-exp(-y * 0.5)))
    Prog { rpn: b"\x01\x01\x01\x01\x5e\x44\x69\x6c", cls: b"pmp", f: e429 }, // acos(cos(y / exp(y)))
    Prog { rpn: b"\x01\x01\x01\x01\x5e\x44\x69\x6b", cls: b"pmp", f: e430 }, // asin(cos(y / exp(y)))
    Prog { rpn: b"\x01\x01\x01\x01\x5e\x44\x73\x76", cls: b"pmp", f: e431 }, // acosh(cosh(y / exp(y)))
    Prog { rpn: b"\x01\x01\x01\x01\x5e\x44\x5e\x76", cls: b"pmp", f: e432 }, // acosh(exp(y / exp(y)))
    Prog { rpn: b"\x01\x01\x01\x01\x5e\x44\x69\x61", cls: b"pmp", f: e433 }, // ln(cos(y / exp(y)))
    Prog { rpn: b"\x01\x01\x01\x01\x5e\x44\x73\x61", cls: b"pmp", f: e434 }, // ln(cosh(y / exp(y)))
    Prog { rpn: b"\x01\x01\x01\x01\x5e\x44\x5e\x61", cls: b"pmp", f: e435 }, // ln(exp(y / exp(y)))
    Prog { rpn: b"\x01\x01\x01\x01\x5e\x44\x5e\x62", cls: b"pmp", f: e436 }, // log2(exp(y / exp(y)))
    Prog { rpn: b"\x01\x01\x01\x01\x5e\x44\x5e\x46\x63", cls: b"pmp", f: e437 }, // log10(sqrt(exp(y / exp(y))))
    Prog { rpn: b"\x01\x01\x01\x01\x5e\x44\x73\x01\x00\x64", cls: b"pmp", f: e438 }, // log(cosh(y / exp(y)), x)
    Prog { rpn: b"\x01\x00\x01\x01\x01\x01\x5e\x44\x5e\x64", cls: b"pmp", f: e439 }, // log(x, exp(y / exp(y)))
    Prog { rpn: b"\x01\x00\x01\x01\x01\x01\x5e\x44\x69\x64", cls: b"pmp", f: e440 }, // log(x, cos(y / exp(y)))
    Prog { rpn: b"\x01\x01\x01\x01\x5e\x44\x73\x02\x01\x31\x01\x01\x44\x01\x01\x5e\x44\x5f", cls: b"pmp", f: e441 }, // pow(cosh(y / exp(y)), 1 / y / exp(y))
    Prog { rpn: b"\x01\x01\x01\x01\x5e\x44\x69\x01\x01\x5e\x5f", cls: b"pmp", f: e442 }, // pow(cos(y / exp(y)), exp(y))
    Prog { rpn: b"\x01\x01\x01\x01\x5e\x44\x5e\x01\x01\x5e\x5f", cls: b"pmp", f: e443 }, // pow(exp(y / exp(y)), exp(y))
    Prog { rpn: b"\x01\x01\x01\x01\x5e\x44\x6c\x69", cls: b"pmp", f: e444 }, // cos(acos(y / exp(y)))
    Prog { rpn: b"\x01\x01\x01\x01\x5e\x44\x02\x01\x31\x42\x6c\x68", cls: b"pmp", f: e445 }, // sin(acos(y / exp(y) - 1))
    Prog { rpn: b"\x01\x01\x01\x01\x5e\x44\x6c\x6a", cls: b"pmp", f: e446 }, // tan(acos(y / exp(y)))
    Prog { rpn: b"\x02\x01\x31\x01\x01\x44\x01\x01\x5e\x44\x6d\x69", cls: b"pmp", f: e447 }, // cos(atan(1 / y / exp(y)))
    Prog { rpn: b"\x02\x01\x31\x01\x01\x44\x01\x01\x5e\x44\x6d\x6a", cls: b"pmp", f: e448 }, // tan(atan(1 / y / exp(y)))
    Prog { rpn: b"\x02\x01\x32\x01\x01\x01\x01\x5e\x44\x6c\x43\x68", cls: b"pmp", f: e449 }, // sin(2 * acos(y / exp(y)))
    Prog { rpn: b"\x02\x01\x32\x02\x01\x31\x01\x01\x44\x01\x01\x5e\x44\x6d\x43\x68", cls: b"pmp", f: e450 }, // sin(2 * atan(1 / y / exp(y)))
    Prog { rpn: b"\x01\x01\x4e\x01\x01\x5e\x44\x5e\x46\x6c", cls: b"pmp", f: e451 }, // acos(sqrt(exp(-y / exp(y))))
    Prog { rpn: b"\x01\x01\x4e\x01\x01\x5e\x44\x5e\x47\x6b", cls: b"pmp", f: e452 }, // asin(cbrt(exp(-y / exp(y))))
    Prog { rpn: b"\x01\x01\x4e\x01\x01\x5e\x44\x5e\x46\x77", cls: b"pmp", f: e453 }, // atanh(sqrt(exp(-y / exp(y))))
    Prog { rpn: b"\x01\x01\x01\x01\x5e\x44\x69\x77", cls: b"pmp", f: e454 }, // atanh(cos(y / exp(y)))
    Prog { rpn: b"\x02\x01\x31\x01\x01\x01\x01\x5e\x44\x41\x46\x01\x01\x01\x01\x5e\x44\x69\x44\x76", cls: b"pmp", f: e455 }, // acosh(sqrt(1 + y / exp(y)) / cos(y / exp(y)))
    Prog { rpn: b"\x01\x01\x01\x01\x5e\x44\x69\x4e\x6c", cls: b"pmp", f: e456 }, // acos(-cos(y / exp(y)))
    Prog { rpn: b"\x01\x01\x01\x01\x5e\x44\x69\x4e\x6b", cls: b"pmp", f: e457 }, // asin(-cos(y / exp(y)))
    Prog { rpn: b"\x01\x01\x4e\x01\x01\x5e\x44\x5e\x4e\x77", cls: b"pmp", f: e458 }, // atanh(-exp(-y / exp(y)))
    Prog { rpn: b"\x01\x00\x02\x01\x39\x43\x01\x02\x41\x74\x6c", cls: b"ppp", f: e459 }, // acos(tanh(x * 9 + z))
    Prog { rpn: b"\x01\x00\x02\x01\x39\x43\x01\x02\x41\x74\x6b", cls: b"ppp", f: e460 }, // asin(tanh(x * 9 + z))
    Prog { rpn: b"\x01\x00\x02\x01\x39\x43\x01\x02\x41\x74\x77", cls: b"ppp", f: e461 }, // atanh(tanh(x * 9 + z))
    Prog { rpn: b"\x01\x00\x02\x01\x39\x43\x01\x02\x41\x74\x61", cls: b"ppp", f: e462 }, // ln(tanh(x * 9 + z))
    Prog { rpn: b"\x01\x00\x01\x01\x02\x01\x39\x43\x74\x64", cls: b"ppp", f: e463 }, // log(x, tanh(y * 9))
    Prog { rpn: b"\x01\x00\x02\x01\x39\x43\x01\x02\x41\x74\x01\x00\x02\x02\x31\x38\x43\x5e\x5f", cls: b"ppp", f: e464 }, // pow(tanh(x * 9 + z), exp(x * 18))
    Prog { rpn: b"\x01\x00\x68\x77", cls: b"ppp", f: e465 }, // atanh(sin(x))
    Prog { rpn: b"\x01\x00\x68\x6c", cls: b"ppp", f: e466 }, // acos(sin(x))
    Prog { rpn: b"\x01\x00\x68\x6b", cls: b"ppp", f: e467 }, // asin(sin(x))
    Prog { rpn: b"\x01\x00\x69\x6c", cls: b"ppp", f: e468 }, // acos(cos(x))
    Prog { rpn: b"\x01\x00\x6a\x6d", cls: b"ppp", f: e469 }, // atan(tan(x))
    Prog { rpn: b"\x02\x04\x31\x30\x30\x30\x01\x00\x43\x69\x6b", cls: b"ppp", f: e470 }, // asin(cos(1000 * x))
    Prog { rpn: b"\x02\x01\x31\x01\x00\x73\x44\x6c", cls: b"ppp", f: e471 }, // acos(1 / cosh(x))
    Prog { rpn: b"\x02\x01\x31\x01\x00\x73\x44\x77", cls: b"ppp", f: e472 }, // atanh(1 / cosh(x))
    Prog { rpn: b"\x02\x01\x31\x01\x00\x02\x04\x30\x2e\x30\x31\x43\x69\x44\x76", cls: b"ppp", f: e473 }, // acosh(1 / cos(x * 0.01))
    Prog { rpn: b"\x01\x00\x01\x01\x41\x01\x00\x42", cls: b"pTp", f: e474 }, // (x + y) - x
    Prog { rpn: b"\x01\x00\x01\x01\x41\x01\x00\x01\x01\x42\x42", cls: b"pTp", f: e475 }, // (x + y) - (x - y)
    Prog { rpn: b"\x01\x00\x01\x01\x41\x01\x00\x01\x01\x42\x43\x01\x00\x01\x00\x43\x42", cls: b"pTp", f: e476 }, // (x + y) * (x - y) - x * x
    Prog { rpn: b"\x01\x00\x01\x01\x42\x01\x00\x4d", cls: b"pTp", f: e477 }, // (x - y) % x
    Prog { rpn: b"\x01\x00\x01\x00\x43\x01\x00\x01\x01\x42\x01\x00\x01\x01\x41\x43\x42", cls: b"pTp", f: e478 }, // x * x - (x - y) * (x + y)
    Prog { rpn: b"\x01\x00\x01\x01\x01\x00\x43\x01\x01\x44\x42", cls: b"pTp", f: e479 }, // x - y * x / y
    Prog { rpn: b"\x02\x01\x31\x02\x01\x31\x01\x01\x41\x44\x02\x01\x31\x42", cls: b"pTp", f: e480 }, // 1 / (1 + y) - 1
    Prog { rpn: b"\x01\x00\x01\x00\x43\x01\x01\x41\x46\x01\x00\x42", cls: b"pTp", f: e481 }, // sqrt(x * x + y) - x
    Prog { rpn: b"\x02\x01\x31\x01\x01\x41\x61", cls: b"pTp", f: e482 }, // ln(1 + y)
    Prog { rpn: b"\x02\x01\x31\x01\x01\x41\x02\x01\x31\x02\x01\x32\x01\x01\x43\x41\x64", cls: b"pTp", f: e483 }, // log(1 + y, 1 + 2 * y)
    Prog { rpn: b"\x02\x01\x31\x01\x01\x42\x77", cls: b"pTp", f: e484 }, // atanh(1 - y)
    Prog { rpn: b"\x02\x01\x31\x01\x01\x42\x6c", cls: b"pTp", f: e485 }, // acos(1 - y)
    Prog { rpn: b"\x02\x01\x31\x01\x01\x42\x6b", cls: b"pTp", f: e486 }, // asin(1 - y)
    Prog { rpn: b"\x02\x01\x31\x01\x01\x41\x76", cls: b"pTp", f: e487 }, // acosh(1 + y)
    Prog { rpn: b"\x01\x01\x5e\x02\x01\x31\x42", cls: b"pTp", f: e488 }, // exp(y) - 1
    Prog { rpn: b"\x01\x00\x01\x01\x41\x01\x00\x01\x01\x43\x64\x75\x45", cls: b"ppp", f: e489 }, // recip(asinh(log((x + y), x * y)))
    Prog { rpn: b"\x01\x00\x7e\x5f\x69\x45", cls: b"ppp", f: e490 }, // recip(cos(pow(x, ln_2)))
    Prog { rpn: b"\x01\x00\x01\x02\x01\x00\x41\x44\x45", cls: b"ppp", f: e491 }, // recip((x) / (z + x))
    Prog { rpn: b"\x01\x02\x73\x46", cls: b"ppp", f: e492 }, // sqrt(cosh(z))
    Prog { rpn: b"\x01\x01\x46", cls: b"ppp", f: e493 }, // sqrt(y)
    Prog { rpn: b"\x01\x00\x46\x46", cls: b"ppp", f: e494 }, // sqrt(sqrt(x))
    Prog { rpn: b"\x01\x01\x02\x01\x35\x5e\x61\x4d\x47", cls: b"ppp", f: e495 }, // cbrt((y) % (ln(exp(5))))
    Prog { rpn: b"\x01\x00\x01\x01\x44\x02\x03\x30\x2e\x33\x02\x01\x35\x4d\x5f\x47", cls: b"ppp", f: e496 }, // cbrt(pow(x / y, 0.3 % (5)))
    Prog { rpn: b"\x01\x02\x73\x7f\x68\x6b\x5f\x47", cls: b"ppp", f: e497 }, // cbrt(pow(cosh(z), asin(sin(ln_10))))
    Prog { rpn: b"\x7d\x5e", cls: b"ppp", f: e498 }, // exp(e)
    Prog { rpn: b"\x01\x00\x5e\x01\x02\x5f\x02\x01\x35\x41\x5e", cls: b"ppp", f: e499 }, // exp((pow(exp(x), z)) + (5))
    Prog { rpn: b"\x01\x00\x01\x01\x42\x75\x5e", cls: b"ppp", f: e500 }, // exp(asinh((x) - (y)))
    Prog { rpn: b"\x01\x01\x61", cls: b"ppp", f: e501 }, // ln(y)
    Prog { rpn: b"\x01\x00\x61", cls: b"ppp", f: e502 }, // ln(x)
    Prog { rpn: b"\x01\x00\x01\x01\x44\x61", cls: b"ppp", f: e503 }, // ln(x / y)
    Prog { rpn: b"\x01\x00\x46\x62", cls: b"ppp", f: e504 }, // log2(sqrt(x))
    Prog { rpn: b"\x01\x02\x73\x62", cls: b"ppp", f: e505 }, // log2(cosh(z))
    Prog { rpn: b"\x01\x00\x62", cls: b"ppp", f: e506 }, // log2(x)
    Prog { rpn: b"\x01\x02\x73\x63", cls: b"ppp", f: e507 }, // log10(cosh(z))
    Prog { rpn: b"\x01\x00\x63", cls: b"ppp", f: e508 }, // log10(x)
    Prog { rpn: b"\x01\x00\x01\x01\x41\x63", cls: b"ppp", f: e509 }, // log10((x + y))
    Prog { rpn: b"\x7f\x4e\x01\x00\x01\x01\x44\x62\x4d\x68", cls: b"ppp", f: e510 }, // sin(-(ln_10) % log2(x / y))
    Prog { rpn: b"\x02\x01\x31\x01\x01\x02\x01\x31\x41\x44\x6c\x02\x03\x31\x2e\x31\x01\x02\x42\x5f\x68", cls: b"ppp", f: e511 }, // sin(pow(acos(1 / (y + 1)), ("1.1") - z))
    Prog { rpn: b"\x7e\x01\x02\x41\x01\x00\x01\x01\x46\x41\x7d\x5f\x42\x68", cls: b"ppp", f: e512 }, // sin(ln_2 + (z) - (pow((x + sqrt(y)), e)))
    Prog { rpn: b"\x01\x00\x01\x01\x44\x62\x69", cls: b"ppp", f: e513 }, // cos(log2(x / y))
    Prog { rpn: b"\x7e\x7f\x42\x4e\x69", cls: b"ppp", f: e514 }, // cos(-(ln_2 - (ln_10)))
    Prog { rpn: b"\x01\x00\x01\x01\x43\x01\x00\x01\x01\x64\x5f\x69", cls: b"ppp", f: e515 }, // cos(pow(x * y, log(x, y)))
    Prog { rpn: b"\x01\x02\x74\x6c\x6a", cls: b"ppp", f: e516 }, // tan(acos(tanh(z)))
    Prog { rpn: b"\x01\x00\x5e\x76\x7f\x01\x01\x43\x43\x6a", cls: b"ppp", f: e517 }, // tan((acosh(exp(x))) * (ln_10 * (y)))
    Prog { rpn: b"\x01\x02\x01\x01\x01\x01\x63\x4d\x42\x6a", cls: b"ppp", f: e518 }, // tan((z) - (y) % log10(y))
    Prog { rpn: b"\x02\x01\x31\x01\x01\x41\x45\x6b", cls: b"ppp", f: e519 }, // asin(recip(1 + y))
    Prog { rpn: b"\x01\x00\x02\x01\x32\x41\x69\x6b", cls: b"ppp", f: e520 }, // asin(cos((x) + (2)))
    Prog { rpn: b"\x01\x00\x4e\x5e\x6c", cls: b"ppp", f: e521 }, // acos(exp(-x))
    Prog { rpn: b"\x01\x02\x74\x6c", cls: b"ppp", f: e522 }, // acos(tanh(z))
    Prog { rpn: b"\x02\x03\x30\x2e\x33\x7c\x43\x68\x6c", cls: b"ppp", f: e523 }, // acos(sin((0.3) * (pi)))
    Prog { rpn: b"\x02\x03\x30\x2e\x33\x01\x00\x43\x01\x01\x02\x03\x30\x2e\x33\x44\x43\x6d", cls: b"ppp", f: e524 }, // atan(((0.3) * (x)) * ((y) / (0.3)))
    Prog { rpn: b"\x01\x02\x74\x6b\x6d", cls: b"ppp", f: e525 }, // atan(asin(tanh(z)))
    Prog { rpn: b"\x02\x01\x35\x7e\x01\x02\x44\x44\x6d", cls: b"ppp", f: e526 }, // atan((5) / (ln_2 / z))
    Prog { rpn: b"\x02\x01\x35\x47\x7c\x5e\x01\x02\x5f\x41\x72", cls: b"ppp", f: e527 }, // sinh((cbrt(5)) + (pow(exp(pi), z)))
    Prog { rpn: b"\x01\x01\x72", cls: b"ppp", f: e528 }, // sinh(y)
    Prog { rpn: b"\x01\x00\x01\x00\x64\x72", cls: b"ppp", f: e529 }, // sinh(log(x, x))
    Prog { rpn: b"\x01\x00\x01\x01\x44\x46\x73", cls: b"ppp", f: e530 }, // cosh(sqrt(x / y))
    Prog { rpn: b"\x7c\x01\x02\x43\x45\x73", cls: b"ppp", f: e531 }, // cosh(recip(pi * (z)))
    Prog { rpn: b"\x01\x00\x01\x01\x43\x01\x01\x64\x69\x73", cls: b"ppp", f: e532 }, // cosh(cos(log(x * y, y)))
    Prog { rpn: b"\x7f\x74", cls: b"ppp", f: e533 }, // tanh(ln_10)
    Prog { rpn: b"\x01\x00\x74", cls: b"ppp", f: e534 }, // tanh(x)
    Prog { rpn: b"\x01\x01\x63\x74", cls: b"ppp", f: e535 }, // tanh(log10(y))
    Prog { rpn: b"\x02\x01\x35\x02\x01\x35\x72\x41\x75", cls: b"ppp", f: e536 }, // asinh((5) + sinh(5))
    Prog { rpn: b"\x02\x03\x31\x2e\x31\x7d\x43\x74\x75", cls: b"ppp", f: e537 }, // asinh(tanh(("1.1") * (e)))
    Prog { rpn: b"\x01\x00\x01\x00\x01\x01\x41\x44\x6b\x75", cls: b"ppp", f: e538 }, // asinh(asin(x / (x + y)))
    Prog { rpn: b"\x01\x00\x01\x01\x41\x01\x00\x44\x76", cls: b"ppp", f: e539 }, // acosh((x + y) / x)
    Prog { rpn: b"\x01\x00\x5e\x76", cls: b"ppp", f: e540 }, // acosh(exp(x))
    Prog { rpn: b"\x02\x01\x31\x01\x00\x41\x76", cls: b"ppp", f: e541 }, // acosh(1 + x)
    Prog { rpn: b"\x02\x01\x31\x01\x01\x41\x45\x77", cls: b"ppp", f: e542 }, // atanh(recip(1 + y))
    Prog { rpn: b"\x01\x00\x4e\x5e\x77", cls: b"ppp", f: e543 }, // atanh(exp(-x))
    Prog { rpn: b"\x02\x01\x31\x02\x01\x31\x01\x00\x41\x44\x77", cls: b"ppp", f: e544 }, // atanh(1 / (1 + x))
    Prog { rpn: b"\x7d\x5e\x01\x00\x74\x42\x01\x01\x5e\x01\x00\x01\x00\x42\x5f\x42\x01\x02\x73\x01\x02\x01\x02\x4d\x5f\x01\x00\x01\x00\x01\x01\x43\x64\x41\x42", cls: b"ppp", f: e545 }, // exp(e) - tanh(x) - pow(exp(y), (x) - x) - ((pow(cosh(z), z % (z))) + (log(x, x * y)))
    Prog { rpn: b"\x01\x00\x02\x01\x31\x41\x01\x01\x64", cls: b"ppp", f: e546 }, // log((x + 1), y)
    Prog { rpn: b"\x02\x01\x31\x01\x02\x5e\x41\x76\x7c\x42\x02\x01\x31\x01\x01\x02\x01\x31\x41\x44\x6c\x61\x41", cls: b"ppp", f: e547 }, // ((acosh((1 + exp(z)))) - (pi)) + (ln(acos(1 / (y + 1))))
    Prog { rpn: b"\x7e", cls: b"ppp", f: e548 }, // ln_2
    Prog { rpn: b"\x01\x00\x46\x01\x00\x5f", cls: b"ppp", f: e549 }, // pow(sqrt(x), x)
    Prog { rpn: b"\x01\x00\x7c\x41\x01\x00\x01\x01\x44\x64\x5e\x01\x02\x6a\x5f", cls: b"ppp", f: e550 }, // pow(exp(log((x + pi), x / y)), tan(z))
    Prog { rpn: b"\x7d\x02\x01\x35\x42\x73", cls: b"ppp", f: e551 }, // cosh(e - 5)
    Prog { rpn: b"\x02\x01\x35\x02\x03\x31\x2e\x31\x43\x01\x01\x47\x41", cls: b"ppp", f: e552 }, // ((5) * ("1.1")) + (cbrt(y))
    Prog { rpn: b"\x01\x00\x46\x01\x01\x64\x01\x00\x4e\x42\x7d\x45\x42", cls: b"ppp", f: e553 }, // log(sqrt(x), y) - -x - recip(e)
    Prog { rpn: b"\x01\x01\x7f\x42\x68\x77", cls: b"ppp", f: e554 }, // atanh(sin(y - (ln_10)))
    Prog { rpn: b"\x01\x02\x01\x02\x41\x5e\x02\x01\x31\x01\x01\x02\x01\x31\x41\x44\x6c\x01\x00\x46\x64\x5f\x01\x01\x02\x03\x31\x2e\x31\x44\x01\x02\x4e\x43\x68\x42", cls: b"ppp", f: e555 }, // pow(exp(z + (z)), log(acos(1 / (y + 1)), sqrt(x))) - sin((y / "1.1") * -(z))
    Prog { rpn: b"\x02\x03\x31\x2e\x31\x7c\x44\x02\x01\x32\x01\x02\x44\x42", cls: b"ppp", f: e556 }, // (("1.1") / (pi)) - (2) / z
    Prog { rpn: b"\x01\x00\x01\x01\x41\x01\x00\x01\x01\x46\x41\x64\x7c\x68\x77\x42", cls: b"ppp", f: e557 }, // log((x + y), (x + sqrt(y))) - (atanh(sin(pi)))
    Prog { rpn: b"\x01\x00\x02\x01\x35\x5f", cls: b"ppp", f: e558 }, // pow(x, 5)
    Prog { rpn: b"\x01\x02\x73\x01\x00\x01\x01\x44\x64\x01\x00\x01\x00\x4d\x41\x02\x01\x32\x41\x02\x01\x32\x41\x01\x00\x01\x01\x43\x46\x42", cls: b"ppp", f: e559 }, // log(cosh(z), x / y) + x % (x) + 2 + (2) - (sqrt(x * y))
    Prog { rpn: b"\x01\x00\x01\x01\x46\x41\x02\x03\x31\x2e\x31\x01\x00\x41\x5f", cls: b"ppp", f: e560 }, // pow((x + sqrt(y)), ("1.1") + (x))
    Prog { rpn: b"\x01\x00\x01\x01\x64", cls: b"ppp", f: e561 }, // log(x, y)
    Prog { rpn: b"\x01\x02\x7d\x4d\x02\x03\x30\x2e\x33\x7c\x02\x01\x35\x43\x43\x42", cls: b"ppp", f: e562 }, // ((z) % (e)) - ((0.3) * (pi * (5)))
    Prog { rpn: b"\x01\x02\x68\x7e\x43\x01\x01\x43\x01\x00\x4e\x01\x02\x74\x6c\x42\x42", cls: b"ppp", f: e563 }, // (sin(z)) * (ln_2) * y - ((-x) - acos(tanh(z)))
    Prog { rpn: b"\x01\x02\x4e\x74\x72", cls: b"ppp", f: e564 }, // sinh(tanh(-(z)))
    Prog { rpn: b"\x01\x00\x4e\x5e\x77\x7c\x01\x00\x4e\x5e\x6b\x43\x41", cls: b"ppp", f: e565 }, // (atanh(exp(-x))) + (pi) * asin(exp(-x))
    Prog { rpn: b"\x01\x01\x01\x00\x46\x64", cls: b"ppp", f: e566 }, // log(y, sqrt(x))
    Prog { rpn: b"\x01\x00\x01\x01\x41\x46", cls: b"ppp", f: e567 }, // sqrt((x + y))
    Prog { rpn: b"\x01\x00\x01\x00\x01\x01\x41\x44\x77\x4e", cls: b"ppp", f: e568 }, // -(atanh(x / (x + y)))
    Prog { rpn: b"\x7e\x5e\x01\x01\x73\x5f\x47\x01\x01\x4e\x41", cls: b"ppp", f: e569 }, // (cbrt(pow(exp(ln_2), cosh(y)))) + -y
    Prog { rpn: b"\x01\x02\x73\x7d\x5f\x6a", cls: b"ppp", f: e570 }, // tan(pow(cosh(z), e))
    Prog { rpn: b"\x7e\x7d\x01\x01\x41\x41", cls: b"ppp", f: e571 }, // (ln_2) + ((e) + (y))
    Prog { rpn: b"\x02\x01\x31\x01\x01\x02\x01\x31\x41\x44\x6c\x01\x00\x01\x01\x46\x41\x64", cls: b"ppp", f: e572 }, // log(acos(1 / (y + 1)), (x + sqrt(y)))
    Prog { rpn: b"\x02\x03\x31\x2e\x31\x5e\x01\x00\x02\x01\x31\x41\x64\x7d\x02\x03\x30\x2e\x33\x43\x02\x01\x35\x72\x42\x41", cls: b"ppp", f: e573 }, // (log(exp("1.1"), (x + 1))) + ((e) * 0.3 - (sinh(5)))
    Prog { rpn: b"\x01\x00\x7c\x41\x7d\x5e\x5f\x72", cls: b"ppp", f: e574 }, // sinh(pow((x + pi), exp(e)))
    Prog { rpn: b"\x01\x02\x02\x03\x31\x2e\x31\x42", cls: b"ppp", f: e575 }, // (z) - ("1.1")
    Prog { rpn: b"\x02\x01\x31\x01\x01\x02\x01\x31\x41\x44\x6c\x7f\x7c\x4d\x5f", cls: b"ppp", f: e576 }, // pow(acos(1 / (y + 1)), (ln_10) % (pi))
    Prog { rpn: b"\x01\x00\x6d\x01\x01\x61\x42\x02\x03\x31\x2e\x31\x5e\x02\x01\x31\x02\x01\x31\x01\x00\x41\x44\x6c\x5f\x42", cls: b"ppp", f: e577 }, // (atan(x) - (ln(y))) - (pow(exp("1.1"), acos(1 / (1 + x))))
    Prog { rpn: b"\x7f\x02\x01\x32\x41\x02\x01\x32\x42\x01\x00\x42\x75", cls: b"ppp", f: e578 }, // asinh(ln_10 + 2 - (2) - x)
    Prog { rpn: b"\x01\x02\x73\x01\x00\x46\x02\x01\x31\x01\x01\x02\x01\x31\x41\x44\x6c\x64\x4e\x5f", cls: b"ppp", f: e579 }, // pow(cosh(z), -(log(sqrt(x), acos(1 / (y + 1)))))
    Prog { rpn: b"\x01\x00\x01\x01\x41\x01\x00\x01\x01\x43\x64\x01\x00\x46\x43\x7f\x02\x01\x35\x44\x44", cls: b"ppp", f: e580 }, // (log((x + y), x * y)) * sqrt(x) / ((ln_10) / 5)
    Prog { rpn: b"\x01\x00\x01\x01\x44\x01\x00\x01\x01\x44\x64\x7c\x02\x01\x32\x41\x42", cls: b"ppp", f: e581 }, // (log(x / y, x / y)) - ((pi) + 2)
    Prog { rpn: b"\x01\x00\x6d\x5e\x46\x73", cls: b"ppp", f: e582 }, // cosh(sqrt(exp(atan(x))))
    Prog { rpn: b"\x7d\x01\x00\x46\x01\x01\x47\x5f\x42\x68", cls: b"ppp", f: e583 }, // sin((e) - (pow(sqrt(x), cbrt(y))))
    Prog { rpn: b"\x01\x00\x02\x01\x32\x01\x01\x44\x01\x00\x01\x01\x43\x7d\x5f\x42\x41", cls: b"ppp", f: e584 }, // (x) + (((2) / (y)) - (pow(x * y, e)))
    Prog { rpn: b"\x01\x00\x02\x03\x31\x2e\x31\x5e\x64", cls: b"ppp", f: e585 }, // log(x, exp("1.1"))
    Prog { rpn: b"\x02\x01\x32\x7d\x43", cls: b"ppp", f: e586 }, // (2) * (e)
    Prog { rpn: b"\x01\x02\x68\x5e", cls: b"ppp", f: e587 }, // exp(sin(z))
    Prog { rpn: b"\x01\x02\x74\x77\x74", cls: b"ppp", f: e588 }, // tanh(atanh(tanh(z)))
    Prog { rpn: b"\x01\x02\x73\x02\x01\x31\x01\x01\x02\x01\x31\x41\x44\x6c\x64\x73\x01\x02\x73\x01\x00\x02\x01\x35\x41\x5f\x41", cls: b"ppp", f: e589 }, // cosh(log(cosh(z), acos(1 / (y + 1)))) + (pow(cosh(z), (x) + (5)))
    Prog { rpn: b"\x01\x00\x01\x01\x46\x41\x01\x00\x01\x01\x44\x64\x75\x69", cls: b"ppp", f: e590 }, // cos(asinh(log((x + sqrt(y)), x / y)))
    Prog { rpn: b"\x7e\x01\x01\x7c\x5f\x01\x02\x02\x03\x31\x2e\x31\x4d\x41\x44\x6a", cls: b"ppp", f: e591 }, // tan((ln_2) / (pow(y, pi) + z % ("1.1")))
    Prog { rpn: b"\x01\x02\x01\x01\x41\x68", cls: b"ppp", f: e592 }, // sin(z + (y))
    Prog { rpn: b"\x02\x01\x31\x01\x01\x02\x01\x31\x41\x44\x6c\x61", cls: b"ppp", f: e593 }, // ln(acos(1 / (y + 1)))
    Prog { rpn: b"\x01\x01\x01\x00\x7c\x41\x02\x01\x35\x4e\x5e\x64\x5f", cls: b"ppp", f: e594 }, // pow(y, log((x + pi), exp(-(5))))
    Prog { rpn: b"\x02\x03\x30\x2e\x33\x02\x03\x30\x2e\x33\x5e\x7f\x5f\x43", cls: b"ppp", f: e595 }, // (0.3) * (pow(exp(0.3), ln_10))
    Prog { rpn: b"\x01\x00\x01\x01\x43\x62\x72\x02\x03\x31\x2e\x31\x42", cls: b"ppp", f: e596 }, // (sinh(log2(x * y))) - "1.1"
    Prog { rpn: b"\x02\x03\x30\x2e\x33\x02\x01\x35\x41\x68\x6b", cls: b"ppp", f: e597 }, // asin(sin(0.3 + (5)))
    Prog { rpn: b"\x02\x03\x30\x2e\x33\x47\x01\x00\x01\x01\x44\x01\x00\x01\x01\x43\x64\x42\x7f\x5e\x02\x01\x31\x01\x01\x02\x01\x31\x41\x44\x6c\x64\x44", cls: b"ppp", f: e598 }, // (cbrt(0.3) - (log(x / y, x * y))) / log(exp(ln_10), acos(1 / (y + 1)))
    Prog { rpn: b"\x01\x01\x01\x00\x01\x01\x44\x64", cls: b"ppp", f: e599 }, // log(y, x / y)
    Prog { rpn: b"\x01\x02\x01\x02\x42\x01\x00\x7f\x5f\x01\x00\x73\x76\x75\x43\x42", cls: b"ppp", f: e600 }, // z - z - (pow(x, ln_10)) * (asinh(acosh(cosh(x))))
    Prog { rpn: b"\x7d\x01\x01\x41\x02\x01\x32\x68\x77\x4d\x01\x01\x02\x01\x32\x44\x01\x00\x46\x01\x00\x64\x41\x43\x01\x00\x46\x01\x01\x64\x42", cls: b"ppp", f: e601 }, // (e + y) % (atanh(sin(2))) * ((y) / (2) + (log(sqrt(x), x))) - log(sqrt(x), y)
    Prog { rpn: b"\x01\x01\x5e\x01\x01\x68\x5f\x01\x00\x46\x01\x01\x5e\x64\x43", cls: b"ppp", f: e602 }, // (pow(exp(y), sin(y))) * (log(sqrt(x), exp(y)))
    Prog { rpn: b"\x01\x00\x46\x01\x00\x01\x01\x44\x64\x72\x68", cls: b"ppp", f: e603 }, // sin(sinh(log(sqrt(x), x / y)))
    Prog { rpn: b"\x01\x02\x01\x01\x4d\x01\x00\x02\x01\x31\x01\x01\x02\x01\x31\x41\x44\x6c\x64\x41\x7d\x42", cls: b"ppp", f: e604 }, // ((z) % (y)) + (log(x, acos(1 / (y + 1)))) - (e)
    Prog { rpn: b"\x01\x02\x72\x01\x00\x01\x00\x01\x01\x41\x44\x77\x4d", cls: b"ppp", f: e605 }, // sinh(z) % (atanh(x / (x + y)))
    Prog { rpn: b"\x02\x01\x31\x01\x00\x41\x76\x02\x03\x31\x2e\x31\x42", cls: b"ppp", f: e606 }, // acosh(1 + x) - "1.1"
    Prog { rpn: b"\x7d\x75\x01\x02\x43\x5e\x46", cls: b"ppp", f: e607 }, // sqrt(exp(asinh(e) * (z)))
    Prog { rpn: b"\x01\x00\x73\x76", cls: b"ppp", f: e608 }, // acosh(cosh(x))
    Prog { rpn: b"\x02\x01\x31\x02\x01\x31\x01\x00\x41\x44\x6c\x01\x00\x02\x01\x31\x01\x01\x02\x01\x31\x41\x44\x6c\x64\x41\x75\x6a", cls: b"ppp", f: e609 }, // tan(asinh(acos(1 / (1 + x)) + log(x, acos(1 / (y + 1)))))
    Prog { rpn: b"\x01\x02\x6d\x01\x02\x4d\x01\x02\x43\x02\x01\x32\x6a\x44", cls: b"ppp", f: e610 }, // (atan(z)) % (z) * (z) / (tan(2))
    Prog { rpn: b"\x02\x01\x32\x01\x02\x5e\x01\x00\x46\x64\x41\x7c\x5e\x01\x02\x73\x64\x4d", cls: b"ppp", f: e611 }, // ((2) + (log(exp(z), sqrt(x)))) % log(exp(pi), cosh(z))
    Prog { rpn: b"\x02\x03\x30\x2e\x33\x01\x00\x7e\x02\x01\x35\x43\x01\x00\x68\x43\x41\x42", cls: b"ppp", f: e612 }, // 0.3 - (x + ((ln_2 * 5) * (sin(x))))
    Prog { rpn: b"\x01\x00\x46\x63", cls: b"ppp", f: e613 }, // log10(sqrt(x))
    Prog { rpn: b"\x01\x00\x01\x00\x01\x01\x41\x44\x77\x01\x00\x01\x01\x41\x01\x00\x44\x76\x43\x01\x00\x73\x76\x42", cls: b"ppp", f: e614 }, // atanh(x / (x + y)) * (acosh((x + y) / x)) - acosh(cosh(x))
    Prog { rpn: b"\x01\x00\x72\x5e\x47\x01\x00\x01\x01\x43\x01\x00\x46\x61\x6d\x5f\x41", cls: b"ppp", f: e615 }, // (cbrt(exp(sinh(x)))) + (pow(x * y, atan(ln(sqrt(x)))))
    Prog { rpn: b"\x01\x00\x01\x02\x4d\x02\x01\x31\x01\x01\x02\x01\x31\x41\x44\x6c\x02\x03\x31\x2e\x31\x5f\x44", cls: b"ppp", f: e616 }, // ((x) % (z)) / pow(acos(1 / (y + 1)), "1.1")
    Prog { rpn: b"\x01\x02\x5e\x63\x75", cls: b"ppp", f: e617 }, // asinh(log10(exp(z)))
    Prog { rpn: b"\x01\x02\x73\x01\x00\x01\x01\x43\x64", cls: b"ppp", f: e618 }, // log(cosh(z), x * y)
    Prog { rpn: b"\x01\x02\x73\x01\x00\x01\x00\x01\x01\x41\x44\x77\x5f\x02\x01\x32\x01\x01\x4d\x02\x03\x31\x2e\x31\x44\x42", cls: b"ppp", f: e619 }, // (pow(cosh(z), atanh(x / (x + y)))) - ((2) % y) / "1.1"
    Prog { rpn: b"\x01\x00\x01\x01\x46\x41\x01\x00\x01\x01\x46\x41\x64", cls: b"ppp", f: e620 }, // log((x + sqrt(y)), (x + sqrt(y)))
    Prog { rpn: b"\x01\x01\x7d\x44\x69\x77", cls: b"ppp", f: e621 }, // atanh(cos((y) / (e)))
    Prog { rpn: b"\x7c\x47", cls: b"ppp", f: e622 }, // cbrt(pi)
    Prog { rpn: b"\x01\x02\x72\x74", cls: b"ppp", f: e623 }, // tanh(sinh(z))
    Prog { rpn: b"\x01\x00\x7c\x5f\x01\x01\x7f\x43\x44\x5e", cls: b"ppp", f: e624 }, // exp((pow(x, pi)) / ((y) * ln_10))
    Prog { rpn: b"\x02\x03\x30\x2e\x33\x6d\x01\x00\x01\x01\x64\x4d\x01\x00\x4e\x43", cls: b"ppp", f: e625 }, // (atan(0.3)) % (log(x, y)) * (-x)
    Prog { rpn: b"\x01\x02\x02\x03\x31\x2e\x31\x5e\x02\x01\x35\x5e\x64\x41\x7e\x42", cls: b"ppp", f: e626 }, // (z + log(exp("1.1"), exp(5))) - ln_2
    Prog { rpn: b"\x01\x00\x01\x01\x44\x62\x72\x4e", cls: b"ppp", f: e627 }, // -(sinh(log2(x / y)))
    Prog { rpn: b"\x7f\x75\x02\x01\x31\x01\x01\x02\x01\x31\x41\x44\x6c\x63\x41\x45", cls: b"ppp", f: e628 }, // recip(asinh(ln_10) + (log10(acos(1 / (y + 1)))))
    Prog { rpn: b"\x01\x02\x73\x61", cls: b"ppp", f: e629 }, // ln(cosh(z))
    Prog { rpn: b"\x01\x02\x5e\x01\x00\x5e\x64", cls: b"ppp", f: e630 }, // log(exp(z), exp(x))
    Prog { rpn: b"\x7f\x73\x01\x02\x5e\x01\x00\x64\x41", cls: b"ppp", f: e631 }, // (cosh(ln_10)) + log(exp(z), x)
    Prog { rpn: b"\x01\x00\x7c\x41\x02\x01\x31\x01\x01\x02\x01\x31\x41\x44\x6c\x64\x01\x00\x01\x01\x4d\x01\x00\x73\x76\x4d\x43", cls: b"ppp", f: e632 }, // (log((x + pi), acos(1 / (y + 1)))) * (((x) % (y)) % (acosh(cosh(x))))
    Prog { rpn: b"\x02\x03\x30\x2e\x33\x02\x01\x32\x42\x5e\x02\x03\x31\x2e\x31\x01\x00\x41\x5e\x64", cls: b"ppp", f: e633 }, // log(exp((0.3) - (2)), exp(("1.1") + x))
    Prog { rpn: b"\x01\x01\x01\x00\x01\x01\x46\x41\x64\x7d\x01\x01\x41\x44\x4e", cls: b"ppp", f: e634 }, // -((log(y, (x + sqrt(y)))) / ((e) + y))
    Prog { rpn: b"\x01\x00\x01\x01\x43\x62", cls: b"ppp", f: e635 }, // log2(x * y)
    Prog { rpn: b"\x01\x01\x68\x77\x45", cls: b"ppp", f: e636 }, // recip(atanh(sin(y)))
    Prog { rpn: b"\x02\x01\x31\x01\x00\x41\x76\x72\x01\x01\x4e\x43", cls: b"ppp", f: e637 }, // (sinh(acosh(1 + x))) * (-y)
    Prog { rpn: b"\x02\x01\x35\x7c\x42\x68\x75", cls: b"ppp", f: e638 }, // asinh(sin((5) - pi))
    Prog { rpn: b"\x01\x00\x01\x01\x43", cls: b"ppp", f: e639 },
    Prog { rpn: b"\x01\x00\x01\x01\x42", cls: b"ppp", f: e640 },
    Prog { rpn: b"\x01\x00\x4e", cls: b"ppp", f: e641 },
    Prog { rpn: b"\x01\x01\x01\x00\x44", cls: b"ppp", f: e642 },
    Prog { rpn: b"\x01\x00\x5e\x01\x01\x42", cls: b"ppp", f: e643 },
    Prog { rpn: b"\x01\x00\x02\x01\x31\x41\x01\x01\x43", cls: b"ppp", f: e644 },
    Prog { rpn: b"\x01\x00\x02\x01\x31\x41\x01\x01\x42", cls: b"ppp", f: e645 },
    Prog { rpn: b"\x01\x00\x02\x01\x31\x41\x4e", cls: b"ppp", f: e646 },
    Prog { rpn: b"\x01\x01\x01\x00\x02\x01\x31\x41\x44", cls: b"ppp", f: e647 },
    Prog { rpn: b"\x01\x00\x02\x01\x31\x41\x5e\x01\x01\x42", cls: b"ppp", f: e648 },
    Prog { rpn: b"\x01\x00\x4e\x01\x01\x01\x02\x42\x43", cls: b"ppp", f: e649 },
    Prog { rpn: b"\x01\x00\x4e\x01\x01\x01\x02\x42\x42", cls: b"ppp", f: e650 },
    Prog { rpn: b"\x01\x00\x4e\x4e", cls: b"ppp", f: e651 },
    Prog { rpn: b"\x01\x01\x01\x02\x42\x01\x00\x4e\x44", cls: b"ppp", f: e652 },
    Prog { rpn: b"\x01\x00\x4e\x5e\x01\x01\x01\x02\x42\x42", cls: b"ppp", f: e653 },
    Prog { rpn: b"\x01\x00\x68\x02\x01\x32\x43", cls: b"ppp", f: e654 },
    Prog { rpn: b"\x01\x00\x68\x02\x01\x32\x42", cls: b"ppp", f: e655 },
    Prog { rpn: b"\x01\x00\x68\x4e", cls: b"ppp", f: e656 },
    Prog { rpn: b"\x02\x01\x32\x01\x00\x68\x44", cls: b"ppp", f: e657 },
    Prog { rpn: b"\x01\x00\x68\x5e\x02\x01\x32\x42", cls: b"ppp", f: e658 },
    Prog { rpn: b"\x01\x00\x01\x01\x41", cls: b"ppp", f: e659 }, // x + arg1
    Prog { rpn: b"\x01\x00\x01\x01\x41", cls: b"ppp", f: e660 }, // arg2 + arg1
    Prog { rpn: b"\x01\x00\x01\x01\x41", cls: b"ppp", f: e661 }, // emin + arg
    Prog { rpn: b"\x01\x01\x01\x00\x42", cls: b"ppp", f: e662 }, // arg1 - x
    Prog { rpn: b"\x01\x01\x01\x00\x42", cls: b"ppp", f: e663 }, // arg1 - arg2
    Prog { rpn: b"\x01\x01\x01\x00\x42", cls: b"ppp", f: e664 }, // arg - emin
    Prog { rpn: b"\x01\x00\x01\x01\x01\x02\x41\x43", cls: b"ppp", f: e665 }, // x * (arg1 + arg2)
    Prog { rpn: b"\x01\x00\x01\x01\x01\x02\x41\x43", cls: b"ppp", f: e666 }, // arg2 * (arg1 + ret)
    Prog { rpn: b"\x01\x00\x01\x01\x01\x02\x41\x43", cls: b"ppp", f: e667 }, // emin * (arg + emax)
    Prog { rpn: b"\x01\x00\x01\x01\x01\x02\x43\x42", cls: b"ppp", f: e668 }, // x - arg1 * arg2
    Prog { rpn: b"\x01\x00\x01\x01\x01\x02\x43\x42", cls: b"ppp", f: e669 }, // arg2 - arg1 * ret
    Prog { rpn: b"\x01\x00\x01\x01\x01\x02\x43\x42", cls: b"ppp", f: e670 }, // emin - arg * emax
    Prog { rpn: b"\x01\x00\x01\x01\x64\x01\x02\x42", cls: b"ppp", f: e671 }, // log(x, arg1) - arg2
    Prog { rpn: b"\x01\x00\x01\x01\x64\x01\x02\x42", cls: b"ppp", f: e672 }, // log(arg2, arg1) - ret
    Prog { rpn: b"\x01\x00\x01\x01\x64\x01\x02\x42", cls: b"ppp", f: e673 }, // log(emin, arg) - emax
    Prog { rpn: b"\x01\x00\x5e\x01\x01\x01\x02\x4d\x44", cls: b"ppp", f: e674 }, // exp(x) / (arg1 % arg2)
    Prog { rpn: b"\x01\x00\x5e\x01\x01\x01\x02\x4d\x44", cls: b"ppp", f: e675 }, // exp(arg2) / (arg1 % ret)
    Prog { rpn: b"\x01\x00\x5e\x01\x01\x01\x02\x4d\x44", cls: b"ppp", f: e676 }, // exp(emin) / (arg % emax)
    Prog { rpn: b"\x01\x00\x01\x01\x5f\x01\x02\x61\x41", cls: b"ppp", f: e677 }, // pow(x, arg1) + ln(arg2)
    Prog { rpn: b"\x01\x00\x01\x01\x5f\x01\x02\x61\x41", cls: b"ppp", f: e678 }, // pow(arg2, arg1) + ln(ret)
    Prog { rpn: b"\x01\x00\x01\x01\x5f\x01\x02\x61\x41", cls: b"ppp", f: e679 }, // pow(emin, arg) + ln(emax)
    Prog { rpn: b"\x01\x00\x01\x01\x41\x01\x02\x01\x00\x42\x43\x01\x01\x42", cls: b"ppp", f: e680 }, // (x + arg1) * (arg2 - x) - arg1
    Prog { rpn: b"\x01\x00\x01\x01\x41\x01\x02\x01\x00\x42\x43\x01\x01\x42", cls: b"ppp", f: e681 }, // (arg2 + arg1) * (ret - arg2) - arg1
    Prog { rpn: b"\x01\x00\x01\x01\x41\x01\x02\x01\x00\x42\x43\x01\x01\x42", cls: b"ppp", f: e682 }, // (emin + arg) * (emax - emin) - arg
];
fn t3_3(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts)) -> BigFloat { expr!(cbrt(x), (ctx.0, ctx.1, &mut *ctx.2)) }
fn t3_4(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts)) -> BigFloat { expr!(exp(x), (ctx.0, ctx.1, &mut *ctx.2)) }
fn t3_5(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts)) -> BigFloat { expr!(exp(x), (ctx.0, ctx.1, &mut *ctx.2)) }
fn t3_10(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts)) -> BigFloat { expr!(tan(x), (ctx.0, ctx.1, &mut *ctx.2)) }
fn t3_17(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts)) -> BigFloat { expr!(cosh(x), (ctx.0, ctx.1, &mut *ctx.2)) }
fn t3_24(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts)) -> BigFloat { expr!(tan(x), (ctx.0, ctx.1, &mut *ctx.2)) }
fn t3_31(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts)) -> BigFloat { expr!(log2(x), (ctx.0, ctx.1, &mut *ctx.2)) }
fn t3_38(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts)) -> BigFloat { expr!(asin(x), (ctx.0, ctx.1, &mut *ctx.2)) }
fn t3_45(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts)) -> BigFloat { expr!(log(x, y), (ctx.0, ctx.1, &mut *ctx.2)) }
fn t3_52(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts)) -> BigFloat { expr!(x + y, (ctx.0, ctx.1, &mut *ctx.2)) }
fn t3_57(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts)) -> BigFloat { expr!(x * y, (ctx.0, ctx.1, &mut *ctx.2)) }
fn t3_58(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts)) -> BigFloat { expr!(x * y, (ctx.0, ctx.1, &mut *ctx.2)) }
fn t3_59(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts)) -> BigFloat { expr!(y * x, (ctx.0, ctx.1, &mut *ctx.2)) }
fn t3_60(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts)) -> BigFloat { expr!(x / y, (ctx.0, ctx.1, &mut *ctx.2)) }
fn t3_61(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts)) -> BigFloat { expr!(x / y, (ctx.0, ctx.1, &mut *ctx.2)) }
fn t3_66(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts)) -> BigFloat { expr!(x % y, (ctx.0, ctx.1, &mut *ctx.2)) }
fn t3_67(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts)) -> BigFloat { expr!(-x, (ctx.0, ctx.1, &mut *ctx.2)) }
fn t3_68(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts)) -> BigFloat { expr!(x, (ctx.0, ctx.1, &mut *ctx.2)) }
fn t3_70(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts)) -> BigFloat { expr!(pi, (ctx.0, ctx.1, &mut *ctx.2)) }
fn t3_73(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts)) -> BigFloat { expr!(e, (ctx.0, ctx.1, &mut *ctx.2)) }
fn t3_80(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts)) -> BigFloat { expr!(x * ln_10, (ctx.0, ctx.1, &mut *ctx.2)) }
fn t3_87(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts)) -> BigFloat { expr!(x / (y / z), (ctx.0, ctx.1, &mut *ctx.2)) }
fn t3_94(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts)) -> BigFloat { expr!(x * y % z, (ctx.0, ctx.1, &mut *ctx.2)) }
fn t3_101(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts)) -> BigFloat { expr!(x / y * z, (ctx.0, ctx.1, &mut *ctx.2)) }
fn t3_108(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts)) -> BigFloat { expr!(x + y + z + x, (ctx.0, ctx.1, &mut *ctx.2)) }
fn t3_115(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts)) -> BigFloat { expr!(2 * x - y / 3, (ctx.0, ctx.1, &mut *ctx.2)) }
fn t3_122(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts)) -> BigFloat { expr!(pow(sqrt(x), y), (ctx.0, ctx.1, &mut *ctx.2)) }
fn t3_129(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts)) -> BigFloat { expr!(pow(10, 2), (ctx.0, ctx.1, &mut *ctx.2)) }
fn t3_136(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts)) -> BigFloat { expr!(pow(4, 0.5), (ctx.0, ctx.1, &mut *ctx.2)) }
fn t3_143(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts)) -> BigFloat { expr!(1_000_000, (ctx.0, ctx.1, &mut *ctx.2)) }
fn t3_150(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts)) -> BigFloat { expr!(x * 0o17, (ctx.0, ctx.1, &mut *ctx.2)) }
fn t3_157(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts)) -> BigFloat { expr!(0.1, (ctx.0, ctx.1, &mut *ctx.2)) }
fn t3_164(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts)) -> BigFloat { expr!(x * 2.5e3, (ctx.0, ctx.1, &mut *ctx.2)) }
fn t3_171(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts)) -> BigFloat { expr!("-2.75", (ctx.0, ctx.1, &mut *ctx.2)) }
fn t3_178(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts)) -> BigFloat { expr!(x * 123456789012345678901234567890, (ctx.0, ctx.1, &mut *ctx.2)) }
fn t3_185(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts)) -> BigFloat { expr!("3.14159265358979323846264338327950288419716939937510582097494459230781640628620899", (ctx.0, ctx.1, &mut *ctx.2)) }
fn t3_192(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts)) -> BigFloat { expr!(x + 1, (ctx.0, ctx.1, &mut *ctx.2)) }
fn t3_199(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts)) -> BigFloat { expr!("7.0", (ctx.0, ctx.1, &mut *ctx.2)) }
fn t3_206(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts)) -> BigFloat { expr!(1 / 3 * 3, (ctx.0, ctx.1, &mut *ctx.2)) }
fn t3_213(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts)) -> BigFloat { expr!(1 - 1, (ctx.0, ctx.1, &mut *ctx.2)) }
fn t3_216(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts)) -> BigFloat { expr!(i, (ctx.0, ctx.1, &mut *ctx.2)) }
fn t3_218(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts)) -> BigFloat { expr!(s, (ctx.0, ctx.1, &mut *ctx.2)) }
fn t3_220(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts)) -> BigFloat { expr!(x - f, (ctx.0, ctx.1, &mut *ctx.2)) }
fn t3_227(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts)) -> BigFloat { expr!(ln(s), (ctx.0, ctx.1, &mut *ctx.2)) }
fn t3_234(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts)) -> BigFloat { expr!(atan(s / i), (ctx.0, ctx.1, &mut *ctx.2)) }
fn t3_241(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts)) -> BigFloat { expr!(log10(1 + exp(-y)), (ctx.0, ctx.1, &mut *ctx.2)) }
fn t3_248(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts)) -> BigFloat { expr!(log(1 + exp(-y), 1 + exp(-y) * x), (ctx.0, ctx.1, &mut *ctx.2)) }
fn t3_255(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts)) -> BigFloat { expr!(pow(sqrt(x), exp(y * 0.1)), (ctx.0, ctx.1, &mut *ctx.2)) }
fn t3_262(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts)) -> BigFloat { expr!(pow(x, exp(-y)) - 1, (ctx.0, ctx.1, &mut *ctx.2)) }
fn t3_269(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts)) -> BigFloat { expr!(cos(-pi * 1.5 + exp(-y)), (ctx.0, ctx.1, &mut *ctx.2)) }
fn t3_276(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts)) -> BigFloat { expr!(sin(pi * 1000000 + exp(-y)), (ctx.0, ctx.1, &mut *ctx.2)) }
fn t3_283(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts)) -> BigFloat { expr!(cos(1000000 * sqrt(x)), (ctx.0, ctx.1, &mut *ctx.2)) }
fn t3_290(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts)) -> BigFloat { expr!(asin(exp(-y)), (ctx.0, ctx.1, &mut *ctx.2)) }
fn t3_297(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts)) -> BigFloat { expr!(sinh(exp(-y)), (ctx.0, ctx.1, &mut *ctx.2)) }
fn t3_304(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts)) -> BigFloat { expr!(exp(exp(-y)) - 1, (ctx.0, ctx.1, &mut *ctx.2)) }
fn t3_311(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts)) -> BigFloat { expr!(x - (x - exp(-y)), (ctx.0, ctx.1, &mut *ctx.2)) }
fn t3_318(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts)) -> BigFloat { expr!(recip(x) - recip(x + exp(-y)), (ctx.0, ctx.1, &mut *ctx.2)) }
fn t3_325(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts)) -> BigFloat { expr!(ln_2 * 3 - ln(8) + exp(-y), (ctx.0, ctx.1, &mut *ctx.2)) }
fn t3_332(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts)) -> BigFloat { expr!(cosh(x) * cosh(x) - sinh(x) * sinh(x) - 1 + exp(-y), (ctx.0, ctx.1, &mut *ctx.2)) }
fn t3_339(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts)) -> BigFloat { expr!(exp(x * 10) % 1, (ctx.0, ctx.1, &mut *ctx.2)) }
fn t3_346(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts)) -> BigFloat { expr!(cosh(1000 * sqrt(x)), (ctx.0, ctx.1, &mut *ctx.2)) }
fn t3_353(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts)) -> BigFloat { expr!(exp(x) * exp(-x), (ctx.0, ctx.1, &mut *ctx.2)) }
fn t3_360(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts)) -> BigFloat { expr!(recip(ln(1 + exp(-y))), (ctx.0, ctx.1, &mut *ctx.2)) }
fn t3_367(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts)) -> BigFloat { expr!(pow(1 - exp(-y), 1 / exp(-y)), (ctx.0, ctx.1, &mut *ctx.2)) }
fn t3_374(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts)) -> BigFloat { expr!(ln(cosh(exp(-y))), (ctx.0, ctx.1, &mut *ctx.2)) }
fn t3_381(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts)) -> BigFloat { expr!(pow(cosh(exp(-y)), 1 / exp(-y)), (ctx.0, ctx.1, &mut *ctx.2)) }
fn t3_388(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts)) -> BigFloat { expr!(tan(atan(1 / exp(-y))), (ctx.0, ctx.1, &mut *ctx.2)) }
fn t3_395(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts)) -> BigFloat { expr!(acosh(sqrt(1 + exp(-y)) / cos(exp(-y))), (ctx.0, ctx.1, &mut *ctx.2)) }
fn t3_402(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts)) -> BigFloat { expr!(acosh(exp(exp(-y * 0.5))), (ctx.0, ctx.1, &mut *ctx.2)) }
fn t3_409(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts)) -> BigFloat { expr!(log(x, exp(exp(-y * 0.5))), (ctx.0, ctx.1, &mut *ctx.2)) }
fn t3_416(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts)) -> BigFloat { expr!(tan(acos(exp(-y * 0.5))), (ctx.0, ctx.1, &mut *ctx.2)) }
fn t3_423(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts)) -> BigFloat { expr!(atanh(sqrt(exp(-exp(-y * 0.5)))), (ctx.0, ctx.1, &mut *ctx.2)) }
fn t3_430(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts)) -> BigFloat { expr!(asin(cos(y / exp(y))), (ctx.0, ctx.1, &mut *ctx.2)) }
fn t3_437(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts)) -> BigFloat { expr!(log10(sqrt(exp(y / exp(y)))), (ctx.0, ctx.1, &mut *ctx.2)) }
fn t3_444(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts)) -> BigFloat { expr!(cos(acos(y / exp(y))), (ctx.0, ctx.1, &mut *ctx.2)) }
fn t3_451(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts)) -> BigFloat { expr!(acos(sqrt(exp(-y / exp(y)))), (ctx.0, ctx.1, &mut *ctx.2)) }
fn t3_458(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts)) -> BigFloat { expr!(atanh(-exp(-y / exp(y))), (ctx.0, ctx.1, &mut *ctx.2)) }
fn t3_465(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts)) -> BigFloat { expr!(atanh(sin(x)), (ctx.0, ctx.1, &mut *ctx.2)) }
fn t3_472(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts)) -> BigFloat { expr!(atanh(1 / cosh(x)), (ctx.0, ctx.1, &mut *ctx.2)) }
fn t3_479(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts)) -> BigFloat { expr!(x - y * x / y, (ctx.0, ctx.1, &mut *ctx.2)) }
fn t3_486(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts)) -> BigFloat { expr!(asin(1 - y), (ctx.0, ctx.1, &mut *ctx.2)) }
fn t3_493(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts)) -> BigFloat { expr!(sqrt(y), (ctx.0, ctx.1, &mut *ctx.2)) }
fn t3_500(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts)) -> BigFloat { expr!(exp(asinh((x) - (y))), (ctx.0, ctx.1, &mut *ctx.2)) }
fn t3_507(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts)) -> BigFloat { expr!(log10(cosh(z)), (ctx.0, ctx.1, &mut *ctx.2)) }
fn t3_514(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts)) -> BigFloat { expr!(cos(-(ln_2 - (ln_10))), (ctx.0, ctx.1, &mut *ctx.2)) }
fn t3_521(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts)) -> BigFloat { expr!(acos(exp(-x)), (ctx.0, ctx.1, &mut *ctx.2)) }
fn t3_528(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts)) -> BigFloat { expr!(sinh(y), (ctx.0, ctx.1, &mut *ctx.2)) }
fn t3_535(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts)) -> BigFloat { expr!(tanh(log10(y)), (ctx.0, ctx.1, &mut *ctx.2)) }
fn t3_542(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts)) -> BigFloat { expr!(atanh(recip(1 + y)), (ctx.0, ctx.1, &mut *ctx.2)) }
fn t3_549(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts)) -> BigFloat { expr!(pow(sqrt(x), x), (ctx.0, ctx.1, &mut *ctx.2)) }
fn t3_556(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts)) -> BigFloat { expr!((("1.1") / (pi)) - (2) / z, (ctx.0, ctx.1, &mut *ctx.2)) }
fn t3_563(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts)) -> BigFloat { expr!((sin(z)) * (ln_2) * y - ((-x) - acos(tanh(z))), (ctx.0, ctx.1, &mut *ctx.2)) }
fn t3_570(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts)) -> BigFloat { expr!(tan(pow(cosh(z), e)), (ctx.0, ctx.1, &mut *ctx.2)) }
fn t3_577(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts)) -> BigFloat { expr!((atan(x) - (ln(y))) - (pow(exp("1.1"), acos(1 / (1 + x)))), (ctx.0, ctx.1, &mut *ctx.2)) }
fn t3_584(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts)) -> BigFloat { expr!((x) + (((2) / (y)) - (pow(x * y, e))), (ctx.0, ctx.1, &mut *ctx.2)) }
fn t3_591(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts)) -> BigFloat { expr!(tan((ln_2) / (pow(y, pi) + z % ("1.1"))), (ctx.0, ctx.1, &mut *ctx.2)) }
fn t3_598(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts)) -> BigFloat { expr!((cbrt(0.3) - (log(x / y, x * y))) / log(exp(ln_10), acos(1 / (y + 1))), (ctx.0, ctx.1, &mut *ctx.2)) }
fn t3_605(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts)) -> BigFloat { expr!(sinh(z) % (atanh(x / (x + y))), (ctx.0, ctx.1, &mut *ctx.2)) }
fn t3_612(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts)) -> BigFloat { expr!(0.3 - (x + ((ln_2 * 5) * (sin(x)))), (ctx.0, ctx.1, &mut *ctx.2)) }
fn t3_619(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts)) -> BigFloat { expr!((pow(cosh(z), atanh(x / (x + y)))) - ((2) % y) / "1.1", (ctx.0, ctx.1, &mut *ctx.2)) }
fn t3_626(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts)) -> BigFloat { expr!((z + log(exp("1.1"), exp(5))) - ln_2, (ctx.0, ctx.1, &mut *ctx.2)) }
fn t3_633(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts)) -> BigFloat { expr!(log(exp((0.3) - (2)), exp(("1.1") + x)), (ctx.0, ctx.1, &mut *ctx.2)) }
pub static T3: [(usize, FT3); 102] = [
    (3, t3_3),
    (4, t3_4),
    (5, t3_5),
    (10, t3_10),
    (17, t3_17),
    (24, t3_24),
    (31, t3_31),
    (38, t3_38),
    (45, t3_45),
    (52, t3_52),
    (57, t3_57),
    (58, t3_58),
    (59, t3_59),
    (60, t3_60),
    (61, t3_61),
    (66, t3_66),
    (67, t3_67),
    (68, t3_68),
    (70, t3_70),
    (73, t3_73),
    (80, t3_80),
    (87, t3_87),
    (94, t3_94),
    (101, t3_101),
    (108, t3_108),
    (115, t3_115),
    (122, t3_122),
    (129, t3_129),
    (136, t3_136),
    (143, t3_143),
    (150, t3_150),
    (157, t3_157),
    (164, t3_164),
    (171, t3_171),
    (178, t3_178),
    (185, t3_185),
    (192, t3_192),
    (199, t3_199),
    (206, t3_206),
    (213, t3_213),
    (216, t3_216),
    (218, t3_218),
    (220, t3_220),
    (227, t3_227),
    (234, t3_234),
    (241, t3_241),
    (248, t3_248),
    (255, t3_255),
    (262, t3_262),
    (269, t3_269),
    (276, t3_276),
    (283, t3_283),
    (290, t3_290),
    (297, t3_297),
    (304, t3_304),
    (311, t3_311),
    (318, t3_318),
    (325, t3_325),
    (332, t3_332),
    (339, t3_339),
    (346, t3_346),
    (353, t3_353),
    (360, t3_360),
    (367, t3_367),
    (374, t3_374),
    (381, t3_381),
    (388, t3_388),
    (395, t3_395),
    (402, t3_402),
    (409, t3_409),
    (416, t3_416),
    (423, t3_423),
    (430, t3_430),
    (437, t3_437),
    (444, t3_444),
    (451, t3_451),
    (458, t3_458),
    (465, t3_465),
    (472, t3_472),
    (479, t3_479),
    (486, t3_486),
    (493, t3_493),
    (500, t3_500),
    (507, t3_507),
    (514, t3_514),
    (521, t3_521),
    (528, t3_528),
    (535, t3_535),
    (542, t3_542),
    (549, t3_549),
    (556, t3_556),
    (563, t3_563),
    (570, t3_570),
    (577, t3_577),
    (584, t3_584),
    (591, t3_591),
    (598, t3_598),
    (605, t3_605),
    (612, t3_612),
    (619, t3_619),
    (626, t3_626),
    (633, t3_633),
];
fn t5_3(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts, Exponent, Exponent)) -> BigFloat { expr!(cbrt(x), (ctx.0, ctx.1, &mut *ctx.2, ctx.3, ctx.4)) }
fn t5_4(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts, Exponent, Exponent)) -> BigFloat { expr!(exp(x), (ctx.0, ctx.1, &mut *ctx.2, ctx.3, ctx.4)) }
fn t5_5(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts, Exponent, Exponent)) -> BigFloat { expr!(exp(x), (ctx.0, ctx.1, &mut *ctx.2, ctx.3, ctx.4)) }
fn t5_10(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts, Exponent, Exponent)) -> BigFloat { expr!(tan(x), (ctx.0, ctx.1, &mut *ctx.2, ctx.3, ctx.4)) }
fn t5_17(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts, Exponent, Exponent)) -> BigFloat { expr!(cosh(x), (ctx.0, ctx.1, &mut *ctx.2, ctx.3, ctx.4)) }
fn t5_24(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts, Exponent, Exponent)) -> BigFloat { expr!(tan(x), (ctx.0, ctx.1, &mut *ctx.2, ctx.3, ctx.4)) }
fn t5_31(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts, Exponent, Exponent)) -> BigFloat { expr!(log2(x), (ctx.0, ctx.1, &mut *ctx.2, ctx.3, ctx.4)) }
fn t5_38(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts, Exponent, Exponent)) -> BigFloat { expr!(asin(x), (ctx.0, ctx.1, &mut *ctx.2, ctx.3, ctx.4)) }
fn t5_45(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts, Exponent, Exponent)) -> BigFloat { expr!(log(x, y), (ctx.0, ctx.1, &mut *ctx.2, ctx.3, ctx.4)) }
fn t5_52(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts, Exponent, Exponent)) -> BigFloat { expr!(x + y, (ctx.0, ctx.1, &mut *ctx.2, ctx.3, ctx.4)) }
fn t5_57(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts, Exponent, Exponent)) -> BigFloat { expr!(x * y, (ctx.0, ctx.1, &mut *ctx.2, ctx.3, ctx.4)) }
fn t5_58(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts, Exponent, Exponent)) -> BigFloat { expr!(x * y, (ctx.0, ctx.1, &mut *ctx.2, ctx.3, ctx.4)) }
fn t5_59(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts, Exponent, Exponent)) -> BigFloat { expr!(y * x, (ctx.0, ctx.1, &mut *ctx.2, ctx.3, ctx.4)) }
fn t5_60(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts, Exponent, Exponent)) -> BigFloat { expr!(x / y, (ctx.0, ctx.1, &mut *ctx.2, ctx.3, ctx.4)) }
fn t5_61(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts, Exponent, Exponent)) -> BigFloat { expr!(x / y, (ctx.0, ctx.1, &mut *ctx.2, ctx.3, ctx.4)) }
fn t5_66(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts, Exponent, Exponent)) -> BigFloat { expr!(x % y, (ctx.0, ctx.1, &mut *ctx.2, ctx.3, ctx.4)) }
fn t5_67(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts, Exponent, Exponent)) -> BigFloat { expr!(-x, (ctx.0, ctx.1, &mut *ctx.2, ctx.3, ctx.4)) }
fn t5_68(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts, Exponent, Exponent)) -> BigFloat { expr!(x, (ctx.0, ctx.1, &mut *ctx.2, ctx.3, ctx.4)) }
fn t5_70(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts, Exponent, Exponent)) -> BigFloat { expr!(pi, (ctx.0, ctx.1, &mut *ctx.2, ctx.3, ctx.4)) }
fn t5_73(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts, Exponent, Exponent)) -> BigFloat { expr!(e, (ctx.0, ctx.1, &mut *ctx.2, ctx.3, ctx.4)) }
fn t5_80(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts, Exponent, Exponent)) -> BigFloat { expr!(x * ln_10, (ctx.0, ctx.1, &mut *ctx.2, ctx.3, ctx.4)) }
fn t5_87(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts, Exponent, Exponent)) -> BigFloat { expr!(x / (y / z), (ctx.0, ctx.1, &mut *ctx.2, ctx.3, ctx.4)) }
fn t5_94(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts, Exponent, Exponent)) -> BigFloat { expr!(x * y % z, (ctx.0, ctx.1, &mut *ctx.2, ctx.3, ctx.4)) }
fn t5_101(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts, Exponent, Exponent)) -> BigFloat { expr!(x / y * z, (ctx.0, ctx.1, &mut *ctx.2, ctx.3, ctx.4)) }
fn t5_108(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts, Exponent, Exponent)) -> BigFloat { expr!(x + y + z + x, (ctx.0, ctx.1, &mut *ctx.2, ctx.3, ctx.4)) }
fn t5_115(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts, Exponent, Exponent)) -> BigFloat { expr!(2 * x - y / 3, (ctx.0, ctx.1, &mut *ctx.2, ctx.3, ctx.4)) }
fn t5_122(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts, Exponent, Exponent)) -> BigFloat { expr!(pow(sqrt(x), y), (ctx.0, ctx.1, &mut *ctx.2, ctx.3, ctx.4)) }
fn t5_129(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts, Exponent, Exponent)) -> BigFloat { expr!(pow(10, 2), (ctx.0, ctx.1, &mut *ctx.2, ctx.3, ctx.4)) }
fn t5_136(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts, Exponent, Exponent)) -> BigFloat { expr!(pow(4, 0.5), (ctx.0, ctx.1, &mut *ctx.2, ctx.3, ctx.4)) }
fn t5_143(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts, Exponent, Exponent)) -> BigFloat { expr!(1_000_000, (ctx.0, ctx.1, &mut *ctx.2, ctx.3, ctx.4)) }
fn t5_150(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts, Exponent, Exponent)) -> BigFloat { expr!(x * 0o17, (ctx.0, ctx.1, &mut *ctx.2, ctx.3, ctx.4)) }
fn t5_157(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts, Exponent, Exponent)) -> BigFloat { expr!(0.1, (ctx.0, ctx.1, &mut *ctx.2, ctx.3, ctx.4)) }
fn t5_164(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts, Exponent, Exponent)) -> BigFloat { expr!(x * 2.5e3, (ctx.0, ctx.1, &mut *ctx.2, ctx.3, ctx.4)) }
fn t5_171(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts, Exponent, Exponent)) -> BigFloat { expr!("-2.75", (ctx.0, ctx.1, &mut *ctx.2, ctx.3, ctx.4)) }
fn t5_178(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts, Exponent, Exponent)) -> BigFloat { expr!(x * 123456789012345678901234567890, (ctx.0, ctx.1, &mut *ctx.2, ctx.3, ctx.4)) }
fn t5_185(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts, Exponent, Exponent)) -> BigFloat { expr!("3.14159265358979323846264338327950288419716939937510582097494459230781640628620899", (ctx.0, ctx.1, &mut *ctx.2, ctx.3, ctx.4)) }
fn t5_192(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts, Exponent, Exponent)) -> BigFloat { expr!(x + 1, (ctx.0, ctx.1, &mut *ctx.2, ctx.3, ctx.4)) }
fn t5_199(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts, Exponent, Exponent)) -> BigFloat { expr!("7.0", (ctx.0, ctx.1, &mut *ctx.2, ctx.3, ctx.4)) }
fn t5_206(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts, Exponent, Exponent)) -> BigFloat { expr!(1 / 3 * 3, (ctx.0, ctx.1, &mut *ctx.2, ctx.3, ctx.4)) }
fn t5_213(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts, Exponent, Exponent)) -> BigFloat { expr!(1 - 1, (ctx.0, ctx.1, &mut *ctx.2, ctx.3, ctx.4)) }
fn t5_216(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts, Exponent, Exponent)) -> BigFloat { expr!(i, (ctx.0, ctx.1, &mut *ctx.2, ctx.3, ctx.4)) }
fn t5_218(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts, Exponent, Exponent)) -> BigFloat { expr!(s, (ctx.0, ctx.1, &mut *ctx.2, ctx.3, ctx.4)) }
fn t5_220(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts, Exponent, Exponent)) -> BigFloat { expr!(x - f, (ctx.0, ctx.1, &mut *ctx.2, ctx.3, ctx.4)) }
fn t5_227(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts, Exponent, Exponent)) -> BigFloat { expr!(ln(s), (ctx.0, ctx.1, &mut *ctx.2, ctx.3, ctx.4)) }
fn t5_234(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts, Exponent, Exponent)) -> BigFloat { expr!(atan(s / i), (ctx.0, ctx.1, &mut *ctx.2, ctx.3, ctx.4)) }
fn t5_241(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts, Exponent, Exponent)) -> BigFloat { expr!(log10(1 + exp(-y)), (ctx.0, ctx.1, &mut *ctx.2, ctx.3, ctx.4)) }
fn t5_248(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts, Exponent, Exponent)) -> BigFloat { expr!(log(1 + exp(-y), 1 + exp(-y) * x), (ctx.0, ctx.1, &mut *ctx.2, ctx.3, ctx.4)) }
fn t5_255(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts, Exponent, Exponent)) -> BigFloat { expr!(pow(sqrt(x), exp(y * 0.1)), (ctx.0, ctx.1, &mut *ctx.2, ctx.3, ctx.4)) }
fn t5_262(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts, Exponent, Exponent)) -> BigFloat { expr!(pow(x, exp(-y)) - 1, (ctx.0, ctx.1, &mut *ctx.2, ctx.3, ctx.4)) }
fn t5_269(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts, Exponent, Exponent)) -> BigFloat { expr!(cos(-pi * 1.5 + exp(-y)), (ctx.0, ctx.1, &mut *ctx.2, ctx.3, ctx.4)) }
fn t5_276(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts, Exponent, Exponent)) -> BigFloat { expr!(sin(pi * 1000000 + exp(-y)), (ctx.0, ctx.1, &mut *ctx.2, ctx.3, ctx.4)) }
fn t5_283(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts, Exponent, Exponent)) -> BigFloat { expr!(cos(1000000 * sqrt(x)), (ctx.0, ctx.1, &mut *ctx.2, ctx.3, ctx.4)) }
fn t5_290(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts, Exponent, Exponent)) -> BigFloat { expr!(asin(exp(-y)), (ctx.0, ctx.1, &mut *ctx.2, ctx.3, ctx.4)) }
fn t5_297(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts, Exponent, Exponent)) -> BigFloat { expr!(sinh(exp(-y)), (ctx.0, ctx.1, &mut *ctx.2, ctx.3, ctx.4)) }
fn t5_304(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts, Exponent, Exponent)) -> BigFloat { expr!(exp(exp(-y)) - 1, (ctx.0, ctx.1, &mut *ctx.2, ctx.3, ctx.4)) }
fn t5_311(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts, Exponent, Exponent)) -> BigFloat { expr!(x - (x - exp(-y)), (ctx.0, ctx.1, &mut *ctx.2, ctx.3, ctx.4)) }
fn t5_318(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts, Exponent, Exponent)) -> BigFloat { expr!(recip(x) - recip(x + exp(-y)), (ctx.0, ctx.1, &mut *ctx.2, ctx.3, ctx.4)) }
fn t5_325(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts, Exponent, Exponent)) -> BigFloat { expr!(ln_2 * 3 - ln(8) + exp(-y), (ctx.0, ctx.1, &mut *ctx.2, ctx.3, ctx.4)) }
fn t5_332(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts, Exponent, Exponent)) -> BigFloat { expr!(cosh(x) * cosh(x) - sinh(x) * sinh(x) - 1 + exp(-y), (ctx.0, ctx.1, &mut *ctx.2, ctx.3, ctx.4)) }
fn t5_339(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts, Exponent, Exponent)) -> BigFloat { expr!(exp(x * 10) % 1, (ctx.0, ctx.1, &mut *ctx.2, ctx.3, ctx.4)) }
fn t5_346(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts, Exponent, Exponent)) -> BigFloat { expr!(cosh(1000 * sqrt(x)), (ctx.0, ctx.1, &mut *ctx.2, ctx.3, ctx.4)) }
fn t5_353(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts, Exponent, Exponent)) -> BigFloat { expr!(exp(x) * exp(-x), (ctx.0, ctx.1, &mut *ctx.2, ctx.3, ctx.4)) }
fn t5_360(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts, Exponent, Exponent)) -> BigFloat { expr!(recip(ln(1 + exp(-y))), (ctx.0, ctx.1, &mut *ctx.2, ctx.3, ctx.4)) }
fn t5_367(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts, Exponent, Exponent)) -> BigFloat { expr!(pow(1 - exp(-y), 1 / exp(-y)), (ctx.0, ctx.1, &mut *ctx.2, ctx.3, ctx.4)) }
fn t5_374(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts, Exponent, Exponent)) -> BigFloat { expr!(ln(cosh(exp(-y))), (ctx.0, ctx.1, &mut *ctx.2, ctx.3, ctx.4)) }
fn t5_381(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts, Exponent, Exponent)) -> BigFloat { expr!(pow(cosh(exp(-y)), 1 / exp(-y)), (ctx.0, ctx.1, &mut *ctx.2, ctx.3, ctx.4)) }
fn t5_388(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts, Exponent, Exponent)) -> BigFloat { expr!(tan(atan(1 / exp(-y))), (ctx.0, ctx.1, &mut *ctx.2, ctx.3, ctx.4)) }
fn t5_395(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts, Exponent, Exponent)) -> BigFloat { expr!(acosh(sqrt(1 + exp(-y)) / cos(exp(-y))), (ctx.0, ctx.1, &mut *ctx.2, ctx.3, ctx.4)) }
fn t5_402(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts, Exponent, Exponent)) -> BigFloat { expr!(acosh(exp(exp(-y * 0.5))), (ctx.0, ctx.1, &mut *ctx.2, ctx.3, ctx.4)) }
fn t5_409(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts, Exponent, Exponent)) -> BigFloat { expr!(log(x, exp(exp(-y * 0.5))), (ctx.0, ctx.1, &mut *ctx.2, ctx.3, ctx.4)) }
fn t5_416(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts, Exponent, Exponent)) -> BigFloat { expr!(tan(acos(exp(-y * 0.5))), (ctx.0, ctx.1, &mut *ctx.2, ctx.3, ctx.4)) }
fn t5_423(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts, Exponent, Exponent)) -> BigFloat { expr!(atanh(sqrt(exp(-exp(-y * 0.5)))), (ctx.0, ctx.1, &mut *ctx.2, ctx.3, ctx.4)) }
fn t5_430(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts, Exponent, Exponent)) -> BigFloat { expr!(asin(cos(y / exp(y))), (ctx.0, ctx.1, &mut *ctx.2, ctx.3, ctx.4)) }
fn t5_437(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts, Exponent, Exponent)) -> BigFloat { expr!(log10(sqrt(exp(y / exp(y)))), (ctx.0, ctx.1, &mut *ctx.2, ctx.3, ctx.4)) }
fn t5_444(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts, Exponent, Exponent)) -> BigFloat { expr!(cos(acos(y / exp(y))), (ctx.0, ctx.1, &mut *ctx.2, ctx.3, ctx.4)) }
fn t5_451(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts, Exponent, Exponent)) -> BigFloat { expr!(acos(sqrt(exp(-y / exp(y)))), (ctx.0, ctx.1, &mut *ctx.2, ctx.3, ctx.4)) }
fn t5_458(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts, Exponent, Exponent)) -> BigFloat { expr!(atanh(-exp(-y / exp(y))), (ctx.0, ctx.1, &mut *ctx.2, ctx.3, ctx.4)) }
fn t5_465(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts, Exponent, Exponent)) -> BigFloat { expr!(atanh(sin(x)), (ctx.0, ctx.1, &mut *ctx.2, ctx.3, ctx.4)) }
fn t5_472(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts, Exponent, Exponent)) -> BigFloat { expr!(atanh(1 / cosh(x)), (ctx.0, ctx.1, &mut *ctx.2, ctx.3, ctx.4)) }
fn t5_479(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts, Exponent, Exponent)) -> BigFloat { expr!(x - y * x / y, (ctx.0, ctx.1, &mut *ctx.2, ctx.3, ctx.4)) }
fn t5_486(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts, Exponent, Exponent)) -> BigFloat { expr!(asin(1 - y), (ctx.0, ctx.1, &mut *ctx.2, ctx.3, ctx.4)) }
fn t5_493(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts, Exponent, Exponent)) -> BigFloat { expr!(sqrt(y), (ctx.0, ctx.1, &mut *ctx.2, ctx.3, ctx.4)) }
fn t5_500(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts, Exponent, Exponent)) -> BigFloat { expr!(exp(asinh((x) - (y))), (ctx.0, ctx.1, &mut *ctx.2, ctx.3, ctx.4)) }
fn t5_507(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts, Exponent, Exponent)) -> BigFloat { expr!(log10(cosh(z)), (ctx.0, ctx.1, &mut *ctx.2, ctx.3, ctx.4)) }
fn t5_514(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts, Exponent, Exponent)) -> BigFloat { expr!(cos(-(ln_2 - (ln_10))), (ctx.0, ctx.1, &mut *ctx.2, ctx.3, ctx.4)) }
fn t5_521(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts, Exponent, Exponent)) -> BigFloat { expr!(acos(exp(-x)), (ctx.0, ctx.1, &mut *ctx.2, ctx.3, ctx.4)) }
fn t5_528(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts, Exponent, Exponent)) -> BigFloat { expr!(sinh(y), (ctx.0, ctx.1, &mut *ctx.2, ctx.3, ctx.4)) }
fn t5_535(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts, Exponent, Exponent)) -> BigFloat { expr!(tanh(log10(y)), (ctx.0, ctx.1, &mut *ctx.2, ctx.3, ctx.4)) }
fn t5_542(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts, Exponent, Exponent)) -> BigFloat { expr!(atanh(recip(1 + y)), (ctx.0, ctx.1, &mut *ctx.2, ctx.3, ctx.4)) }
fn t5_549(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts, Exponent, Exponent)) -> BigFloat { expr!(pow(sqrt(x), x), (ctx.0, ctx.1, &mut *ctx.2, ctx.3, ctx.4)) }
fn t5_556(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts, Exponent, Exponent)) -> BigFloat { expr!((("1.1") / (pi)) - (2) / z, (ctx.0, ctx.1, &mut *ctx.2, ctx.3, ctx.4)) }
fn t5_563(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts, Exponent, Exponent)) -> BigFloat { expr!((sin(z)) * (ln_2) * y - ((-x) - acos(tanh(z))), (ctx.0, ctx.1, &mut *ctx.2, ctx.3, ctx.4)) }
fn t5_570(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts, Exponent, Exponent)) -> BigFloat { expr!(tan(pow(cosh(z), e)), (ctx.0, ctx.1, &mut *ctx.2, ctx.3, ctx.4)) }
fn t5_577(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts, Exponent, Exponent)) -> BigFloat { expr!((atan(x) - (ln(y))) - (pow(exp("1.1"), acos(1 / (1 + x)))), (ctx.0, ctx.1, &mut *ctx.2, ctx.3, ctx.4)) }
fn t5_584(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts, Exponent, Exponent)) -> BigFloat { expr!((x) + (((2) / (y)) - (pow(x * y, e))), (ctx.0, ctx.1, &mut *ctx.2, ctx.3, ctx.4)) }
fn t5_591(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts, Exponent, Exponent)) -> BigFloat { expr!(tan((ln_2) / (pow(y, pi) + z % ("1.1"))), (ctx.0, ctx.1, &mut *ctx.2, ctx.3, ctx.4)) }
fn t5_598(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts, Exponent, Exponent)) -> BigFloat { expr!((cbrt(0.3) - (log(x / y, x * y))) / log(exp(ln_10), acos(1 / (y + 1))), (ctx.0, ctx.1, &mut *ctx.2, ctx.3, ctx.4)) }
fn t5_605(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts, Exponent, Exponent)) -> BigFloat { expr!(sinh(z) % (atanh(x / (x + y))), (ctx.0, ctx.1, &mut *ctx.2, ctx.3, ctx.4)) }
fn t5_612(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts, Exponent, Exponent)) -> BigFloat { expr!(0.3 - (x + ((ln_2 * 5) * (sin(x)))), (ctx.0, ctx.1, &mut *ctx.2, ctx.3, ctx.4)) }
fn t5_619(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts, Exponent, Exponent)) -> BigFloat { expr!((pow(cosh(z), atanh(x / (x + y)))) - ((2) % y) / "1.1", (ctx.0, ctx.1, &mut *ctx.2, ctx.3, ctx.4)) }
fn t5_626(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts, Exponent, Exponent)) -> BigFloat { expr!((z + log(exp("1.1"), exp(5))) - ln_2, (ctx.0, ctx.1, &mut *ctx.2, ctx.3, ctx.4)) }
fn t5_633(x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut (usize, RoundingMode, &mut Consts, Exponent, Exponent)) -> BigFloat { expr!(log(exp((0.3) - (2)), exp(("1.1") + x)), (ctx.0, ctx.1, &mut *ctx.2, ctx.3, ctx.4)) }
pub static T5: [(usize, FT5); 102] = [
    (3, t5_3),
    (4, t5_4),
    (5, t5_5),
    (10, t5_10),
    (17, t5_17),
    (24, t5_24),
    (31, t5_31),
    (38, t5_38),
    (45, t5_45),
    (52, t5_52),
    (57, t5_57),
    (58, t5_58),
    (59, t5_59),
    (60, t5_60),
    (61, t5_61),
    (66, t5_66),
    (67, t5_67),
    (68, t5_68),
    (70, t5_70),
    (73, t5_73),
    (80, t5_80),
    (87, t5_87),
    (94, t5_94),
    (101, t5_101),
    (108, t5_108),
    (115, t5_115),
    (122, t5_122),
    (129, t5_129),
    (136, t5_136),
    (143, t5_143),
    (150, t5_150),
    (157, t5_157),
    (164, t5_164),
    (171, t5_171),
    (178, t5_178),
    (185, t5_185),
    (192, t5_192),
    (199, t5_199),
    (206, t5_206),
    (213, t5_213),
    (216, t5_216),
    (218, t5_218),
    (220, t5_220),
    (227, t5_227),
    (234, t5_234),
    (241, t5_241),
    (248, t5_248),
    (255, t5_255),
    (262, t5_262),
    (269, t5_269),
    (276, t5_276),
    (283, t5_283),
    (290, t5_290),
    (297, t5_297),
    (304, t5_304),
    (311, t5_311),
    (318, t5_318),
    (325, t5_325),
    (332, t5_332),
    (339, t5_339),
    (346, t5_346),
    (353, t5_353),
    (360, t5_360),
    (367, t5_367),
    (374, t5_374),
    (381, t5_381),
    (388, t5_388),
    (395, t5_395),
    (402, t5_402),
    (409, t5_409),
    (416, t5_416),
    (423, t5_423),
    (430, t5_430),
    (437, t5_437),
    (444, t5_444),
    (451, t5_451),
    (458, t5_458),
    (465, t5_465),
    (472, t5_472),
    (479, t5_479),
    (486, t5_486),
    (493, t5_493),
    (500, t5_500),
    (507, t5_507),
    (514, t5_514),
    (521, t5_521),
    (528, t5_528),
    (535, t5_535),
    (542, t5_542),
    (549, t5_549),
    (556, t5_556),
    (563, t5_563),
    (570, t5_570),
    (577, t5_577),
    (584, t5_584),
    (591, t5_591),
    (598, t5_598),
    (605, t5_605),
    (612, t5_612),
    (619, t5_619),
    (626, t5_626),
    (633, t5_633),
];
