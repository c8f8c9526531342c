#!/usr/bin/env python3
"""Programs for the expression macro: writes harness/macro/exprs.rs (deterministic).

Each program is a Rust expression; its meaning is taken from Python's parser (same precedence and
associativity), not from the macro, and stored in postfix form for the specification."""
import ast, os, random, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OP = {'recip': 5, 'sqrt': 6, 'cbrt': 7, 'exp': 30, 'pow': 31, 'ln': 33, 'log2': 34, 'log10': 35, 'log': 36, 'sin': 40, 'cos': 41, 'tan': 42,
      'asin': 43, 'acos': 44, 'atan': 45, 'sinh': 50, 'cosh': 51, 'tanh': 52, 'asinh': 53, 'acosh': 54, 'atanh': 55}
CONST = {'pi': 60, 'e': 61, 'ln_2': 62, 'ln_10': 63}
BIN = {ast.Add: 1, ast.Sub: 2, ast.Mult: 3, ast.Div: 4, ast.Mod: 13}
VAR = {'x': 0, 'y': 1, 'z': 2}
PLACE = {'i': 200, 'f': 201, 's': 202}

def rpn(src):
    out = []
    def lit(t):
        b = t.encode()
        out.extend([2, len(b)] + list(b))
    def go(n):
        if isinstance(n, ast.Expression): go(n.body)
        elif isinstance(n, ast.BinOp):
            go(n.left); go(n.right); out.append(64 + BIN[type(n.op)])
        elif isinstance(n, ast.UnaryOp):
            assert isinstance(n.op, ast.USub)
            go(n.operand); out.append(64 + 14)
        elif isinstance(n, ast.Call):
            for a in n.args: go(a)
            out.append(64 + OP[n.func.id])
        elif isinstance(n, ast.Name):
            if n.id in CONST: out.append(64 + CONST[n.id])
            elif n.id in VAR: out.extend([1, VAR[n.id]])
            else: out.append(PLACE[n.id])
        elif isinstance(n, ast.Constant):
            if isinstance(n.value, str): lit(n.value)
            elif isinstance(n.value, int): lit(str(n.value))
            else: lit(ast.get_source_segment(src, n).replace('_', ''))
        else: raise ValueError(ast.dump(n))
    go(ast.parse(src.strip(), mode='eval'))
    return out

# classes of variables: g any, p positive, o (0,1), q (-1,1), b > 1, t tiny, T tiny positive, m 5..p*0.7, n 1..50, L large, l large positive, w near one
P = []      # (source as Rust, source as Python, classes)
def add(src, cls='ppp', py=None): P.append((src, py or src, (cls + 'ggg')[:3]))

# every function and operator alone
for f in ['recip', 'cbrt', 'exp', 'sin', 'cos', 'tan', 'atan', 'sinh', 'cosh', 'tanh', 'asinh']:
    for c in 'gt': add('%s(x)' % f, c)
for f in ['sin', 'cos', 'tan']: add('%s(x)' % f, 'L')
for f in ['sqrt', 'ln', 'log2', 'log10']:
    for c in 'pwl': add('%s(x)' % f, c)
for f in ['asin', 'acos', 'atanh']:
    for c in 'qt': add('%s(x)' % f, c)
add('acosh(x)', 'b'); add('acosh(x)', 'l')
add('log(x, y)', 'pp'); add('log(x, y)', 'wp'); add('log(x, y)', 'pw'); add('pow(x, y)', 'pg'); add('pow(x, y)', 'wl'); add('pow(x, y)', 'gn')
for o in '+-*/%':
    add('x %s y' % o, 'gg'); add('x %s y' % o, 'gt'); add('y %s x' % o, 'gt')
add('x % y', 'lp'); add('-x', 'g'); add('x', 'g'); add('--x', 'g')
for c in CONST: add(c); add('x * %s' % c, 'g'); add('-%s' % c)
# precedence, associativity, unary minus, grouping
for s in ['x + y * z', 'x * y + z', 'x - y - z', 'x - (y - z)', 'x / y / z', 'x / (y / z)', '-x * y', '-x + y', 'x * -y', 'x - -y', '-(x + y)', 'x % y * z',
          'x * y % z', 'x - y % z', 'x % y - z', '(x + y) * z', 'x * (y + z)', '-pow(x, 2)', 'x - y + z', 'x / y * z', 'x + y / z', '(x - y) / (x + y)',
          '-x / -y', '((x))', '(x + (y)) - (z)', 'x * y * z + x', 'x + y + z + x', '-(-x)', '-x - y', '-x % y', '(-x) % y', 'x % -y', '-sqrt(x) + y', '2 * x - y / 3']:
    add(s, 'ppp')
# argument order
for s in ['log(x, y)', 'log(y, x)', 'pow(x, y)', 'pow(y, x)', 'log(sqrt(x), y)', 'log(x, sqrt(y))', 'pow(sqrt(x), y)', 'pow(x, sqrt(y))', 'log(x + y, z)', 'pow(x / y, z - x)',
          'log(8, 2)', 'log(2, 8)', 'pow(2, 10)', 'pow(10, 2)', 'log(1000, 10)', 'pow(2, -3)', 'pow(x, 3)', 'pow(3, x)', 'pow(-x, 3)', 'pow(-x, 4)', 'pow(4, 0.5)']: add(s)
# literals
for s, py in [('1', None), ('0', None), ('123', None), ('1_000_000', None), ('0x1f', None), ('0b101', None), ('0o17', None), ('7u8', '7'), ('200i64', '200'), ('1.5', None), ('0.1', None), ('1e5', None), ('1e-5', None),
              ('2.5e3', None), ('1.25f32', '1.25'), ('3f64', '3'), ('"0.1"', None), ('"-2.75"', None), ('"1e-30"', None), ('"123456789.123456789"', None), ('123456789012345678901234567890', None), ('"1e100"', None),
              ('-0.1', None), ('- 5', None), ('"3.14159265358979323846264338327950288419716939937510582097494459230781640628620899"', None), ('0.000', None), ('"inf"', None), ('-"inf"', None), ('"nan"', None),
              ('18446744073709551616', None), ('0.3333333333333333333333333333333333333333333', None), ('"7.0"', None), ('1_0.5_0', '10.50')]:
    add(s, 'ggg', py); add('x * %s' % s if 'inf' not in s and 'nan' not in s and s not in ('0', '0.000') else 'x + 1', 'ppp', 'x * %s' % (py or s) if 'inf' not in s and 'nan' not in s and s not in ('0', '0.000') else 'x + 1')
for s in ['0.1 + 0.2', '"0.1" + "0.2" - "0.3"', '1 / 3', '1 / 3 * 3', '10 % 3', '"0.1" * 10 - 1', '7 - 0.7 * 10', '2 * 3 + 4', '2 + 3 * 4', '100 - 10 - 1', '1 - 1', '5 % 2.5', '100000000000000000000 + 1']: add(s)
# other types of variables
for s in ['i', 'f', 's', 'i + x', 'x - f', 's * x', 'i / 3', 'f * f', 's + s', 'exp(f)', 'sin(i)', 'ln(s)', 'pow(i, f)', 'log(s, x)', 'i * f - s', 's - f', 'sqrt(i) + f', 'x % f', 'atan(s / i)', 's / s', 'f - f']: add(s)
# errors that must not reach the result
U = 'exp(-y)'
for s in ['ln(1 + U)', 'ln(1 - U)', 'log2(1 + U)', 'log2(1 - U)', 'log10(1 + U)', 'log10(1 - U)', 'log(1 + U, x)', 'log(1 - U, x)', 'log(x, 1 + U)', 'log(x, 1 - U)', 'log(1 + U, 1 - U)', 'log(1 + U, 1 + U * x)',
          'log(exp(x), 1 + U)', 'log(1 + U, exp(x))', 'pow(1 + U, exp(y))', 'pow(1 - U, exp(y))', 'pow(1 + U, x * exp(y * 0.9))', 'pow(1 + U, -exp(y))', 'pow(sqrt(x), exp(y * 0.1))', 'pow(sqrt(x), 1000)', 'pow(sqrt(x), -1000)',
          'pow(exp(x), sqrt(z))', 'pow(x, 100 * sqrt(z))', 'pow(1 + U, z)', 'pow(x, U)', 'pow(x, U) - 1',
          'sin(pi + U)', 'sin(pi * 3 - U)', 'sin(-pi * 10 + U)', 'cos(pi / 2 + U)', 'cos(pi / 2 - U)', 'cos(pi * 7 / 2 + U)', 'cos(-pi * 1.5 + U)', 'tan(pi + U)', 'tan(pi - U)', 'tan(pi / 2 + U)', 'tan(pi / 2 - U)', 'tan(-pi * 5 / 2 + U)', 'tan(pi * 4 + U)',
          'sin(pi * 1000000 + U)', 'cos(pi * 1000000.5 + U)', 'tan(pi * 1000000.5 + U)', 'sin(exp(y * 0.8))', 'cos(exp(y * 0.8))', 'tan(exp(y * 0.8))', 'sin(1000000 * sqrt(x))', 'cos(1000000 * sqrt(x))', 'tan(1000000 * sqrt(x))',
          'asin(1 - U)', 'asin(U - 1)', 'acos(1 - U)', 'acos(U - 1)', 'acos(U)', 'asin(U)', 'acosh(1 + U)', 'atanh(1 - U)', 'atanh(U - 1)', 'atanh(U)', 'asinh(U)', 'tanh(U)', 'sinh(U)', 'atan(U)', 'tanh(x) - 1',
          'acosh(cosh(x * 0.1))', 'acos(cos(x * 0.01))', 'asin(cos(x * 0.01))', 'atanh(tanh(x * 0.3))',
          'exp(U) - 1', '(exp(U) - 1) / U', 'cosh(exp(-y * 0.4)) - 1', '1 - cos(exp(-y * 0.4))', 'sqrt(1 + U) - 1', 'cbrt(1 + U) - 1', '(x + U) - x', 'x - (x - U)', 'exp(x + U) - exp(x)', 'ln(x + U) - ln(x)', 'atan(x + U) - atan(x)',
          'sqrt(x + U) - sqrt(x)', 'sin(x + U) - sin(x)', '1 / x - 1 / (x + U)', 'recip(x) - recip(x + U)', 'tan(x) - sin(x) / cos(x) + U', 'exp(ln(x)) - x + U', 'pi - 3.14159265358979 + U', 'pi - 355 / 113', 'e - 2.718281828459045', 'ln_10 - ln(10) + U',
          'ln_2 * 3 - ln(8) + U', '-x + (x + U)', '-(x + U) + x', '-exp(x) + exp(x + U)', '1 - tanh(x * 10)', '(1 + U) * (1 - U) - 1', 'sin(x) * sin(x) + cos(x) * cos(x) - 1 + U', 'cosh(x) * cosh(x) - sinh(x) * sinh(x) - 1 + U',
          '(sqrt(x + U) - sqrt(x)) / U', 'ln(x + U) - ln(x) + z * U', 'exp(1000 * (sqrt(x + U) - sqrt(x)))', 'sin(1000 * (exp(U) - 1) / U)', '(exp(x) - 1) % U', 'exp(x * 10) % pi', 'exp(x * 10) % 1', 'x % exp(-x * 10)', '1000000 * sqrt(x) % ln_2', '1000 * ln(x) % sqrt(z)',
          'exp(1000 * sqrt(x))', 'exp(-1000 * sqrt(x))', 'sinh(1000 * sqrt(x))', 'cosh(1000 * sqrt(x))', 'sinh(-100 * sqrt(x))', 'exp(exp(x * 0.1))', 'ln(ln(x + 3))', 'ln(exp(x))', 'exp(ln(x))', 'sqrt(x) * sqrt(x)', 'exp(x) * exp(-x)', 'tan(atan(x))', 'sin(asin(1 / (x + 1)))',
          'ln(sqrt(1 + U))', 'ln(1 + U + U)', 'ln(1 + U) + ln(1 - U)', 'acos(1 - U) * acos(1 - U)', 'recip(ln(1 + U))', '1 / (x - (x - U))', '1 / sin(pi + U)', 'sqrt(sin(pi - U))', 'ln(sin(pi - U))', 'atan(1 / cos(pi / 2 - U))', 'pow(1 + U, 1 / U)', 'pow(1 - U, 1 / U)', 'log(1 + U, 1 + U / 3)']:
    add(s.replace('U', U), 'pmp')
# errors of functions next to one, zeros and poles of the function around them
for v in ['U', 'exp(-y * 0.5)', 'y / exp(y)']:
    for s in ['acos(cos(V))', 'asin(cos(V))', 'acosh(cosh(V))', 'acosh(exp(V))', 'ln(cos(V))', 'ln(cosh(V))', 'ln(exp(V))', 'log2(exp(V))', 'log10(sqrt(exp(V)))', 'log(cosh(V), x)', 'log(x, exp(V))', 'log(x, cos(V))', 'pow(cosh(V), 1 / V)', 'pow(cos(V), exp(y))',
              'pow(exp(V), exp(y))', 'cos(acos(V))', 'sin(acos(V - 1))', 'tan(acos(V))', 'cos(atan(1 / V))', 'tan(atan(1 / V))', 'sin(2 * acos(V))', 'sin(2 * atan(1 / V))', 'acos(sqrt(exp(-V)))', 'asin(cbrt(exp(-V)))', 'atanh(sqrt(exp(-V)))', 'atanh(cos(V))', 'acosh(sqrt(1 + V) / cos(V))', 'acos(-cos(V))', 'asin(-cos(V))', 'atanh(-exp(-V))']:
        add(s.replace('V', v).replace('U', U), 'pmp')
for s in ['acos(tanh(x * 9 + z))', 'asin(tanh(x * 9 + z))', 'atanh(tanh(x * 9 + z))', 'ln(tanh(x * 9 + z))', 'log(x, tanh(y * 9))', 'pow(tanh(x * 9 + z), exp(x * 18))', 'atanh(sin(x))', 'acos(sin(x))', 'asin(sin(x))', 'acos(cos(x))', 'atan(tan(x))', 'asin(cos(1000 * x))', 'acos(1 / cosh(x))', 'atanh(1 / cosh(x))', 'acosh(1 / cos(x * 0.01))']: add(s)
# hidden cancellation with exact operands only
for s in ['(x + y) - x', '(x + y) - (x - y)', '(x + y) * (x - y) - x * x', '(x - y) % x', 'x * x - (x - y) * (x + y)', 'x - y * x / y', '1 / (1 + y) - 1', 'sqrt(x * x + y) - x', 'ln(1 + y)', 'log(1 + y, 1 + 2 * y)', 'atanh(1 - y)', 'acos(1 - y)', 'asin(1 - y)', 'acosh(1 + y)', 'exp(y) - 1']:
    add(s, 'pTp')
# functions of functions
rng = random.Random(20261119)
F1 = [f for f in OP if f not in ('pow', 'log')]
RANGE = {'sqrt': 'p', 'exp': 'p', 'cosh': 'b', 'acosh': 'p', 'acos': 'p', 'tanh': 'q', 'sin': 'q', 'cos': 'q'}
DOM = {'sqrt': 'p', 'ln': 'p', 'log2': 'p', 'log10': 'p', 'asin': 'q', 'acos': 'q', 'atanh': 'q', 'acosh': 'b'}
def arg(f, depth):
    """an expression inside the domain of f, most of the time"""
    d = DOM.get(f)
    if d is None: return tree(depth)
    if d == 'p':
        return rng.choice(['x', 'y', 'exp(%s)' % tree(depth - 1), 'cosh(z)', '(x + %s)' % rng.choice(['y', '1', 'pi', 'sqrt(y)']), 'x * y', 'x / y', 'sqrt(x)', 'acos(1 / (y + 1))'])
    if d == 'q': return rng.choice(['sin(%s)' % tree(depth - 1), 'cos(%s)' % tree(depth - 1), 'tanh(z)', '1 / (1 + x)', 'x / (x + y)', 'exp(-x)', 'recip(1 + y)'])
    return rng.choice(['cosh(x)', '1 + x', '(1 + exp(z))', 'exp(x)', 'sqrt(1 + y)', '(x + y) / x'])
def tree(depth):
    k = rng.random()
    if depth <= 0 or k < 0.12: return rng.choice(['x', 'y', 'z', 'x', 'y', 'z', 'pi', 'e', 'ln_2', 'ln_10', '2', '0.3', '"1.1"', '5'])
    if k < 0.5:
        o = rng.choice(['+', '-', '*', '/', '+', '-', '*', '%'])
        a, b = tree(depth - 1), tree(depth - 1)
        if rng.random() < 0.6: a = '(%s)' % a
        if rng.random() < 0.6: b = '(%s)' % b
        return '%s %s %s' % (a, o, b)
    if k < 0.56: return '-%s' % rng.choice(['x', 'y', '(%s)' % tree(depth - 1)])
    if k < 0.64: return 'pow(%s, %s)' % (arg('ln', depth - 1), tree(depth - 1))
    if k < 0.72: return 'log(%s, %s)' % (arg('ln', depth - 1), arg('ln', depth - 1))
    f = rng.choice(F1)
    return '%s(%s)' % (f, arg(f, depth - 1))
seen = set()
for f in F1:
    for _ in range(3):
        s = '%s(%s)' % (f, arg(f, 2))
        if s not in seen: seen.add(s); add(s)
while len(seen) < 150:
    s = tree(rng.choice([2, 3, 3, 4]))
    if s not in seen and len(s) > 3: seen.add(s); add(s)

# programs also run with tuples as contexts, and with their names behind a macro (Expr::Group)
TUPLE = [k for k, (s, _, c) in enumerate(P) if k % 7 == 3 or s in ('x', '-x', 'x * y', 'x / y', 'exp(x)', 'pi', 'i', 's')]
GROUP = [('x', 'y'), ('x + 1', 'y'), ('-x', 'y - z'), ('sin(x)', '2')]
GROUPF = [('$a * $b', '(%s) * (%s)'), ('$a - $b', '(%s) - (%s)'), ('-$a', '-(%s)'), ('$b / $a', '(%s) / (%s)'), ('exp($a) - $b', 'exp(%s) - (%s)')]
# variables with names that the generated code uses as well
NAMED = ['x + y', 'y - x', 'x * (y + z)', 'x - y * z', 'log(x, y) - z', 'exp(x) / (y % z)', 'pow(x, y) + ln(z)', '(x + y) * (z - x) - y']
NAMES = [('x', 'arg1', 'arg2'), ('arg2', 'arg1', 'ret'), ('emin', 'arg', 'emax')]
def main():
    o = ['// Written by tools/genexpr.py.', '#![allow(unused)]', 'use super::*;']
    sig = 'x: &BigFloat, y: &BigFloat, z: &BigFloat, i: i32, f: f64, s: &str, ctx: &mut %s'
    def esc(b): return 'b"' + ''.join('\\x%02x' % v for v in b) + '"'
    tab = []
    for k, (src, py, cls) in enumerate(P):
        o.append('fn e%d(%s) -> BigFloat { expr!(%s, *ctx) }' % (k, sig % 'Context', src))
        tab.append('    Prog { rpn: %s, cls: b"%s", f: e%d }, // %s' % (esc(rpn(py)), cls, k, src))
    g = len(P)
    for fa, fb in GROUP:
        for form, py in GROUPF:
            n = py.count('%s')
            a = (fb, fa) if form.startswith('$b') else (fa, fb)[:n]
            o.append('macro_rules! g%d { ($a:expr, $b:expr, $c:expr) => { expr!(%s, $c) } }' % (g, form))
            o.append('fn e%d(%s) -> BigFloat { g%d!(%s, %s, *ctx) }' % (g, sig % 'Context', g, fa, fb))
            tab.append('    Prog { rpn: %s, cls: b"ppp", f: e%d },' % (esc(rpn(py % a)), g))
            g += 1
    for form in NAMED:
        for names in NAMES:
            src = re.sub(r'\b[xyz]\b', lambda m: names['xyz'.index(m.group())], form)
            o.append('fn e%d(%s) -> BigFloat { expr!(%s, *ctx) }' % (g, re.sub(r'\b[xyz]\b', lambda m: names['xyz'.index(m.group())], sig) % 'Context', src))
            tab.append('    Prog { rpn: %s, cls: b"ppp", f: e%d }, // %s' % (esc(rpn(form)), g, src))
            g += 1
    o.append('pub static PROGS: [Prog<Context>; %d] = [\n%s\n];' % (len(tab), '\n'.join(tab)))
    for name, ty, call in [('T3', '(usize, RoundingMode, &mut Consts)', '(ctx.0, ctx.1, &mut *ctx.2)'), ('T5', '(usize, RoundingMode, &mut Consts, Exponent, Exponent)', '(ctx.0, ctx.1, &mut *ctx.2, ctx.3, ctx.4)')]:
        rows = []
        for k in TUPLE:
            src, py, cls = P[k]
            o.append('fn %s_%d(%s) -> BigFloat { expr!(%s, %s) }' % (name.lower(), k, sig % ty, src, call))
            rows.append('    (%d, %s_%d),' % (k, name.lower(), k))
        o.append('pub static %s: [(usize, F%s); %d] = [\n%s\n];' % (name, name, len(rows), '\n'.join(rows)))
    with open(os.path.join(ROOT, 'harness', 'src', 'exprs.rs'), 'w') as f: f.write('\n'.join(o) + '\n')
    print(len(tab), 'programs', len(TUPLE), 'with tuples')
if __name__ == '__main__': main()
