"""Decoding of events for reports (the verdicts themselves come from the specification)."""
OPS = {1:'add',2:'sub',3:'mul',4:'div',5:'reciprocal',6:'sqrt',7:'cbrt',10:'add_full_prec',11:'sub_full_prec',12:'mul_full_prec',
13:'rem',14:'neg',15:'abs',16:'int',17:'fract',18:'floor',19:'ceil',20:'set_precision',21:'round',22:'try_set_precision',30:'exp',
31:'pow',32:'powi',33:'ln',34:'log2',35:'log10',36:'log',40:'sin',41:'cos',42:'tan',43:'asin',44:'acos',45:'atan',50:'sinh',51:'cosh',
52:'tanh',53:'asinh',54:'acosh',55:'atanh',60:'pi',61:'e',62:'ln_2',63:'ln_10',94:'from_raw_parts',98:'special',70:'cmp',71:'abs_cmp',72:'max',73:'min',74:'clamp',75:'signum',
76:'predicates',77:'operators',80:'parse',81:'format',82:'convert_from_radix',83:'convert_to_radix',84:'from_str',85:'display',86:'serialize',87:'deserialize',
88:'deserialize_number',90:'from_int',91:'from_f64',92:'from_f32',93:'from_words',96:'accessors',97:'set_exponent',99:'set_sign',100:'constructor',101:'from_ext',
102:'expr',103:'context_new',104:'context_set_precision',105:'context_set_rounding_mode',106:'context_set_emin',107:'context_set_emax',108:'context_clone',109:'context_to_raw_parts',
111:'context_set_consts',112:'context_const',113:'tuple_context',114:'tuple_context_const',115:'expr_in_context',116:'context_read',
110:'random_normal',119:'helper'}
RM = {0:'-',1:'None',2:'Up',4:'Down',8:'ToZero',16:'FromZero',32:'ToEven',64:'ToOdd'}
KIND = {0:'finite',1:'Inf',2:'NaN',3:'PANIC',4:'ABORT',5:'HANG',6:'Err',7:'int',8:'text'}
def decode(h):
    w = int(h, 16)
    by = w.to_bytes((w.bit_length()+7)//8 + 80, 'little')
    u = lambda o, n=8: int.from_bytes(by[o:o+n], 'little')
    d = dict(op=by[0], rm=by[1], dst=by[2], a=by[3], b=by[4], c=by[5], k=by[6], fl=by[7], sl=by[8], p=u(16), e=u(24)-2**63, pr=u(32), n=u(40), x=u(48)-2**63)
    o = 56
    for f in 'myz':
        l = u(o, 3)
        d[f] = int.from_bytes(by[o+3:o+3+l], 'little')
        o += 3 + l
    return d
def num(d):
    k = d['k']
    s = '-' if d['fl'] & 1 else '+'
    if k == 0: return '%s0x%x*2^%d [p=%d n=%d%s]' % (s, d['m'], d['e']-d['pr'], d['pr'], d['n'], ' inexact' if d['fl'] & 2 else '')
    if k == 1: return s + 'Inf'
    if k in (2, 6): return KIND[k] + '(%d)' % d['e']
    if k == 7: return 'int %d' % d['e']
    if k == 8: return 'text %s (%d)' % (txt(d['z']), d['e'])
    return KIND[k]
def txt(v):
    b = v.to_bytes((v.bit_length()+7)//8, 'little')
    return repr(b[:-1])
NAMES = {1:'+',2:'-',3:'*',4:'/',13:'%',14:'neg'}
def prog(z):
    t, i, o = z.to_bytes((z.bit_length()+7)//8, 'little')[:-1], 0, []
    while i < len(t):
        k = t[i]
        if k == 1: o.append('abc'[t[i+1]]); i += 2
        elif k == 2: o.append(repr(t[i+2:i+2+t[i+1]].decode())); i += 2 + t[i+1]
        elif k == 4: o.append('%s%d*2^%d' % ('-' if t[i+1] else '', int.from_bytes(t[i+2:i+10], 'little'), int.from_bytes(t[i+10:i+12], 'little') - 32768)); i += 12
        else: o.append(NAMES.get(k - 64) or OPS[k - 64]); i += 1
    return ' '.join(o)
def describe(evs, i, full=False):
    """text of event i with its operands (last writer of each register)"""
    d = decode(evs[i])
    out = ['%s rm=%s p=%d x=%d y=%x z=%x fl=%d' % (OPS.get(d['op'], 'op%d' % d['op']), RM.get(d['rm'], d['rm']), d['p'], d['x'], d['y'], d['z'], d['fl'])]
    if d['op'] in (102, 115): out.append('  program ' + prog(d['z']))
    for r in 'abc':
        if d[r] == 255: continue
        for j in range(i-1, -1, -1):
            f = evs[j]
            g = int(f[-6:], 16) if len(f) > 8 else int(f, 16)
            e = decode(f) if (g >> 16) & 255 == d[r] else None
            if e and e['dst'] == d[r] and e['k'] <= 2:
                out.append('  %s = %s' % (r, num(e)))
                break
    out.append('  -> ' + num(d))
    s = '\n'.join(x if full else x[:700] for x in out)
    return s
if __name__ == '__main__':
    import sys
    evs = [l.strip() for l in open(sys.argv[1])]
    for i in sys.argv[2:]: print(i, describe(evs, int(i), True))
