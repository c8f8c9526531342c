"""What each check runs: (family, shards, events per shard) per tier."""
ASSUME = [
    'the Quint evaluator (quint test, TypeScript backend) evaluates the specification correctly',
    'the recorder in /verif/harness reads results through public accessors (as_raw_parts, err, is_*) faithfully',
    'histories are sampled: the verdict covers the calls listed in coverage, not all inputs',
]
LIGHT = 'calls made by the seeded driver on adversarial operands (boundary exponents, ties, carries, runs of ones and zeros, subnormals, word-size gaps, specials); distinct and non-trivial: a recorded call other than loading an operand, distinct in arguments and result'
TEXT = 'texts, digit sequences and numbers made by the seeded driver (grammar-generated and mutated texts, exponents around the ends of the range, ties and near ties of the radix conversion, round trips); distinct and non-trivial: a recorded call other than loading an operand, distinct in arguments and result'
HIST = 'histories of calls to constants caches, functions and repeated, interleaved and concurrent calls made by the seeded driver; distinct and non-trivial: a recorded call other than loading an operand, distinct in arguments and result'
PROG = 'programs in which results are operands of later calls, over all operations, precisions and rounding modes; distinct and non-trivial: a recorded call other than loading an operand, distinct in arguments and result'
FAULT = 'calls run repeatedly with the k-th allocation failing, for k over the whole call, then repeated with memory available; distinct and non-trivial: a recorded call other than loading an operand, distinct in arguments and result'
WILD = 'calls with unreasonable precisions, exponents, texts, digits, raw parts and mixes of special values; distinct and non-trivial: a recorded call other than loading an operand, distinct in arguments and result'
EXPR = 'expressions (554 programs compiled by the macro, generated from a grammar over all its operators, functions, constants and literals) evaluated on adversarial operands under contexts of all precisions and modes; distinct and non-trivial: a recorded call other than loading an operand, distinct in arguments and result'
CTXR = 'histories of changes, clones, conversions of contexts and evaluations in them, narrow exponent ranges included; distinct and non-trivial: a recorded call other than loading an operand, distinct in arguments and result'
def P(level, quick, thorough, rule=LIGHT, **kw): return dict(level=level, quick=quick, thorough=thorough, rule=rule, **kw)
# other areas, for the properties that concern every call
SIDE = [(f, [s], n) for f, s, n in (('exact', 1, 800), ('setp', 1, 800), ('arith', 4, 1200), ('explog', 1, 600), ('trig', 1, 600), ('hyp', 1, 600), ('conv', 1, 1200))]
DEEP = [(f, [s], 12 * n) for f, [s], n in SIDE]
PLAN = {
    'C01': P('model_checking', [('arith', 8, 8500)], [('arith', 8, 60000)]),
    'C02': P('model_checking', [('exact', 8, 7500)], [('exact', 8, 60000)]),
    'C03': P('model_checking', [('setp', 8, 5500)], [('setp', 8, 60000)]),
    'C04': P('model_checking', [('explog', 8, 3300)], [('explog', 8, 30000)]),
    'C05': P('model_checking', [('trig', 8, 3300)], [('trig', 8, 30000)]),
    'C06': P('model_checking', [('hyp', 8, 3300)], [('hyp', 8, 30000)]),
    'C07': P('model_checking', [('consts', 8, 1200)], [('consts', 8, 12000)], HIST),
    'C08': P('model_checking', [('memo', 8, 4200)], [('memo', 8, 30000)], HIST),
    'C09': P('model_checking', [('specials', 8, 7000)], [('specials', 8, 40000)]),
    'C10': P('model_checking', [('ends', 8, 4500)], [('ends', 8, 30000)]),
    'C11': P('model_checking', [('ords', 8, 8000)], [('ords', 8, 80000)]),
    'C12': P('model_checking', [('text', 8, 3000)], [('text', 8, 60000)], TEXT),
    'C13': P('model_checking', [('fmt', 8, 4000)], [('fmt', 8, 40000)], TEXT),
    'C14': P('model_checking', [('conv', 8, 9500)], [('conv', 8, 80000)]),
    'C15': P('model_checking', [('chains', 8, 2400)] + SIDE, [('chains', 8, 30000)] + DEEP, PROG),
    'C16': P('model_checking', [('chains', 8, 1800), ('ends', [1], 700), ('random', [1], 700), ('text', [2], 700), ('specials', [2], 700)] + SIDE,
             [('chains', 8, 30000), ('ends', [2], 9000), ('random', [2], 9000), ('text', [2], 9000), ('specials', [2], 9000)] + DEEP, PROG),
    'C17': P('model_checking', [('faults', 8, 4500)], [('faults', 8, 30000)], FAULT),
    'C18': P('model_checking', [('wild', 8, 5500)], [('wild', 8, 40000)], WILD),
    'C19': P('model_checking', [('macro', 8, 3800)], [('macro', 8, 40000)], EXPR),
    'C20': P('model_checking', [('ctx', 8, 4500)], [('ctx', 8, 40000)], CTXR),
    'C21': P('model_checking', [('serde', 8, 3500)], [('serde', 8, 50000)], TEXT),
    'C22': P('model_checking', [('random', 8, 6000)], [('random', 8, 60000)]),
}
# the specification's own models and lemmas, checked besides the traces
def lemma(names): return dict(name='lemmas.qnt: ' + names, cmd=['quint', 'test', '--backend=typescript', '--main=lemmas', '--match=' + names, 'lemmas.qnt'], expect=r'[0-9]+ passing', timeout=800)
CACHE_RUN = dict(name='cache.qnt: simulation', cmd=['quint', 'run', '--backend=typescript', '--main=cacheOk', '--invariant=inv and ind', '--max-samples=%s', '--max-steps=40', '--seed=$SEED', 'cache.qnt'], expect=r'No violation found', timeout=800)
def cacherun(n): return dict(CACHE_RUN, cmd=[x.replace('%s', str(n)) for x in CACHE_RUN['cmd']])
CACHE_PROOF = dict(name='cache.qnt: inductive invariant (Apalache)', cmd=['quint', 'verify', '--main=cacheOk', '--inductive-invariant=ind', '--invariant=inv', 'cache.qnt'], expect=r'No violation found', timeout=1200)
MODELS = {
    'C03': [lemma('(integers|rounding|ends|claims)Test')],
    'C04': [lemma('functionsTest')], 'C05': [lemma('functionsTest')], 'C06': [lemma('functionsTest')],
    'C12': [lemma('grammarTest')],
    'C07': [lemma('constantsTest'), cacherun(150)],
}
for p, m in MODELS.items(): PLAN[p]['models'] = {'quick': m, 'thorough': m}
PLAN['C07']['models']['thorough'] = MODELS['C07'] + [cacherun(3000), CACHE_PROOF]
PLAN['C17']['models'] = {'quick': [], 'thorough': [cacherun(3000), CACHE_PROOF]}
for p in PLAN:
    if p not in MODELS and p != 'C17': PLAN[p]['models'] = {'quick': [], 'thorough': [lemma('.*')]}
NA = {}
