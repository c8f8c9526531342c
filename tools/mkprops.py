#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept as a script so that the file stays well-formed).
import json, os
N = 'astro-float-num/src/'
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                          observe_at=observe or ['return value of the public call'], hook_needed=None))
    if state:
        d['anchors']['state'] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    assert len(title) <= 80, title
    P.append(d)

prop('C01', 'Arithmetic and root results are correctly rounded',
  'For finite operands of any precision, addition, subtraction, multiplication, division, reciprocal, square root and cube root return exactly the real-number result rounded once to the requested precision (rounded up to whole words) in the requested rounding mode, whenever that result lies in the normal exponent range. With rounding mode None the returned value is within one unit in the last place of the real result. The precision of the result is always the requested one, whatever the precision of the operands.',
  ['inputs'], 'every pair of finite operands, operand precision, target precision and rounding mode',
  'Unit tests compare a few identities and random MPFR samples at small sizes; carries across words, ties, sticky bits far below the last place, operand-size mismatches and the large-size multiplication/division algorithms are reached by chance or not at all.',
  [N+'num.rs', N+'mantissa/mantissa.rs', N+'mantissa/mul.rs', N+'mantissa/div.rs', N+'mantissa/toom2.rs', N+'mantissa/toom3.rs', N+'mantissa/fft.rs', N+'mantissa/sqrt.rs', N+'mantissa/cbrt.rs', N+'ops/sqrt.rs', N+'ops/cbrt.rs'],
  [('rounding of the mantissa with a sticky flag', N+'mantissa/mantissa.rs round_mantissa'), ('alignment and cancellation in addition', N+'num.rs add_sub, mantissa abs_add/abs_sub'), ('size-dependent multiplication', N+'mantissa/mul.rs'), ('recursive division', N+'mantissa/div.rs')])
prop('C02', 'Exact operations lose nothing',
  'Full-precision addition, subtraction and multiplication, remainder, negation, absolute value, integer part, fractional part, floor and ceiling return the exact mathematical result for every finite operand (remainder takes the sign of the dividend; floor and ceiling are the adjacent integers), and a number equals the sum of its integer and fractional parts.',
  ['inputs'], 'every finite operand or pair of operands of any precision and exponent',
  'Tests check a few hand-written values; operands with very different exponents or precisions, long carries, and multi-word remainders are not covered.',
  [N+'num.rs', N+'ext.rs', N+'mantissa/mantissa.rs', N+'mantissa/div.rs'],
  [('full precision arithmetic', N+'num.rs add_full_prec/sub_full_prec/mul_full_prec'), ('remainder', N+'num.rs rem'), ('integer and fraction', N+'num.rs int/fract/floor/ceil')])
prop('C03', 'Changing precision and rounding to places is correct',
  'Setting a precision (to any number of bits, stored in whole words) or rounding it to a number of binary places after the point, gives the value of the number correctly rounded in the requested mode; raising the precision never changes the value; with mode None the value is one of the two neighbours. When the library is asked to round a number known only to some number of correct bits, it says the rounding succeeded only if every value within that uncertainty rounds to the same result.',
  ['inputs'], 'every finite number, old and new precision, number of places, uncertainty and rounding mode',
  'Rounding bugs appear only for particular bit patterns around word boundaries (ties, all-ones carry into a new exponent), which random tests practically never produce.',
  [N+'num.rs', N+'mantissa/mantissa.rs', N+'ext.rs'],
  [('set_precision', N+'num.rs set_precision'), ('try_set_precision', N+'num.rs try_set_precision'), ('round to places', N+'num.rs round')])
prop('C04', 'Exponential, power and logarithm results are correctly rounded',
  'For every finite argument in its domain, exp, pow, powi, ln, log2, log10 and log with an arbitrary base return the real-number result rounded once to the requested precision in the requested mode, whenever that result lies in the normal exponent range, including cases where the real result is exactly representable. With rounding mode None the result is within a few units in the last place.',
  ['inputs'], 'every argument (including arguments next to 1, of huge or tiny magnitude, and exact cases), precision and rounding mode',
  'Tests compare random samples against MPFR at a few sizes; hard-to-round arguments, arguments exponentially close to 1, exact powers and very large/small exponents are not sampled.',
  [N+'ops/pow.rs', N+'ops/log.rs', N+'ops/series.rs', N+'ops/util.rs', N+'ext.rs'],
  [('retry loop with growing working precision', N+'ops/pow.rs, ops/log.rs'), ('series evaluation', N+'ops/series.rs'), ('small-argument shortcut', N+'ops/util.rs compute_small_exp')])
prop('C05', 'Trigonometric and inverse results are correctly rounded',
  'For every finite argument in its domain, sin, cos, tan, asin, acos and atan return the real-number result rounded once to the requested precision in the requested mode, whenever that result lies in the normal exponent range. This includes large arguments, arguments arbitrarily close to multiples of half pi or to one, and tiny arguments. With rounding mode None the result is within a few units in the last place.',
  ['inputs'], 'every argument, precision and rounding mode',
  'Tests sample a few random magnitudes against MPFR and check identities with tolerance; the hard cases are exponentially rare among random inputs.',
  [N+'ops/sin.rs', N+'ops/cos.rs', N+'ops/tan.rs', N+'ops/asin.rs', N+'ops/acos.rs', N+'ops/atan.rs', N+'ops/series.rs', N+'ops/util.rs'],
  [('argument reduction modulo pi', N+'ops/util.rs reduce_trig_arg'), ('cancellation detection', N+'ops/util.rs trig_arg_pi_proximity'), ('retry loop', N+'ops/*.rs try_set_precision')])
prop('C06', 'Hyperbolic and inverse results are correctly rounded',
  'For every finite argument in its domain, sinh, cosh, tanh, asinh, acosh and atanh return the real-number result rounded once to the requested precision in the requested mode, whenever that result lies in the normal exponent range. This includes tiny arguments, arguments close to one where the function vanishes or diverges, and arguments so large that the result saturates. With rounding mode None the result is within a few units in the last place.',
  ['inputs'], 'every argument, precision and rounding mode',
  'Tests sample a few random magnitudes against MPFR; saturation and near-one arguments in directed modes are hardly sampled.',
  [N+'ops/sinh.rs', N+'ops/cosh.rs', N+'ops/tanh.rs', N+'ops/asinh.rs', N+'ops/acosh.rs', N+'ops/atanh.rs'],
  [('retry loop', N+'ops/*h.rs'), ('saturation', N+'ops/tanh.rs process_large_exp')])
prop('C07', 'Cached constants are right after any history of requests',
  'After any sequence of requests to a constants cache, directly or through functions or a context that use it, a request for pi, e, ln 2 or ln 10 with any precision and rounding mode returns that constant correctly rounded to that precision in that mode. Asking again later, or after larger, smaller or failed requests, gives the same value.',
  ['histories', 'inputs'], 'every sequence of requests (constant, precision, rounding mode, interleaved with other uses of the same cache)',
  'The cache is stateful (partial sums, cached value, growth): tests request constants in one order at a few precisions and compare with fixed digits.',
  [N+'ops/consts/mod.rs', N+'ops/consts/pi.rs', N+'ops/consts/e.rs', N+'ops/consts/ln2.rs', N+'ops/consts/ln10.rs', N+'ctx.rs'],
  [('incremental binary splitting', N+'ops/consts/*.rs for_prec'), ('cache of computed value', N+'ops/consts/mod.rs')],
  [('cached partial sums', 'number of terms, p/q partial products and value for each constant', N+'ops/consts/*.rs')])
prop('C08', 'Results are a function of the arguments only',
  'The same call with the same arguments always returns the identical number (value, sign, precision, exponent, flags), regardless of what was computed before with the same or another constants cache, of how often it is repeated, and of the thread it runs on. No call changes the numbers passed to it by reference.',
  ['histories', 'schedules'], 'every history of earlier calls and every assignment of calls to threads and caches',
  'Tests never repeat a call under a different history or on another thread.',
  [N+'ops/consts/mod.rs', N+'common/consts.rs', N+'ext.rs', N+'conv.rs'],
  [('constants cache', N+'ops/consts'), ('cached powers of ten, per cache and per thread', N+'common/consts.rs TENPOWERS')],
  [('constants cache', 'shared mutable argument of most functions', N+'ops/consts/mod.rs')])
prop('C09', 'Special values follow one algebra',
  'For every operation, infinities, NaN, zeros and arguments outside the domain give the documented result: a NaN operand gives NaN and arithmetic and functions keep its error code, a finite argument outside the domain (and 0/0) gives NaN with the invalid-argument error, an undefined combination of infinities gives NaN, a pole gives an infinity of the right sign, and limits at infinity are the mathematical limits. A NaN is reported by its error accessor with the code of the operation that produced it.',
  ['inputs', 'histories'], 'every operation and every combination of special operands, precision and rounding mode, and NaNs carried through later operations',
  'Tests list many but not all combinations, and do not follow error codes through chains of operations.',
  [N+'ext.rs', N+'num.rs', N+'ops/pow.rs', N+'ops/log.rs'],
  [('case analysis on special operands', N+'ext.rs'), ('error to value mapping', N+'ext.rs result_to_ext')])
prop('C10', 'Overflow, underflow and subnormal results are handled right',
  'When the rounded result would exceed the largest exponent the operation returns an infinity of the right sign. When it lies below the normal range the result is the exact value rounded in the requested mode to the fixed spacing of subnormal numbers (possibly zero or the smallest normal number), with the sign of the exact value. Subnormal operands are used with their exact value.',
  ['inputs'], 'every operation whose operands or result are near or beyond the ends of the exponent range',
  'Tests use a handful of extreme values; rounding inside the subnormal range is barely compared with an independent reference.',
  [N+'num.rs', N+'mantissa/mantissa.rs', N+'ext.rs', N+'ops/pow.rs', N+'ops/tanh.rs'],
  [('subnormalize', N+'num.rs process_subnormal / mantissa round'), ('overflow to infinity', N+'ext.rs result_to_ext')])
prop('C11', 'Comparison is one total order on values',
  'Comparing two numbers, or their absolute values, gives the order of their exact values whatever their precision, exponent and normalization, with infinities at the ends and NaN unordered; the comparison operators, equality, minimum, maximum, clamp, sign and classification predicates (zero, integer, subnormal, positive, negative, finite class) all agree with that order.',
  ['inputs'], 'every pair or triple of numbers, including zeros, subnormals and equal values of different precision',
  'Order laws are universally quantified; tests compare a few pairs of normal numbers.',
  [N+'num.rs', N+'ext.rs', N+'mantissa/mantissa.rs'],
  [('value comparison', N+'num.rs cmp/abs_cmp'), ('special values', N+'ext.rs cmp/abs_cmp/clamp/max/min/signum/classify')])
prop('C12', 'Parsing text is correctly rounded',
  'For every text in the binary, octal, decimal or hexadecimal number format (sign, leading zeros, fraction, exponent of any size, either letter case, infinity and NaN words), parsing returns the number it denotes, correctly rounded in the requested mode to the requested precision, or exactly representable when the precision is automatic and the radix allows it. Text beyond the exponent range gives infinity or zero, and text that is not a number gives NaN; digit-by-digit input follows the same rule.',
  ['inputs'], 'every string and digit sequence, radix, precision and rounding mode',
  'Tests parse a few dozen strings and random round trips; ties, long inputs, huge exponents and malformed texts are not covered.',
  [N+'parser.rs', N+'strop.rs', N+'conv.rs', N+'mantissa/conv.rs', N+'ext.rs'],
  [('text automaton', N+'parser.rs'), ('radix to binary conversion', N+'conv.rs conv_from_dec/conv_from_num_dec/conv_from_binary')])
prop('C13', 'Formatting is exact enough to read back the same number',
  'Formatting a finite number in binary, octal or hexadecimal denotes exactly its value, so that parsing the text gives back the identical value; in decimal the digits are those of its value correctly rounded in the requested mode to at least as many digits as its precision is worth. Signs, zeros, infinities, NaN and the sign of the exponent are all preserved, and the digit-by-digit output agrees with the text.',
  ['inputs'], 'every number (any precision, exponent, subnormal), radix and rounding mode',
  'Digit generation has data-dependent recursion (zero padding of low halves); failures need special digit patterns that random tests do not hit.',
  [N+'strop.rs', N+'conv.rs', N+'mantissa/conv.rs', N+'ext.rs'],
  [('divide and conquer digit generation', N+'mantissa/conv.rs conv_to_dec'), ('format', N+'strop.rs format')])
prop('C14', 'Conversions from machine types and raw parts are exact',
  'Building a number from any machine integer or float, from words with sign and exponent, or from raw parts previously obtained from a number gives exactly that value (or an invalid-argument NaN when the requested precision cannot hold the type or the parts are inconsistent). Taking a number apart and rebuilding it gives the identical number, and the accessors and setters for sign, exponent, precision and digits agree with it.',
  ['inputs'], 'every machine value, precision, and every combination of raw parts',
  'Tests sample random integers and a few floats; subnormal floats, minimum integers, zero and inconsistent parts are rarely tried.',
  [N+'num.rs', N+'ext.rs', N+'mantissa/mantissa.rs'],
  [('integer conversion', N+'num.rs from_i*/from_u*'), ('float conversion', N+'num.rs from_f64/from_f32'), ('raw parts', N+'num.rs from_raw_parts/as_raw_parts')])
prop('C15', 'The inexact flag tells the truth',
  'A result of an arithmetic operation, function, conversion or constant in any mode other than None is flagged inexact exactly when it differs from the real-number result for its operands or when some operand was itself flagged inexact; exact results of exact operands are never flagged, and no inexact result is ever unflagged in any mode.',
  ['inputs', 'histories'], 'every operation, operand flags, precision and rounding mode, and chains of operations',
  'Tests hardly look at the flag, although correct rounding of composed expressions relies on it.',
  [N+'num.rs', N+'mantissa/mantissa.rs', N+'ops/*.rs', N+'ext.rs'],
  [('flag propagation', N+'num.rs, ops/*.rs set_inexact')])
prop('C16', 'Every number produced is well formed',
  'Every finite number any operation returns has the requested precision rounded up to whole words, an exponent in the documented range, a most significant bit set unless the number is zero (then its exponent is zero) or at the smallest exponent, and reports zero, subnormal and significant-bit count consistently with its digits.',
  ['inputs', 'histories'], 'every operation and every chain of operations on any operands',
  'Malformed results (denormalized mantissa, wrong significant-bit count) compare equal in tests and only corrupt later operations.',
  [N+'num.rs', N+'mantissa/mantissa.rs', N+'conv.rs', N+'ops/*.rs'],
  [('normalization', N+'mantissa/mantissa.rs normilize/maximize'), ('raw parts accessor', N+'ext.rs as_raw_parts')])
prop('C17', 'Running out of memory is reported, never wrong or fatal',
  'If any memory allocation inside an operation fails, the operation reports the memory-allocation error (as NaN with that error, or as an error result) or still returns the right value; it never panics and never returns a wrong value. After a failure, the same operands and the same constants cache keep giving right results. (Formatting traits and serializers of the standard library, which cannot report errors, and the first initialization of the static constants are not meant.)',
  ['fault_sequences', 'histories'], 'every operation and every subset of its allocations made to fail, followed by further use of the same cache',
  'No test injects an allocation failure.',
  [N+'common/buf.rs', N+'ops/consts/*.rs', N+'mantissa/*.rs', N+'conv.rs', N+'ext.rs'],
  [('fallible allocation', N+'common/buf.rs WordBuf::new, try_reserve_exact'), ('commit of cache state after success', N+'ops/consts/*.rs')],
  [('constants cache', 'must stay consistent when a step fails', N+'ops/consts')])
prop('C18', 'Every call with any argument returns',
  'No public call panics, overflows or runs forever for any arguments within reach of memory: unusable precisions, malformed text and digits, inconsistent raw parts, extreme exponents and any mix of special values all end in a value, an infinity or a NaN carrying the right error.',
  ['inputs'], 'every public operation and every argument, including unreasonable precisions',
  'Panic freedom is universal; tests use sane arguments.',
  [N+'ext.rs', N+'num.rs', N+'ops/*.rs', N+'parser.rs', N+'conv.rs', N+'ops/consts/*.rs'],
  [('precision validation', N+'num.rs p_assertion'), ('exponent overflow checks', N+'num.rs')])
prop('C19', 'The expression macro gives the value of the expression',
  'For every expression built from the supported literals, variables, constants, operators and functions, the macro returns the value of that expression over the real numbers rounded to the context precision and mode (up to a relative error of 2^-(p+32) made before that rounding), with intermediate precision increased so that cancellation and amplified errors do not reach the result; variables count as exact, expressions of sums, products and remainders that fit the precision are exact, operator precedence and argument order are those of the source text, and variables have the values they have outside the macro, whatever their names.',
  ['programs', 'inputs'], 'every expression tree, context and variable binding',
  'The macro is compiled but its expansion is exercised by no test of this workspace against the code in it; the space of programs is unbounded.',
  ['astro-float-macro/src/lib.rs', 'astro-float-macro/src/util.rs', N+'macro_util.rs', 'src/lib.rs'],
  [('error accounting per node', 'astro-float-macro/src/lib.rs traverse_*'), ('added error estimates', N+'macro_util.rs compute_added_err')])
prop('C20', 'Contexts bound exponents and hand over their settings',
  'A context always reports the precision and rounding mode last given to it and exponent limits clamped to the legal range around zero, through any sequence of changes, clones and conversions; its constants obey its precision and mode. An expression evaluated in a context returns infinity of the right sign when the exponent of the result exceeds its maximum, zero when it is below its minimum, and otherwise the value itself, for contexts and for tuples used as contexts alike; what happens when an intermediate value leaves the exponent range of the context while the result does not is left open.',
  ['histories', 'programs'], 'every sequence of context operations and every exponent range',
  'Tests construct one or two contexts.',
  [N+'ctx.rs', N+'macro_util.rs', 'astro-float-macro/src/lib.rs'],
  [('clamping', N+'ctx.rs new/set_emin/set_emax'), ('range check', N+'macro_util.rs check_exponent_range')],
  [('context', 'precision, mode, exponent limits, cache', N+'ctx.rs')])
prop('C21', 'Serialization round trips',
  'Serializing any number and deserializing the text gives back a number of the same value (and the same special value), and deserializing machine numbers or text gives the value they denote or an error.',
  ['inputs'], 'every number and every serialized form',
  'Tests round trip a handful of values.',
  [N+'for_3rd/ser.rs', N+'for_3rd/de.rs', N+'ext.rs'],
  [('serialize as text', N+'for_3rd/ser.rs'), ('deserialize', N+'for_3rd/de.rs')])
prop('C22', 'Random numbers respect their bounds',
  'A random number requested with a precision and an exponent range is a well-formed normal number of that precision whose exponent lies in the range, and an empty or illegal range is handled as documented.',
  ['inputs'], 'every precision and exponent range',
  'Tests draw from one or two ranges.',
  [N+'num.rs', N+'mantissa/mantissa.rs', N+'ext.rs'],
  [('random mantissa and exponent', N+'num.rs random_normal')])
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
    for d in P:
        f.write(json.dumps(d) + '\n')
