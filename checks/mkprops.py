"""Writes properties.jsonl and MANIFEST.json from one table."""
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def m(*xs):
    return [{'name': a, 'where': b} for a, b in xs]


T = []


def P(pid, title, statement, over, q, why, files, mech, technique, level, note, na=None, state=None):
    d = {'id': pid, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': q}, 'why_tests_cant': why,
         'anchors': {'files': files, 'mechanism': mech}}
    T.append((d, technique, level, note, na))


AI = 'abstract interpretation of MIR (relational word-sequence domain, inferred loop invariants)'
AIN = ('Sound-for-proof within the domain: every case counted as proved holds for operands of every length, trusting rustc MIR, the models of '
       'core/alloc and the engine. Violations are reported only from inhabited, unmerged exits of 2 to 3 word operands. Undecided cases are counted in the evidence and never reported.')

P('P01', 'Addition and subtraction are exact for every operand form',
  'For every pair of big numbers, and for a big number with any primitive integer, + and - (by value, by reference, assigning) yield the exact integer result. '
  'Subtracting a larger unsigned number panics, and no other operand values panic.',
  ['inputs'], 'all operand values of all lengths, all sign combinations, all ownership forms',
  'Tests sample pairs; a carry lost only for particular words, a wrong branch for one ownership form or one sign/length combination is not sampled.',
  ['src/add.rs', 'src/add_ops.rs', 'src/buffer.rs', 'src/helper_macros.rs', 'src/ubig.rs'],
  m(('carry and borrow propagation', 'src/add.rs'), ('dispatch on representation and sign', 'src/add_ops.rs'), ('normalisation of the result', 'src/ubig.rs: From<Buffer>')),
  AI, 'other', AIN)
P('P02', 'Multiplication dispatches exactly: signs, word operands, ownership forms',
  'Multiplying big numbers with each other or with primitive integers gives the exact product of the values with the exact sign, in every ownership and operand form.',
  ['inputs'], 'all operand values, all sign combinations, all ownership forms; long-by-long magnitude products up to what the analysis of the schoolbook routine reaches',
  'Tests sample pairs; one form (for instance assignment from a reference, a negative primitive, a word factor with a carry out of the top) can be wrong alone.',
  ['src/mul_ops.rs', 'src/mul/mod.rs', 'src/mul/simple.rs', 'src/math.rs'],
  m(('dispatch on representation and sign', 'src/mul_ops.rs'), ('word by number product', 'src/mul/mod.rs')), AI, 'other', AIN)
P('P03', 'The division family returns the quotient and remainder it names',
  'Truncating division and remainder satisfy a = q*b + r with |r| < |b| and r of the sign of a; Euclidean division and remainder satisfy it with 0 <= r < |b|. '
  'Every form (separate, combined, assigning, primitive operand) agrees, and division by zero panics in each.',
  ['inputs'], 'all operand values, sign combinations, ownership forms and primitive types; multi-word divisors through the relation of the forms to the magnitude division',
  'Tests sample pairs; the rounding and sign cases multiply with ownership forms and primitive types, and most combinations are never executed.',
  ['src/div_ops.rs', 'src/div/mod.rs', 'src/div/simple.rs', 'src/fast_divide.rs'],
  m(('sign cases', 'src/div_ops.rs'), ('division by a word', 'src/div/mod.rs'), ('division by zero', 'src/error.rs: panic_divide_by_0')), AI, 'other', AIN)
P('P04', 'Bitwise operations act on infinite two\'s complement',
  'And, or, xor, and-not and not on big numbers and primitives equal the operation on the infinite two\'s complement expansions of the operands, in every ownership form.',
  ['inputs'], 'all operand values, sign combinations and ownership forms', 'Tests sample pairs; sign cases times ownership forms times relative lengths are far more than the sampled ones.',
  ['src/bits.rs'], m(('sign cases reduced to magnitudes', 'src/bits.rs'), ('word loops', 'src/bits.rs')), AI, 'other', AIN)
P('P05', 'Shifts are multiplication and flooring division by powers of two',
  'x << n equals x * 2^n, and x >> n equals the floor of x / 2^n, also for negative x, for every n; no shift panics other than for exceeding the size limit.',
  ['inputs'], 'all values and all shift amounts', 'Word-aligned and unaligned shifts, carries out of the top word and floor rounding of negatives depend on the operand; tests sample few.',
  ['src/shift_ops.rs', 'src/shift.rs'], m(('word loops', 'src/shift.rs'), ('dispatch', 'src/shift_ops.rs')), AI, 'other', AIN)
P('P06', 'Comparison, equality and hash agree with the numeric order',
  'The orderings and equality of big numbers are those of the integers they stand for; equal numbers hash equally.',
  ['inputs'], 'all pairs of values', 'A total order over unbounded values cannot be sampled; one wrong sign or length case breaks sorted containers silently.',
  ['src/cmp.rs', 'src/ubig.rs', 'src/ibig.rs', 'src/buffer.rs'], m(('sign and length dispatch', 'src/cmp.rs'), ('derived equality over canonical representation', 'src/ubig.rs')), AI, 'other', AIN)
P('P08', 'Integer conversions are exact and fail closed',
  'Converting from any primitive integer or bool, and between the signed and unsigned big types, preserves the value; converting to a type succeeds exactly when the value fits it, with the same value.',
  ['inputs'], 'all values and all type pairs, by value and by reference', 'The boundary values of 14 types in 4 forms are only partly sampled.',
  ['src/convert.rs', 'src/primitive.rs'], m(('range checks', 'src/convert.rs'), ('sign and magnitude', 'src/primitive.rs')), AI, 'other', AIN)
P('P09', 'Bit queries and updates match the binary expansion',
  'Testing, setting and clearing a bit, the bit length, the number of trailing zeros, power-of-two tests and the next power of two agree with the binary expansion of the number for every bit index.',
  ['inputs'], 'all values and all bit indices', 'Indices beyond the top word, in the top word and at word boundaries behave differently; tests sample few (a defect here survived them).',
  ['src/bits.rs'], m(('word and bit index split', 'src/bits.rs')), AI, 'other', AIN)
P('P10', 'Negation, absolute value and sign functions are exact',
  'Negation, absolute value (signed and unsigned) and signum return the exact number, and zero never gets a negative sign.',
  ['inputs'], 'all values and forms', 'Zero, one-word and multi-word values in each ownership form are sampled only partly.',
  ['src/sign.rs', 'src/ibig.rs'], m(('sign normalisation', 'src/ibig.rs: from_sign_magnitude')), AI, 'other', AIN)
P('P11', 'Powers are exact',
  'x.pow(n) is the n-fold product of x with its sign, x.pow(0) is 1 also for zero, and the num-traits power agrees with it in every ownership form.',
  ['inputs'], 'all bases; exponents are analysed one at a time up to 128',
  'Special cases (0, 1, 2, powers of two, exponents 0 to 2, odd exponents of negative numbers) and the square-and-multiply loop take different paths; tests sample few.',
  ['src/pow.rs'], m(('special cases', 'src/pow.rs'), ('square and multiply', 'src/pow.rs'), ('sign', 'src/pow.rs')), AI, 'other', AIN)
P('P12', 'Identities, defaults and clones carry the value they name',
  'zero, one and default are 0, 1 and 0; is_zero, is_positive and is_negative answer for the number; clone and clone_from yield an equal number and leave the source alone.',
  ['inputs', 'histories'], 'all values, and for clone_from all pairs of old and new value', 'clone_from takes different paths by the representations and capacities of both operands; tests sample few pairs.',
  ['src/ubig.rs', 'src/ibig.rs', 'src/buffer.rs', 'src/num_traits.rs'], m(('clone and clone_from', 'src/ubig.rs, src/buffer.rs'), ('identities', 'src/num_traits.rs')), AI, 'other', AIN)
AIM = ('abstract interpretation of MIR over a symbolic script (make a ring, make its elements, apply the operation, read the residue back)')
AIMN = ('Violations are reported only from inhabited, unmerged exits with moduli of one or two words. The extended gcd, the prepared divisor and the word loops are used through their contracts; '
        'the prepared divisor and the word loops are decided by P03 and P02, the extended gcd is trusted. Undecided cases are counted in the evidence and never reported.')
P('P13', 'Modular arithmetic refuses what it cannot do',
  'Operations on elements of two different rings panic, also when both rings have the same modulus; a ring modulo zero, division by a non-invertible element and a negative power of one panic.',
  ['inputs', 'histories'], 'all moduli, all pairs of rings (one-word and multi-word mixed), all elements, every ownership form',
  'The test must be present in each of the forms; one form that forgets it silently computes in the wrong ring and no existing test exercises most pairs.',
  ['src/modular/modulo.rs', 'src/modular/add.rs', 'src/modular/mul.rs', 'src/modular/div.rs', 'src/modular/cmp.rs', 'src/modular/modulo_ring.rs'],
  m(('same ring test', 'src/modular/modulo.rs: check_same_ring'), ('mismatched representations', 'src/modular/modulo.rs: panic_different_rings'), ('ring identity', 'src/modular/cmp.rs')), AIM, 'other', AIMN)
P('P14', 'Modular arithmetic yields the exact residue below the modulus',
  'Elements made from a number or any primitive, sums, differences, products, negations, quotients, inverses and powers of elements have the residue that integer arithmetic modulo n gives, in 0..n, in every ownership form; equality of elements is equality of residues.',
  ['inputs'], 'all moduli, all elements; exponents are analysed one at a time up to 2^128',
  'Values are kept shifted by the leading zeros of the modulus; a wrong final subtraction or shift shows only for particular moduli, and power windows only for particular exponents.',
  ['src/modular/add.rs', 'src/modular/mul.rs', 'src/modular/div.rs', 'src/modular/pow.rs', 'src/modular/convert.rs', 'src/modular/modulo.rs', 'src/modular/cmp.rs'],
  m(('shifted representation', 'src/modular/convert.rs'), ('sum and difference', 'src/modular/add.rs'), ('product', 'src/modular/mul.rs'), ('sliding windows', 'src/modular/pow.rs')), AIM, 'other', AIMN)
AIS = 'abstract interpretation of MIR (unrolled over strings of fixed shape with symbolic digits)'
AISN = ('Each string shape is decided for all of its digits at once; shapes cover every radix and the lengths around the number of digits in a word, up to three words '
        'and a half. Strings of more than 256 words (divide and conquer) are not analysed. Only inhabited exits are reported.')
P('P16', 'Parsing yields exactly the number written, or the right error',
  'from_str_radix, from_str, from_str_with_radix_prefix and the num_traits form return the number that the digits spell in the radix, in either letter case, after an optional sign (a minus only for IBig) and prefix; '
  'no digits at all is NoDigits, any other character is InvalidDigit, and a radix outside 2..=36 panics.',
  ['inputs'], 'all strings; those up to three and a half words long are analysed by shape, each for all digits',
  'There are 35 radixes with different chunk sizes, and digits that straddle words; a test string meets one radix and one length.',
  ['src/parse/mod.rs', 'src/parse/power_two.rs', 'src/parse/non_power_two.rs', 'src/radix.rs'],
  m(('signs and prefixes', 'src/parse/mod.rs'), ('straddling digits', 'src/parse/power_two.rs: parse_large'), ('groups of digits', 'src/parse/non_power_two.rs: parse_chunk'), ('digits per word', 'src/radix.rs: RadixInfo')),
  AIS, 'other', AISN)
P('P23', 'Byte string conversions are exact, minimal and inverse to each other',
  'from_le_bytes and from_be_bytes read the number that the bytes spell; to_le_bytes and to_be_bytes write that number with no superfluous zero byte at the top and the empty string for zero, so that reading back gives the number.',
  ['inputs'], 'all numbers and all byte strings; lengths around the word size are analysed one at a time',
  'Lengths that are not a multiple of the word size, leading zero bytes and the byte order of the last partial word each take their own path; tests sample few.',
  ['src/convert.rs', 'src/primitive.rs'], m(('chunking', 'src/convert.rs: from_le_bytes_large, from_be_bytes_large'), ('partial words', 'src/primitive.rs: word_from_le_bytes_partial'), ('skipped top bytes', 'src/convert.rs: to_le_bytes')), AI, 'other', AIN)

P('P26', 'Conversion to floating point is correctly rounded',
  'to_f32 and to_f64 return the float nearest to the number, ties to the even mantissa, and infinity of its sign when that exceeds the largest finite float.',
  ['inputs'], 'all numbers; those of up to three words are searched for violations',
  'A dropped sticky bit is wrong only for numbers a hair away from a tie, with the difference in a word far below the mantissa.',
  ['src/convert.rs'], m(('rounding with a sticky bit', 'src/convert.rs: to_f32_nontrivial, to_f64_nontrivial'), ('overflow to infinity', 'src/convert.rs')), AI, 'other', AIN)


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for d, *_ in T:
            f.write(json.dumps(d) + '\n')
    man = {'version': 1, 'setup_cmd': './setup.sh',
           'checks': [{'property': d['id'], 'quick_cmd': './check.sh ' + d['id'], 'thorough_cmd': 'VERIF_TIER=thorough ./check.sh ' + d['id'],
                       'technique': t, 'level': l, 'level_note': n} for d, t, l, n, na in T if not na],
           'not_applicable': [{'property': d['id'], 'reason': na} for d, t, l, n, na in T if na],
           'notes': 'Static analysis of the MIR of /repo, dumped by a rustc driver on every run. See DESIGN.md.'}
    json.dump(man, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)


if __name__ == '__main__':
    main()
