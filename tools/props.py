#!/usr/bin/env python3
"""Generates properties.jsonl and MANIFEST.json (run by hand after editing; not used by the checks)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FX, MA = 'include/eirin/fixed.hpp', 'include/eirin/math.hpp'
ALLI = 'every pair of representable values, for the predefined 32-bit and 64-bit types and the other listed formats (8/16/32/64-bit storage, 1 to 62 fraction bits, signed and unsigned, truncating and rounding)'
P = []
LEVEL = {}


def p(id, title, statement, over, text, why, files, mech, note='', level='proof'):
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
              'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech], 'observe_at': ['public API return values, raw values and exceptions'], 'hook_needed': None}})
    LEVEL[id] = (level, note)


p('C01', 'Addition, subtraction, negation, increment and decrement are exact',
  'For any two fixed-point values of one type whose exact sum (difference, negation, value plus or minus one) is representable, the operator, its compound-assignment form and the pre/post increment or decrement yield exactly that value, with no undefined behaviour. '
  'Compound forms update and return the left operand (also when both operands are the same object), post-forms return the old value, and the right operand is never modified.',
  ['inputs', 'configurations'], ALLI, 'tests add a handful of literals; 2^64 and 2^128 operand pairs per type remain', [FX], [('operators + - += -= unary - ++ --', FX)])
p('C02', 'Multiplication is the exact product rounded to the grid',
  'The product of two fixed-point values is the exact mathematical product rounded to the type\'s grid whenever that is representable: towards minus infinity for ordinary types, to nearest with ties away from zero for rounding types. '
  'The operator and its compound form always agree, multiplication commutes, one is neutral, and no operand pair causes undefined behaviour.',
  ['inputs', 'configurations'], ALLI, 'tests multiply a few literals; intermediate-width overflow, sign and rounding errors need specific operand pairs', [FX], [('operators * *=', FX)])
p('C03', 'Division and remainder: exact quotient rounded, zero divisors reported',
  'For a non-zero divisor the quotient is the exact quotient truncated towards zero (nearest, ties away from zero, for rounding types) whenever representable, and the remainder of two values has the sign of the dividend and satisfies the usual truncated-division identity. '
  'The checked division functions throw the divide-by-zero exception exactly when the divisor is zero, leaving the object unchanged, and otherwise agree with the operators.',
  ['inputs', 'configurations'], ALLI, 'tests divide a few literals and check one throwing call', [FX, 'include/eirin/error.hpp'], [('operators / /= % %=, divide, divide_by', FX)])
p('C04', 'Arithmetic mixed with integers equals arithmetic on the integer\'s value',
  'Adding, subtracting, multiplying, dividing or taking the remainder of a fixed-point value and a built-in integer of any width and signedness, in either operand order, in compound form or through the checked division functions, gives the exact result for the integer\'s mathematical value (quotients truncated towards zero for an integer divisor) whenever operands and result are representable. '
  'The checked divisions by an integer throw the divide-by-zero exception exactly for zero.',
  ['inputs', 'configurations'], 'every fixed-point value and every value of int16/uint8/int32/uint32/int64/uint64 operands', 'tests use small positive int operands only', [FX], [('mixed operators, divide(integral), divide_by(integral)', FX)])
p('C05', 'Comparisons and hashing agree with the represented values',
  'Equality, ordering and three-way comparison of two fixed-point values of one type always give the ordering of the represented numbers, and equal values hash equally. '
  'The tolerant comparisons (nearly equal, not equal, greater, less, greater-or-equal, less-or-equal) decide on the exact difference against the documented tolerance of 5/65536 for every operand pair, however far apart.',
  ['inputs', 'configurations'], ALLI, 'tests compare a few nearby literals', [FX], [('== <=> nearly_*', FX), ('fixed_hash', FX)])
p('C06', 'Conversions from and to integers and between fixed-point types keep the value',
  'Constructing a fixed-point value from any integer whose value is representable is exact, and converting back yields the same integer; converting a fixed-point value to an integer type yields its floor whenever that fits. '
  'Converting between fixed-point types keeps the value exactly when the target has at least as many fraction bits, and otherwise truncates towards zero (or rounds to nearest, ties away from zero, when the target type rounds), whenever the result is representable.',
  ['inputs', 'configurations'], 'every integer value of every width; every source value of 30 source/target type pairs', 'tests convert a few constants', [FX], [('integral constructor and conversion, fixed-to-fixed constructor, from_fixed_num_value', FX)])
p('C07', 'Conversions from and to floating point',
  'Constructing a fixed-point value from a finite floating-point number whose scaled value is in range gives the scaled value truncated towards zero, or rounded to nearest (ties away from zero) for rounding types. '
  'Converting a fixed-point value to double or float gives the double or float nearest to the represented number (exact whenever the raw value fits the significand), so every 32-bit value survives a round trip through double.',
  ['inputs', 'configurations'], 'every float/double in range; every fixed-point value', 'tests convert a few literals', [FX], [('floating-point constructor and conversion', FX)])
p('C08', 'Sign, integer part, fraction and limits decompose every value consistently',
  'For every value the sign query is true exactly for negative values, the integer part is the integer part of its magnitude, and the fractional part is the signed remainder, so the three recombine to the value. '
  'The numeric limits and the predefined extreme constants are the smallest and largest raw values, and every value lies between them.',
  ['inputs', 'configurations'], 'every value of the listed types, including the lowest', 'tests decompose a couple of positive numbers', [FX, MA], [('signbit, integral_part, fractional_part, numeric_limits', FX)])
p('C09', 'floor, ceil, trunc, round, abs, min, max, fmod and modf are exact',
  'For every value floor is the largest integer not above it, ceil the smallest integer not below it (the largest value of the type when that integer is out of range), trunc the integer towards zero, round the nearest integer with ties away from zero (when representable), and abs, min and max are the mathematical ones. '
  'modf splits a value into its floor and the non-negative rest, and fmod returns the dividend minus the divisor times the floored quotient whenever the intermediate values are representable.',
  ['inputs', 'configurations'], 'every value (pair of values) of the listed types', 'tests try a few literals; negative fractions, exact integers and values next to the limits are the failing cases', [MA], [('ceil floor trunc round abs min max fmod modf', MA)])
p('C10', 'Square root and hypot are accurate and total',
  'The square root of every non-negative 16.16 value is exactly the largest representable number whose square does not exceed the argument, and for every other supported type the square of the result r differs from the argument by at most 5/65536 plus 4(1+r) units in the last place; zero maps to zero and negative arguments give minus one. '
  'The hypotenuse functions return the square root of the (rounded) sum of squares whenever the squares and their sum are representable.',
  ['inputs', 'configurations'], 'every value; every pair and triple in range', 'tests check five arguments', [MA], [('sqrt hypot', MA)])
p('C11', 'Logarithms: domain and accuracy',
  'The base-2, natural and decimal logarithms throw the domain error exactly for arguments that are zero or negative, and otherwise return the true logarithm r within 4 units in the last place for base two, 4+|r| units for the natural and 3+|r| units for the decimal logarithm. '
  'Powers of two have exact base-2 logarithms, and the base-2 logarithm never decreases.',
  ['inputs', 'configurations'], 'every value', 'tests check a handful of arguments', [MA], [('log2 log log10', MA)])
p('C12', 'Exponential function: accuracy and range',
  'exp(0) is exactly one, and for every argument whose exponential is representable the result is within a relative error of 1.2e-6 plus (4+x) units in the last place of the true exponential. '
  'For negative arguments, however large, the result is within 1.2e-6 times the true value plus 4 units in the last place, and never negative; no argument in range causes undefined behaviour.',
  ['inputs', 'configurations'], 'every value in range', 'tests check a handful of arguments', [MA], [('exp', MA)])
p('C13', 'Integer and fixed-point powers',
  'Raising a value to a non-negative integer power gives, whenever all intermediate products are representable, the product by repeated squaring within a small relative error per multiplication, exact for integral bases; the zeroth power is one and zero to a positive power is zero. '
  'Raising to a fixed-point exponent agrees with the integer power when the exponent is integral (also for negative bases), throws the domain error for negative bases with non-integral exponents, and is otherwise within a small relative error of the true power.',
  ['inputs', 'configurations'], 'every base and exponent for which the result is in range', 'tests check a handful of pairs', [MA], [('pow', MA)])
p('C14', 'Sine, cosine and tangent: accuracy, range and poles',
  'For every argument the sine and cosine are within 4e-6 plus 4 units in the last place of the true value, plus one unit per full turn reduced away, never leave [-1, 1] by more than that error, and no argument, including the extreme ones, causes undefined behaviour. '
  'The tangent is the quotient of sine and cosine, and throws the domain error exactly when the cosine is too small for the quotient to be representable.',
  ['inputs', 'configurations'], 'every value', 'tests compare a few dozen angles', [MA], [('sin cos tan', MA)])
p('C15', 'Inverse trigonometric functions: accuracy and domain',
  'The arctangent of every value is within 2.1e-4 plus 4 units in the last place of the true value, is odd (the extreme values saturate), and never exceeds half a turn\'s quarter by more than that error. '
  'Arcsine and arccosine throw the domain error exactly for arguments outside [-1, 1], and inside are within 2.1e-4 plus 6 units in the last place (16.16 values) or 1.4e-3 plus 4 units (all other types) of the true value, with the exact end points.',
  ['inputs', 'configurations'], 'every value', 'tests check a few arguments', [MA], [('atan asin acos', MA)])
p('C16', 'Mathematical constants are correct to the last place',
  'Every predefined mathematical constant of every supported fixed-point type, including the per-type constants for pi and its multiples and e, is the true constant truncated (or rounded, for rounding types) to the grid, up to one unit in the last place for formats of up to 32 fraction bits. ',
  ['configurations'], 'every constant and every listed type', 'tests only print them', ['include/eirin/numbers.hpp', FX], [('numbers::*_v, fixed_num::pi() etc.', 'include/eirin/numbers.hpp')])
p('C17', 'Parsing text gives the written number or reports failure',
  'Every string parser accepts an optional minus sign, digits and an optional fraction, of any length, and yields the written number truncated towards zero: never larger in magnitude than the written number, less than 11 units in the last place below it, and exactly truncated for short fractions and integers; text whose value is out of range is rejected and leaves the output untouched, and no text, however long or malformed, is read out of bounds or overflows. '
  'The strict parsers reject any other character, the prefix parser stops at the first one, and the pointer-returning parser reports how far it read or the start on failure.',
  ['inputs'], 'every byte sequence of every length', 'tests parse a few literals', [FX, 'include/eirin/io/parse.hpp'], [('detail::parse, fixed_from_cstring, f32_from_cstring, io::parse, literals', FX)])
p('C18', 'Stream extraction reads the written number or fails cleanly',
  'Reading a fixed-point value from a stream consumes exactly an optional minus sign, digits and an optional fraction, and stores the written number to within the same truncation error as the parsers. '
  'If the number is out of range, or the stream is already at its end or has already failed, the stream fails and the variable keeps its value, for every input and every length.',
  ['inputs'], 'every character sequence', 'tests read a few numbers', [FX], [('operator>>', FX)])
p('C19', 'Stream output is the exact expansion of the value',
  'Inserting a fixed-point value into a stream writes the exact expansion of the represented number in the stream\'s base (decimal by default), with a leading minus sign for negative values only, no superfluous fraction, and the case of hexadecimal digits chosen by the stream. '
  'Reading the decimal text back gives the same value up to the parser\'s truncation error.',
  ['inputs', 'configurations'], 'every value, bases 2, 8, 10 and 16', 'tests print a few values', [FX], [('copy_as_chars_to, operator<<', FX)])
p('C20', 'Formatting honours the format specification and the value',
  'Formatting a fixed-point value produces the decimal expansion of the represented number truncated (not rounded) to the requested precision (six digits by default) for the requested presentation and precision, the requested sign, base prefix and case, and exactly the requested minimum width filled on the requested side (zeros go between sign or prefix and digits). '
  'Every format specification in the grammar is accepted, everything else is rejected with the format error.',
  ['inputs', 'configurations'], 'every value and every format specification', 'tests format a few values', ['include/eirin/io/format.hpp'], [('fixed_num_formatter, std::formatter specialisation', 'include/eirin/io/format.hpp')])
p('C21', 'The permuted congruential engine is a deterministic, seekable sequence',
  'The engine\'s output is a pure function of its parameters, its seed and its position: seeding restarts the sequence, two engines compare equal exactly when they will produce the same sequence from the same seed and position, and discarding n outputs equals calling the engine n times, for every n. '
  'Outputs always lie within the advertised minimum and maximum.',
  ['inputs', 'histories'], 'every seed, position, and interleaving of calls, seeding, copying and discarding', 'tests draw numbers from one seed', ['include/eirin/random.hpp'], [('permuted_congruential_engine', 'include/eirin/random.hpp')])
p('C22', 'Random adapters stay in range and forward their parameters',
  'The distribution adapters only ever return values in the closed range of the parameters in force (those passed with the call, else those stored), map the underlying integer draw one-to-one onto raw values, and report the stored parameters unchanged. '
  'The engine adapter returns exactly the underlying engine\'s output reinterpreted as a raw value, and seeding, discarding and comparing adapters equals doing so on the underlying engine.',
  ['inputs', 'histories'], 'every parameter pair and every underlying draw', 'tests draw some numbers with default parameters', ['include/eirin/detail/distribution.hpp', 'include/eirin/random.hpp'], [('fixed_int_distribution_adapter, fixed_distribution_adapter, fixed_random_engine_adapter', 'include/eirin/detail/distribution.hpp')])
p('C23', 'CORDIC sine is accurate',
  'The CORDIC sine of every 32-bit and 64-bit fixed-point angle x is within 32+|x|/pi units in the last place of the true sine. '
  'It is odd, and no argument causes undefined behaviour.',
  ['inputs'], 'every value of the two predefined types', 'tests compare a few angles', ['include/eirin/ext/cordic.hpp'], [('cordic_sine', 'include/eirin/ext/cordic.hpp')])
p('C24', 'Vectorised angle reduction equals the scalar reduction in every lane',
  'Each lane of the 4-lane and 2-lane angle reductions is the lane\'s angle minus a whole number of turns, that number being the angle divided by a full turn truncated towards zero (up to the rounding of the reciprocal), lanes never influence one another and keep their order. '
  'The reduced angle keeps the sign of the angle x and is smaller in magnitude than a full turn times 1+|x|/2^64.',
  ['inputs'], 'every 64-bit value in every lane', 'tests print one vector', ['include/eirin/ext/simd_math.hpp'], [('simd_reduce_angle, simd_reduce_angle_2', 'include/eirin/ext/simd_math.hpp')])
p('C25', 'Cube root and degree/radian conversion',
  'The cube root of every value is the largest representable number whose cube does not exceed the magnitude of the argument, with the argument\'s sign (the lowest value is treated as the negated largest one); it is odd and total. '
  'Converting between degrees and radians multiplies by the rounded conversion factors with an error of at most 182+19|x| units in the last place for degrees and 5+|x|/180 units for radians, whenever the intermediate values are representable.',
  ['inputs', 'configurations'], 'every value', 'tests check a few arguments', [MA], [('cbrt degrees radians', MA)])

TECH = 'contract-based deductive verification of the real code (VCs from clang\'s IR of the headers, discharged by SMT, interval-polynomial arithmetic and loop invariants)'
open(os.path.join(V, 'properties.jsonl'), 'w').write(''.join(json.dumps(x) + '\n' for x in P))
checks, na = [], []
NA = {}
exec(open(os.path.join(V, 'tools', 'levels.py')).read())
for x in P:
    i = x['id']
    if os.path.exists(os.path.join(V, 'specs', i + '.py')):
        lv, note = LV.get(i, ('proof', ''))
        checks.append({'property': i, 'quick_cmd': 'python3-vt /verif/check.py %s quick' % i, 'thorough_cmd': 'python3-vt /verif/check.py %s thorough' % i,
                       'evidence_file': 'evidence/%s.json' % i, 'technique': TECHS.get(i, TECH), 'level': lv,
                       'level_note': (note or 'Every obligation (functional postconditions and absence of undefined behaviour) is discharged for all inputs of each listed instantiation.') + ' ' + COMMON})
    else: na.append({'property': i, 'reason': NA.get(i, 'check not built yet')})
json.dump({'version': 1, 'setup_cmd': 'python3-vt -c "import z3" && clang++-18 --version >/dev/null', 'checks': checks, 'not_applicable': na,
           'notes': 'No hooks in /repo: contracts are kept in /verif/specs and applied to the IR clang generates from the current headers on every run.'},
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not claimed')
