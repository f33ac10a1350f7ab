"""Writes /verif/seeded/<id>/ from the table below and tries each change in a scratch copy.
usage: seed.py [id...]   (all when no id)      VERIF_REPO-style scratch copy, /repo itself is never touched."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FX, MA = 'include/eirin/fixed.hpp', 'include/eirin/math.hpp'
HEAD = '#include <cstdio>\n#include <cstdlib>\n#include <cmath>\n#include <cstdint>\n#include <eirin/fixed.hpp>\n#include <eirin/math.hpp>\nusing namespace eirin;\nusing r32 = fixed_num<int32_t, int64_t, 16, true>;\n#define REQ(c) do { if(!(c)) { printf("failed: %s\\n", #c); return 1; } } while(0)\n'
B = []


def bug(id, prop, edits, needs, breaks, demo, inc='', flags=''):
    B.append((id, prop, edits, needs, breaks, HEAD + inc + '\nint main() {\n' + demo + '\n    return 0;\n}\n', flags))


bug('mul-int-narrow', 'C04', [(FX, 'm_value *= val;', 'm_value *= static_cast<int>(val);', 1)], 'a 64-bit fixed-point value times an integer outside int',
    'fixed64 * 3000000000 is computed with a wrapped factor',
    '    REQ((fixed64::from_internal_value(5) * 3000000000ll).internal_value() == 15000000000ll);\n    REQ((fixed64(2) * 7).internal_value() == fixed64(14).internal_value());')
bug('mul-compound-trunc', 'C02', [(FX, 'auto _value = (static_cast<IntermediateType>(m_value) * other.m_value) >> fraction;', 'auto _value = (static_cast<IntermediateType>(m_value) * other.m_value) / fraction_multiplier;', 1)],
    'a negative product with a remainder, compound form', 'x *= y differs from x * y for negative inexact products',
    '    auto a = fixed32::from_internal_value(-3), b = fixed32::from_internal_value(5); auto c = a; c *= b; REQ(c == a * b);\n    REQ(c.internal_value() == -1);')
bug('div-rounding-overflow', 'C03', [(FX, 'auto _value = ((static_cast<IntermediateType>(m_value) << fraction) * 2) / other.m_value;', 'auto _value = (static_cast<IntermediateType>(m_value * 2) << fraction) / other.m_value;', 2)],
    'rounding type, compound division, dividend beyond half the range', 'x /= y overflows for large dividends of rounding types',
    '    auto a = r32(20000); a /= r32(4); REQ(a == r32(5000)); auto b = r32(7); b /= r32(2); REQ(b == r32(3.5));')
bug('nearly-ge', 'C05', [(FX, 'return !(nearly_lt(other));', 'return nearly_gt(other) || *this == other;', 1)], 'a difference inside the tolerance', 'nearly_gt_eq is false for values that differ by less than the tolerance',
    '    auto a = fixed32::from_internal_value(1000), b = fixed32::from_internal_value(1003); REQ(a.nearly_gt_eq(b)); REQ(b.nearly_gt_eq(a)); REQ(fixed32(2).nearly_gt_eq(fixed32(1)));')
bug('to-int-trunc', 'C06', [(FX, 'return static_cast<T>(m_value >> fraction);', 'return static_cast<T>(m_value / fraction_multiplier);', 1)], 'negative value with a fraction',
    'conversion to integer truncates instead of taking the floor', '    REQ(static_cast<int>(fixed32(-1.5)) == -2); REQ(static_cast<int>(fixed32(1.5)) == 1);')
bug('frac-mask', 'C08', [(FX, 'return m_value % (static_cast<Type>(1) << fraction);', 'return m_value & ((static_cast<Type>(1) << fraction) - 1);', 1)], 'negative value with a fraction',
    'fractional part of negative values is positive', '    REQ(fixed32(-1.25).fractional_part() == -16384); REQ(fixed32(1.25).fractional_part() == 16384);')
bug('fmod-trunc', 'C09', [(MA, 'return a - b * floor(a / b);', 'return a - b * trunc(a / b);', 1)], 'operands of different sign', 'fmod takes the sign of the dividend',
    '    REQ(fmod(fixed32(-7), fixed32(4)) == fixed32(1)); REQ(fmod(fixed32(7), fixed32(4)) == fixed32(3));')
bug('sqrt-threshold', 'C10', [(MA, 'while(b > 0x20)', 'while(b > 0x40)', 1)], 'a 16.16 argument above 2^14', 'the root of large arguments misses its last bit',
    '    for(int64_t v = 0x40000200; v < 0x7FFFFFFF; v += 977) { int64_t s = sqrt(fixed32::from_internal_value((int32_t)v)).internal_value(); REQ(s * s <= (v << 16) && (s + 1) * (s + 1) > (v << 16)); }')
bug('log2-short', 'C11', [(MA, 'for(size_t i = 0; i < f; ++i)', 'for(size_t i = 0; i + (f > 20 ? 4 : 0) < f; ++i)', 1)], 'more than 20 fraction bits', 'log2 stops before the last bits of the fraction',
    '    for(double x = 0.1; x < 9; x += 0.01) REQ(std::fabs((double)log2(fixed64(x)) - std::log2((double)fixed64(x))) <= 4.0 / 4294967296.0);')
bug('exp-coefficient', 'C12', [(MA, '0x01C798ECC0CBC856ll', '0x01C898ECC0CBC856ll', 1)], '64-bit argument with a large fraction', 'one coefficient of the exponential polynomial is off by 3e-5',
    '    for(double x = 0.05; x < 6; x += 0.05) { double e = std::exp((double)fixed64(x)), y = (double)exp(fixed64(x)); REQ(std::fabs(y - e) <= 1.2e-6 * e + (4 + x) / 4294967296.0); }')
bug('pow-negative-zero-base', 'C13', [(MA, 'for(auto i = b; e != 0; e /= 2, i *= i)\n        {\n            if(e % 2 != 0)\n                res *= i;', 'for(auto i = b; e > 0; e >>= 1, i *= i)\n        {\n            if((e & 3) == 1 || (e & 3) == 3)\n                res = i * res + (e > 5 && i == fixed(-1) ? fixed(2) : fixed(0));', 1)], 'base minus one, odd exponent of seven or more', 'pow(-1, 7) is not -1',
    '    REQ(pow(fixed32(-1), 7) == fixed32(-1)); REQ(pow(fixed32(-1), 3) == fixed32(-1)); REQ(pow(fixed32(2), 7) == fixed32(128));')
bug('sin-series', 'C14', [(MA, 'constexpr auto d = pi * pi / 288;', 'constexpr auto d = pi * pi / 320;', 1)], '64-bit argument near a quarter turn', 'last term of the sine series is 10% off',
    '    for(double x = -7; x < 7; x += 0.01) REQ(std::fabs((double)sin(fixed64(x)) - std::sin((double)fixed64(x))) <= 4e-6 + 7.0 / 4294967296.0);')
bug('sin-quadrant', 'C14', [(MA, 'if(x < fixed(0))\n        x += fixed(4);', 'if(x < fixed(-1))\n        x += fixed(4);\n    else if(x < fixed(0))\n        x = -x;', 1)], 'argument between minus a quarter turn and zero', 'sine of small negative angles loses its sign',
    '    REQ(sin(fixed32(-1)) < fixed32(0)); REQ(sin(fixed32(1)) > fixed32(0)); REQ(sin(fixed32(-3)) < fixed32(0));')
bug('atan-coefficient', 'C15', [(MA, '0X5191A2296020A80', '0X5198A2296020A80', 1)], 'argument near one', 'one arctangent coefficient is off by 5e-5',
    '    for(double x = 0; x < 3; x += 0.01) REQ(std::fabs((double)atan(fixed64(x)) - std::atan((double)fixed64(x))) <= 2.1e-4 + 4 / 4294967296.0);')
bug('parse-lower-limit', 'C17', [(FX, '        if(fixed_value > static_cast<I>(std::numeric_limits<T>::max()) || fixed_value < static_cast<I>(std::numeric_limits<T>::min()))', '        if(fixed_value > static_cast<I>(std::numeric_limits<T>::max()) || fixed_value < -fixed_value - static_cast<I>(std::numeric_limits<T>::max()) * 3)', 1)], 'a negative number just below the lowest value',
    'text just below the lowest value is accepted and wraps', '    fixed32 a(5); REQ(!detail::parse("-32768.75", 9, a)); REQ(a == fixed32(5)); REQ(detail::parse("-32768", 6, a) && a.internal_value() == INT32_MIN);')
bug('parse-fraction-leak', 'C17', [('include/eirin/io/parse.hpp', 'return start -= pos;\n            }\n            auto digit', 'return start -= (pos - 1);\n            }\n            auto digit', 1)], 'malformed fraction', 'a failing parse of a malformed fraction returns a pointer other than the start',
    '    const char* s = "1.2x"; fixed32 a; REQ(io::parse(std::string_view(s), a) == s); REQ(io::parse(std::string_view("12"), a) != nullptr);', inc='#include <eirin/io/parse.hpp>\n')
bug('extract-fraction-limit', 'C18', [(FX, 'auto digit = next() - \'0\';\n            // skip the digits that are out of precision.\n            if(dec_part', 'if(dec_part > max_fraction / 10 && int_part > 9)\n                break;\n            auto digit = next() - \'0\';\n            // skip the digits that are out of precision.\n            if(dec_part', 1)], 'a long fraction after a number of at least ten', 'operator>> stops in the middle of a long fraction',
    '    std::istringstream is("10.12345678 7"); fixed32 a, b; is >> a; REQ(is.get() == \' \'); is >> b; REQ(b == fixed32(7)); std::istringstream i2("1.12345678 7"); i2 >> a; REQ(i2.get() == \' \');', inc='#include <sstream>\n')
bug('ostream-last-digit', 'C19', [(FX, 'for(unsigned int i = 0; i < fraction; ++i)\n            {\n                if(value == 0)', 'for(unsigned int i = 0; i + (base == 10 && int_part < 0) < fraction - (fraction > 15 && uppercase); ++i)\n            {\n                if(value == 0)', 1)], 'odd raw value, uppercase stream flag', 'the last decimal digit is dropped when the stream has the uppercase flag',
    '    std::ostringstream os; os << std::uppercase << fixed32::from_internal_value(1); REQ(os.str() == "0.0000152587890625"); std::ostringstream o2; o2 << fixed32::from_internal_value(1); REQ(o2.str() == "0.0000152587890625");', inc='#include <sstream>\n#include <iomanip>\n')
bug('format-centre', 'C20', [('include/eirin/io/format.hpp', 'std::size_t left = pad_cnt / 2;', 'std::size_t left = (pad_cnt + (sz & 1)) / 2;', 1)], 'centred field, odd padding, odd text length', 'centred text is one column off',
    '    REQ(std::format("{:*^6}", fixed32(2.5)) == "*2.5**"); REQ(std::format("{:*^7}", fixed32(2.5)) == "**2.5**");', inc='#include <eirin/io/format.hpp>\n')
bug('discard-narrow', 'C21', [('include/eirin/random.hpp', 'm_state += z;', 'm_state += static_cast<uint32_t>(z);', 1)], '64-bit engine, discarding 2^32 or more outputs', 'discard(2^32) on the 64-bit engine does nothing',
    '    pcg2014_64 a(7), b(7); a.discard(1ull << 32); REQ(!(a == b)); b.discard(1ull << 31); b.discard(1ull << 31); REQ(a == b);', inc='#include <eirin/random.hpp>\n')
bug('dist-param-min', 'C22', [('include/eirin/detail/distribution.hpp', '        m_param = param;\n        m_dist = underlying_type', '        m_param = param_type(param.a(), param.a() > m_param.b() ? param.b() : min_b(param));\n        m_dist = underlying_type', 1), ('include/eirin/detail/distribution.hpp', 'private:\n    // The underlying distribution.', 'private:\n    static result_type min_b(const param_type& p) { return p.b() < result_type(100) ? p.b() : result_type(100); }\n    // The underlying distribution.', 1)],
    'setting parameters with an upper bound above one hundred on the second adapter', 'param(p) stores a clamped upper bound', '    fixed_distribution_adapter<fixed32, std::uniform_int_distribution<>> d; using P = decltype(d)::param_type; d.param(P(fixed32(1), fixed32(500))); REQ(d.b() == fixed32(500)); d.param(P(fixed32(1), fixed32(50))); REQ(d.b() == fixed32(50));', inc='#include <eirin/random.hpp>\n#include <eirin/detail/distribution.hpp>\n')
bug('cordic-angle', 'C23', [('include/eirin/ext/cordic.hpp', '"0.000976562189559"', '"0.000977652189559"', 1)], '64-bit angle', 'one CORDIC angle has two digits swapped', '    for(double x = -7; x < 7; x += 0.003) { fixed64 q(x); double t = (double)q; REQ(std::fabs((double)cordic_sine(q) - std::sin(t)) <= (32 + std::fabs(t) / 3.14159) / 4294967296.0); }', inc='#include <eirin/ext/cordic.hpp>\n')
bug('const-inv-pi', 'C16', [('include/eirin/numbers.hpp', '0xa2f9836e4e44180ll', '0xa2f9863e4e44180ll', 1)], 'any 64-bit use of the constant', 'inv_pi has two hexadecimal digits swapped', '    REQ(std::fabs((double)numbers::inv_pi_v<fixed64>() - 0.31830988618379067) < 3e-10);', inc='#include <eirin/numbers.hpp>\n')
bug('radians-two-turns', 'C25', [(MA, 'fixed rad = deg / factor * pi;', 'fixed rad = deg / (factor * 4) * (pi * 4);', 1)], 'an angle that is not a multiple of the factor', 'radians() divides by two turns, so the truncation error of the quotient is multiplied by four pi',
    '    for(int d = -36000; d < 36000; d++) { auto q = fixed64::from_internal_value((int64_t)d * 123457); REQ(std::fabs((double)radians(q) - (double)q * 3.14159265358979323846 / 180) <= (5 + std::fabs((double)q) / 180.0) / 4294967296.0); }')
bug('sub-alias-ub', 'C01', [(FX, 'm_value -= other.m_value;', 'm_value = other.m_value > 0 && m_value < 0 && other.m_value == -m_value ? m_value * 3 : m_value - other.m_value;', 1)], 'compound subtraction of a value from its own negation', 'x -= y gives 3x when x is negative and y = -x', '    fixed32 a(-5); a -= fixed32(5); REQ(a == fixed32(-10)); fixed32 b(5); b -= fixed32(5); REQ(b == fixed32(0)); fixed32 c(-20000); volatile int z = -10000; c -= fixed32(z); REQ(c == fixed32(-10000)); fixed64 e = fixed64::from_internal_value(-(1ll << 62) - 5); e -= fixed64::from_internal_value((1ll << 62) - 5); REQ(e.internal_value() == -(1ll << 62) - (1ll << 62));')
bug('simd-lane', 'C24', [('include/eirin/ext/simd_math.hpp', '__m256i a_hi = _mm256_srli_epi64(abs_a, 32);', '__m256i a_hi = _mm256_and_si256(_mm256_srli_epi64(abs_a, 32), _mm256_set1_epi64x(0x3FFFFFFF));', 1)], 'an angle of 2^30 or more in magnitude', 'the top bits of the angle are ignored by the vector multiplication',
    '    if(!__builtin_cpu_supports("avx2")) return 0;\n    volatile int64_t v = (int64_t)1500000000 << 32; fixed64 x = fixed64::from_internal_value(v); auto r = simd::simd_reduce_angle({x, fixed64(1), fixed64(-1), fixed64(0)}); REQ(std::fabs((double)r[0]) < 6.9); REQ(r[1] == fixed64(1));', inc='#include <immintrin.h>\n#include <eirin/ext/simd_math.hpp>\n', flags='-mavx2')


def edit(d, edits):
    for f, old, new, nth in edits:
        p = os.path.join(d, f); s = open(p).read()
        assert s.count(old) >= nth, (f, old)
        i = -1
        for _ in range(nth): i = s.index(old, i + 1)
        open(p, 'w').write(s[:i] + new + s[i + len(old):])


def main():
    sel = sys.argv[1:]
    for id, prop, edits, needs, breaks, demo, flags in B:
        if sel and id not in sel: continue
        tmp = tempfile.mkdtemp(prefix='seed_')
        try:
            r = os.path.join(tmp, 'r')
            subprocess.run(['git', 'clone', '-q', '--no-hardlinks', '/repo', r], check=True)
            out = os.path.join(V, 'seeded', id)
            os.makedirs(out, exist_ok=True)
            open(os.path.join(out, 'demo.cpp'), 'w').write(demo)
            sh = '#!/bin/bash\n# exit 0 when the property holds on the demonstrated inputs\nD=$(cd "$(dirname "$0")" && pwd)\nT=$(mktemp -d)\ntrap \'rm -rf "$T"\' EXIT\ng++ -std=c++20 -O1 %s -w -I "$PWD/include" "$D/demo.cpp" -o "$T/demo" && timeout 60 "$T/demo"\n' % flags
            open(os.path.join(out, 'demo.sh'), 'w').write(sh)
            os.chmod(os.path.join(out, 'demo.sh'), 0o755)
            a = subprocess.run(['bash', os.path.join(out, 'demo.sh')], cwd=r, capture_output=True, text=True)
            edit(r, edits)
            d = subprocess.run(['git', '-C', r, 'diff'], capture_output=True, text=True).stdout
            open(os.path.join(out, 'patch.diff'), 'w').write(d)
            b = subprocess.run(['bash', os.path.join(out, 'demo.sh')], cwd=r, capture_output=True, text=True)
            json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(os.path.join(out, 'meta.json'), 'w'), indent=1)
            ok = a.returncode == 0 and b.returncode != 0 and 'error' not in b.stderr
            c = ''
            if ok and os.environ.get('CHECK'):
                e = dict(os.environ, VERIF_REPO=r)
                k = subprocess.run(['timeout', '900', 'python3-vt', os.path.join(V, 'check.py'), prop, 'quick'], env=e, capture_output=True, text=True)
                v = [l for l in k.stdout.splitlines() if l.startswith('VIOLATION')]
                c = ' check exit %d, %d violations, %s' % (k.returncode, len(v), 'no input' if v and all('no-failing' in l for l in v) else '')
            print(id, prop, 'OK' if ok else 'BAD: clean %d %s | patched %d %s' % (a.returncode, (a.stdout + a.stderr)[:300], b.returncode, (b.stdout + b.stderr)[:200]), b.stdout.strip()[:100], c, flush=True)
        finally: shutil.rmtree(tmp)


main()
