from specs.common import *
PROP = 'C06'
INSTS = ['f32', 'f64', 'f32_20', 'f16_8', 'f8_4', 'r32', 'u32_16', 'f64_40']
INSTS += [x for x in ARITH_T if x not in INSTS]
OPS = []
N1 = lambda c: c.f < c.n - 1
for ty in ['i32', 'u32', 'i64', 'u64', 'i16', 'u16', 'i8', 'u8', 'bool']:
    OPS.append(Op('from_' + ty, 'v:' + ty, 'T', 'return N(v).internal_value();', lambda c, v: c.fits(scale(v, c.one)), lambda c, r, v: [('exact', eq(r, scale(v, c.one)))], when=N1))
for ty in ['i32', 'u32', 'i64', 'u64', 'i16', 'i8']:
    lo, hi = rng(ty)
    OPS.append(Op('to_' + ty, 'a:T', ty, 'return static_cast<%s>(mk<N>(a));' % {'i32': 'int32_t', 'u32': 'uint32_t', 'i64': 'int64_t', 'u64': 'uint64_t', 'i16': 'int16_t', 'i8': 'int8_t'}[ty],
                  (lambda lo, hi: lambda c, a: between(lo, fdiv(a, c.one), hi))(lo, hi), lambda c, r, a: [('floor', eq(r, fdiv(a, c.one)))]))
OPS.append(Op('raw', 'a:T', 'T', 'return N::from_internal_value(a).internal_value();', None, lambda c, r, a: [('raw round trip', eq(r, a))]))
OPS.append(Op('roundtrip_int', 'v:i64', 'i64', 'return static_cast<int64_t>(N(v));', lambda c, v: c.fits(scale(v, c.one)), lambda c, r, v: [('integer round trip', eq(r, v))], when=N1))
PAIRS = [('f32', 'f64'), ('f64', 'f32'), ('f16_8', 'f32'), ('f32', 'f16_8'), ('f16_8', 'f64'), ('f64', 'f16_8'), ('f8_4', 'f64'), ('f64', 'f8_4'), ('f32_20', 'f32'), ('f32', 'f32_20'),
         ('f64_40', 'f32'), ('f32', 'f64_40'), ('f64_16', 'f64'), ('f64', 'f64_16'), ('f32', 'r32'), ('r32', 'f32'), ('f64', 'r32'), ('r32', 'f64'), ('f64', 'r16_8'), ('r64', 'r32'), ('f32', 'r16_8'),
         ('f32_20', 'r32'), ('f32_24', 'f64_40'), ('f64_40', 'r32'), ('u16_8', 'u32_16'), ('u32_16', 'u16_8'), ('f32_8', 'f32_24'), ('f32_24', 'f32_8'), ('f32', 'f32'), ('f64', 'f64')]
def conv(s, d, x):
    if d.f >= s.f: return scale(x, 1 << (d.f - s.f))
    k = 1 << (s.f - d.f)
    return half_away(x, const(k)) if d.r else tdiv(x, const(k))
for a, b in PAIRS:
    s, d = ALL[a], ALL[b]
    OPS.append(Op('conv_%s_%s' % (a, b), [('x', s.T)], d.T, '%s using S = %s; using D = %s; return D(S::from_internal_value(x)).internal_value();' % (
        '', s.using().split('=')[1].rstrip(';'), d.using().split('=')[1].rstrip(';')),
        (lambda s, d: lambda c, x: d.fits(conv(s, d, x)))(s, d), (lambda s, d: lambda c, r, x: [('value kept up to the target grid', eq(r, conv(s, d, x)))])(s, d), perinst=False))
    if d.f >= s.f and d.n - d.f >= s.n - s.f:
        OPS.append(Op('widen_%s_%s' % (a, b), [('x', s.T)], s.T, 'using S = %s; using D = %s; return S(D(S::from_internal_value(x))).internal_value();' % (
            s.using().split('=')[1].rstrip(';'), d.using().split('=')[1].rstrip(';')), None, lambda c, r, x: [('widening round trip is lossless', eq(r, x))], perinst=False))
GROUP = 24
