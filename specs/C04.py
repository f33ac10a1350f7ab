from specs.common import *
PROP = 'C04'
INSTS = ['f32', 'f64', 'f16_8', 'r32', 'u32_16', 'f64_16']
INSTS_THOROUGH = ['f32_20', 'f8_4', 'r64', 'f16_8w']
OPS = []
CTN = {'i8': 'int8_t', 'u8': 'uint8_t', 'i16': 'int16_t', 'u16': 'uint16_t', 'i32': 'int32_t', 'u32': 'uint32_t', 'i64': 'int64_t', 'u64': 'uint64_t'}
def mkops(ty):
    k = lambda c, v: scale(v, c.one)
    f2 = lambda e: (lambda c, a, v: and_(c.fits(k(c, v)), c.fits(e(c, a, v))))
    f1 = lambda e: (lambda c, a, v: c.fits(e(c, a, v)))
    def o(name, code, pre, e): OPS.append(Op(name + '_' + ty, 'a:T v:' + ty, 'T', code, pre, lambda c, r, a, v: [('value', eq(r, e(c, a, v)))]))
    add = lambda c, a, v: a + k(c, v)
    sub = lambda c, a, v: a - k(c, v)
    rsub = lambda c, a, v: k(c, v) - a
    mul = lambda c, a, v: a * v
    div = lambda c, a, v: tdiv(a, v)
    rdiv = lambda c, a, v: div_spec(c, k(c, v), a)
    rem = lambda c, a, v: trem(a, k(c, v))
    rrem = lambda c, a, v: trem(k(c, v), a)
    nz = lambda p: (lambda c, a, v: and_(ne(v, 0), p(c, a, v)))
    nzf = lambda p: (lambda c, a, v: and_(ne(a, 0), p(c, a, v)))
    o('add', 'return (mk<N>(a) + v).internal_value();', f2(add), add)
    o('radd', 'return (v + mk<N>(a)).internal_value();', f2(add), add)
    o('add_eq', 'N p = mk<N>(a); N& q = (p += v); return &q == &p ? p.internal_value() : ~p.internal_value();', f2(add), add)
    o('sub', 'return (mk<N>(a) - v).internal_value();', f2(sub), sub)
    o('rsub', 'return (v - mk<N>(a)).internal_value();', f2(rsub), rsub)
    o('sub_eq', 'N p = mk<N>(a); N& q = (p -= v); return &q == &p ? p.internal_value() : ~p.internal_value();', f2(sub), sub)
    o('mul', 'return (mk<N>(a) * v).internal_value();', f1(mul), mul)
    o('rmul', 'return (v * mk<N>(a)).internal_value();', f1(mul), mul)
    o('mul_eq', 'N p = mk<N>(a); N& q = (p *= v); return &q == &p ? p.internal_value() : ~p.internal_value();', f1(mul), mul)
    o('div', 'return (mk<N>(a) / v).internal_value();', nz(f1(div)), div)
    o('div_eq', 'N p = mk<N>(a); N& q = (p /= v); return &q == &p ? p.internal_value() : ~p.internal_value();', nz(f1(div)), div)
    o('rdiv', 'return (v / mk<N>(a)).internal_value();', nzf(f2(rdiv)), rdiv)
    o('rem', 'return (mk<N>(a) % v).internal_value();', nz(lambda c, a, v: and_(c.fits(k(c, v)), not_(and_(eq(a, c.min), eq(k(c, v), -1))))), rem)
    o('rrem', 'return (v % mk<N>(a)).internal_value();', nzf(lambda c, a, v: and_(c.fits(k(c, v)), not_(and_(eq(k(c, v), c.min), eq(a, -1))))), rrem)
    post = lambda c, r, x, a, v: [('throws divide_by_zero exactly for zero', eq(r, B(eq(v, 0)))), ('quotient or unchanged', eq(x, ite(eq(v, 0), a, tdiv(a, v))))]
    TRY = 'try { %s return 0; } catch (const eirin::divide_by_zero&) { x = p.internal_value(); return 1; } catch (...) { return 2; }'
    OPS.append(Op('divide_' + ty, 'a:T v:' + ty, 'int', 'const N p = mk<N>(a); ' + TRY % 'x = p.divide(v).internal_value(); if (p.internal_value() != a) return 3;', f1(div), post, outs='x:T'))
    OPS.append(Op('divide_by_' + ty, 'a:T v:' + ty, 'int', 'N p = mk<N>(a); ' + TRY % 'N& q = p.divide_by(v); x = p.internal_value(); if (&q != &p) return 3;', f1(div), post, outs='x:T'))
for ty in ['i32', 'u32', 'i64', 'u64', 'i16', 'u8']: mkops(ty)
GROUP = 16
