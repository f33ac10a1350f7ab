from specs.common import *
PROP = 'C03'
INSTS, INSTS_THOROUGH = ARITH + ARITH_T, []
pre = lambda c, a, b: and_(ne(b, 0), c.fits(div_spec(c, a, b)))
pre0 = lambda c, a, b: c.fits(div_spec(c, a, b))        # tdiv by 0 is 0 in the term language
q = lambda c, a, b: div_spec(c, a, b)
rem = lambda c, a, b: trem(a, b)
TRY = 'try { %s return 0; } catch (const eirin::divide_by_zero&) { x = p.internal_value(); return 1; } catch (...) { return 2; }'
thr = lambda r, b: ('throws divide_by_zero exactly for zero', eq(r, B(eq(b, 0))))
prerem = lambda c, a, b: and_(ne(b, 0), not_(and_(eq(a, c.min), eq(b, -1)))) if c.sg else ne(b, 0)
OPS = [
    Op('div', 'a:T b:T', 'T', 'return (mk<N>(a) / mk<N>(b)).internal_value();', pre, lambda c, r, a, b: [('quotient', eq(r, q(c, a, b)))]),
    Op('div_eq', 'a:T b:T', 'T', 'N p = mk<N>(a); const N d = mk<N>(b); x = (p /= d).internal_value(); if (d.internal_value() != b) x = ~x; return p.internal_value();', pre,
       lambda c, r, x, a, b: [('quotient', eq(r, q(c, a, b))), ('returned', eq(x, q(c, a, b)))], outs='x:T'),
    Op('div_self', 'a:T', 'T', 'N p = mk<N>(a); p /= p; return p.internal_value();', lambda c, a: and_(ne(a, 0), c.fits(const(c.one))), lambda c, r, a: [('x / x is one', eq(r, c.one))]),
    Op('divide', 'a:T b:T', 'int', 'const N p = mk<N>(a); ' + TRY % 'x = p.divide(mk<N>(b)).internal_value(); if (p.internal_value() != a) return 3;', pre0,
       lambda c, r, x, a, b: [thr(r, b), ('quotient or unchanged', eq(x, ite(eq(b, 0), a, q(c, a, b))))], outs='x:T'),
    Op('divide_by', 'a:T b:T', 'int', 'N p = mk<N>(a); ' + TRY % 'N& w = p.divide_by(mk<N>(b)); if (&w != &p) return 3; x = p.internal_value();', pre0,
       lambda c, r, x, a, b: [thr(r, b), ('quotient or unchanged', eq(x, ite(eq(b, 0), a, q(c, a, b))))], outs='x:T'),
    Op('rem', 'a:T b:T', 'T', 'return (mk<N>(a) % mk<N>(b)).internal_value();', prerem, lambda c, r, a, b: [('remainder', eq(r, rem(c, a, b)))]),
    Op('rem_eq', 'a:T b:T', 'T', 'N p = mk<N>(a); x = (p %= mk<N>(b)).internal_value(); return p.internal_value();', prerem,
       lambda c, r, x, a, b: [('remainder', eq(r, rem(c, a, b))), ('returned', eq(x, rem(c, a, b)))], outs='x:T'),
]
GROUP = 4
