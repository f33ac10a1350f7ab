from specs.common import *
PROP = 'C02'
INSTS, INSTS_THOROUGH = ARITH + ARITH_T, []
pre = lambda c, a, b: c.fits(mul_spec(c, a, b))
def wide(x, c):  # the narrowing conversion of an unrepresentable product is modulo 2^n
    return t.ws(c.n, x) if c.sg else t.wu(c.n, x)
post = lambda c, r, a, b: [('product', eq(r, mul_spec(c, a, b)))]
OPS = [
    Op('mul', 'a:T b:T', 'T', 'return (mk<N>(a) * mk<N>(b)).internal_value();', pre, post),
    Op('mul_eq', 'a:T b:T', 'T', 'N p = mk<N>(a); const N q = mk<N>(b); x = (p *= q).internal_value(); if (q.internal_value() != b) x = ~x; return p.internal_value();', pre,
       lambda c, r, x, a, b: [('product', eq(r, mul_spec(c, a, b))), ('returned', eq(x, mul_spec(c, a, b)))], outs='x:T'),
    Op('sqr_eq', 'a:T', 'T', 'N p = mk<N>(a); p *= p; return p.internal_value();', lambda c, a: c.fits(mul_spec(c, a, a)), lambda c, r, a: [('square', eq(r, mul_spec(c, a, a)))]),
    # the two spellings agree on every pair, representable or not, and neither is undefined
    Op('mul_agree', 'a:T b:T', 'T', 'N p = mk<N>(a); p *= mk<N>(b); x = p.internal_value(); return (mk<N>(a) * mk<N>(b)).internal_value();', None,
       lambda c, r, x, a, b: [('* and *= agree', eq(r, x))], outs='x:T'),
    Op('mul_comm', 'a:T b:T', 'T', 'x = (mk<N>(b) * mk<N>(a)).internal_value(); return (mk<N>(a) * mk<N>(b)).internal_value();', None,
       lambda c, r, x, a, b: [('commutes', eq(r, x))], outs='x:T'),
    Op('mul_one', 'a:T', 'T', 'return (mk<N>(a) * N(1)).internal_value();', None, lambda c, r, a: [('one is neutral', eq(r, a))], when=lambda c: c.f < c.n - 1),
]
GROUP = 6
