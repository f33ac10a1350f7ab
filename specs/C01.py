from specs.common import *
PROP = 'C01'
INSTS, INSTS_THOROUGH = ARITH + ARITH_T, []
def fit(e): return lambda c, *a: c.fits(e(c, *a))
def is_(e): return lambda c, r, *a: eq(r, e(c, *a))
add, sub = (lambda c, a, b: a + b), (lambda c, a, b: a - b)
neg = lambda c, a: const(0) - a
inc, dec = (lambda c, a: a + c.one), (lambda c, a: a - c.one)
def two(e, old=None): return lambda c, r, x, *a: [('value returned', eq(r, (old or e)(c, *a))), ('object', eq(x, e(c, *a)))]
one_ok = lambda c: c.f < c.n - 1
def fit1(e): return lambda c, a: c.fits(e(c, a))
OPS = [
    Op('add', 'a:T b:T', 'T', 'return (mk<N>(a) + mk<N>(b)).internal_value();', fit(add), is_(add)),
    Op('sub', 'a:T b:T', 'T', 'return (mk<N>(a) - mk<N>(b)).internal_value();', fit(sub), is_(sub)),
    Op('neg', 'a:T', 'T', 'return (-mk<N>(a)).internal_value();', fit(neg), is_(neg)),
    Op('add_eq', 'a:T b:T', 'T', 'N p = mk<N>(a); const N q = mk<N>(b); x = (p += q).internal_value(); if (q.internal_value() != b) x = ~x; return p.internal_value();', fit(add), two(add), outs='x:T'),
    Op('sub_eq', 'a:T b:T', 'T', 'N p = mk<N>(a); const N q = mk<N>(b); x = (p -= q).internal_value(); if (q.internal_value() != b) x = ~x; return p.internal_value();', fit(sub), two(sub), outs='x:T'),
    Op('add_self', 'a:T', 'T', 'N p = mk<N>(a); p += p; return p.internal_value();', fit(lambda c, a: a + a), is_(lambda c, a: a + a)),
    Op('sub_self', 'a:T', 'T', 'N p = mk<N>(a); p -= p; return p.internal_value();', None, is_(lambda c, a: const(0))),
    Op('preinc', 'a:T', 'T', 'N p = mk<N>(a); T r = (++p).internal_value(); x = p.internal_value(); return r;', fit1(inc), two(inc), outs='x:T', when=one_ok),
    Op('postinc', 'a:T', 'T', 'N p = mk<N>(a); T r = (p++).internal_value(); x = p.internal_value(); return r;', fit1(inc), two(inc, lambda c, a: a), outs='x:T', when=one_ok),
    Op('predec', 'a:T', 'T', 'N p = mk<N>(a); T r = (--p).internal_value(); x = p.internal_value(); return r;', fit1(dec), two(dec), outs='x:T', when=one_ok),
    Op('postdec', 'a:T', 'T', 'N p = mk<N>(a); T r = (p--).internal_value(); x = p.internal_value(); return r;', fit1(dec), two(dec, lambda c, a: a), outs='x:T', when=one_ok),
    Op('assign', 'a:T b:T', 'T', 'N p = mk<N>(a); N q = mk<N>(b); p = q; N s(p); x = s.internal_value(); return p.internal_value();', None, lambda c, r, x, a, b: [('copy', and_(eq(r, b), eq(x, b)))], outs='x:T'),
]
GROUP = 12
