from specs.common import *
PROP = 'C05'
INSTS, INSTS_THOROUGH = ARITH + ARITH_T, []
OPS = []
for n, s, e in [('eq', '==', eq), ('ne', '!=', ne), ('lt', '<', lt), ('le', '<=', le), ('gt', '>', gt), ('ge', '>=', ge)]:
    OPS.append(Op(n, 'a:T b:T', 'bool', 'return mk<N>(a) %s mk<N>(b);' % s, None, (lambda e: lambda c, r, a, b: [('compares the values', eq(r, B(e(a, b))))])(e)))
OPS.append(Op('spaceship', 'a:T b:T', 'int', 'auto o = mk<N>(a) <=> mk<N>(b); return o < 0 ? -1 : (o > 0 ? 1 : (o == 0 ? 0 : 2));', None,
              lambda c, r, a, b: [('ordering', eq(r, ite(lt(a, b), const(-1), ite(gt(a, b), const(1), const(0)))))]))
OPS.append(Op('hash', 'a:T b:T', 'bool', 'eirin::fixed_hash<N> h; return h(mk<N>(a)) == h(mk<N>(b));', lambda c, a, b: eq(a, b), lambda c, r, a, b: [('equal values hash equally', eq(r, 1))]))
OPS.append(Op('hash2', 'a:T', 'bool', 'eirin::fixed_hash<N> h; N p = mk<N>(a), q = mk<N>(a); return h(p) == h(q) && h(p) == h(p);', None, lambda c, r, a: [('hash is a function of the value', eq(r, 1))]))
def eps(c):
    num, k = 5 << 48, 64 - c.f
    e = num >> k
    if c.r: e += (num >> (k - 1)) & 1
    return e
S = lambda c: c.sg
# a type whose integer range is below 5 * 2^-16 cannot hold the tolerance
OK = lambda c: c.sg and c.fits(const(eps(c))) is t.TRUE
near = lambda f: (lambda c, r, a, b: [('tolerance', eq(r, B(f(c, a - b))))])
for n, f in [('nearly_eq', lambda c, d: between(-eps(c), d, eps(c))), ('nearly_ne', lambda c, d: not_(between(-eps(c), d, eps(c)))),
             ('nearly_gt', lambda c, d: gt(d, eps(c))), ('nearly_lt', lambda c, d: lt(d, -eps(c))),
             ('nearly_gt_eq', lambda c, d: ge(d, -eps(c))), ('nearly_lt_eq', lambda c, d: le(d, eps(c)))]:
    OPS.append(Op(n, 'a:T b:T', 'bool', 'return mk<N>(a).%s(mk<N>(b));' % n, None, near(f), when=OK))
GROUP = 16
