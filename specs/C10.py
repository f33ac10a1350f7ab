from specs.common import *
from vc import real
from vc.loops import Cut
from vc.contracts import Contract
PROP = 'C10'
INSTS = ['f32', 'r32', 'f64', 'f32_20', 'f32_8', 'f16_8', 'f64_16']
INSTS_THOROUGH = ['r64', 'f64_20', 'f64_40', 'f32_24', 'f32_10', 'r32_20', 'r16_8']
Q = lambda c: c.T == 'i32' and c.f == 16
NQ = lambda c: not Q(c) and c.sg and c.f <= c.n - 4
EX = lambda c: (c.min, c.max) if c.n <= 32 else None
def sq(c, r, a): return and_(le(r * r, scale(a, c.one)), lt(scale(a, c.one), (r + 1) * (r + 1)))
signs = lambda c, r, a: [('minus one for negative arguments', implies(lt(a, 0), eq(r, -c.one))), ('zero exactly for zero', iff(eq(r, 0), eq(a, 0))),
                         ('non-negative for non-negative arguments', implies(ge(a, 0), ge(r, 0)))]
SQ = 'return eirin::sqrt(mk<N>(a)).internal_value();'
def bits(p):
    """4 v b = 2^32 a - q^2 while the bits of the root are found one by one; the third loop works on a quarter of that"""
    b = p.b.val
    inv = [('remainder', eq(scale(p.v, 4 * b), scale(p.I['a'], 1 << (32 if p.n < 2 else 30)) - p.q * p.q)),
           ('remainder below the next step', lt(p.v, scale(p.q, 2) + 4 * b))]
    if p.n == 2 and p.it == 0: inv.append(('bit already decided', lt(p.v, p.q + b)))
    if p.n == 1 and b == 1 << 30: inv.append(('first remainder', lt(p.v, 1 << 31)))
    return inv
def mult(p): return {'q': p.b.val * (4 if p.n < 2 or p.it else 2), **({'v': 2} if p.n == 1 and p.b.val < 1 << 30 else {})}
CUT = Cut('eirin::sqrt<', {'q': (64, False, 0, 1 << 33), 'v': (64, False, 0, 1 << 34)}, {'b': (64, False)}, bits, mult, keys=['b'])
sqrt16 = Op('sqrt', 'a:T', 'T', SQ, None, lambda c, r, a: signs(c, r, a) + [('root rounded down', implies(ge(a, 0), sq(c, r, a)))], when=Q, exhaust=EX, split=True, loops=[CUT])
TOL = '5.0L / 65536 + 4 * ULP * (1 + %s)'
def near(c, r, x, k=0):
    """|r^2 - x| <= 5/65536 + 4 ulp (1 + r) + k ulp with x a multiple of ulp^2, everything scaled by 2^(2f)"""
    return le(tabs(r * r - x), scale(r, 4) + ((5 << (2 * c.f)) // 65536 + (4 + k) * c.one))
sqrtn = Op('sqrt_newton', 'a:T', 'T', SQ, None, lambda c, r, a: signs(c, r, a) + [('square of the result within tolerance', implies(ge(a, 0), near(c, r, scale(a, c.one))))],
           when=NQ, exhaust=EX, real=real.Direct({}))
OPS = [sqrt16,
    sqrtn,
]
Contract('sqrt', '%N eirin::sqrt%T(', 'v', sqrtn, when=NQ)
Contract('sqrt16', '%N eirin::sqrt%T(', 'v', sqrt16, when=Q)
def fitsq(c, *xs):
    s, ps = const(0), []
    for x in xs:
        m = mul_spec(c, x, x)
        s = s + m
        ps += [c.fits(m), c.fits(s)]
    return and_(*ps)
def sumsq(c, *xs):
    s = const(0)
    for x in xs: s = s + mul_spec(c, x, x)
    return s
OPS += [
    Op('hypot2', 'a:T b:T', 'T', 'return eirin::hypot(mk<N>(a), mk<N>(b)).internal_value();', fitsq, lambda c, r, a, b: [('root of the sum of squares', sq(c, r, sumsq(c, a, b)))], when=Q, uses=['sqrt16']),
    Op('hypot3', 'a:T b:T d:T', 'T', 'return eirin::hypot(mk<N>(a), mk<N>(b), mk<N>(d)).internal_value();', fitsq,
       lambda c, r, a, b, d: [('root of the sum of squares', sq(c, r, sumsq(c, a, b, d)))], when=Q, uses=['sqrt16']),
    Op('hypot2n', 'a:T b:T', 'T', 'return eirin::hypot(mk<N>(a), mk<N>(b)).internal_value();', fitsq,
       lambda c, r, a, b: [('non-negative', ge(r, 0)), ('square of the result within tolerance', near(c, r, a * a + b * b, 2))], when=NQ, uses=['sqrt']),
    Op('hypot3n', 'a:T b:T d:T', 'T', 'return eirin::hypot(mk<N>(a), mk<N>(b), mk<N>(d)).internal_value();', fitsq,
       lambda c, r, a, b, d: [('non-negative', ge(r, 0)), ('square of the result within tolerance', near(c, r, a * a + b * b + d * d, 3))], when=NQ, uses=['sqrt']),
]
GROUP = 3
TMO = 8
WALL = 400
