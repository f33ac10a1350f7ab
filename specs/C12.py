from specs.common import *
from vc import real
from vc.real import within, num, exp as rexp
from fractions import Fraction
PROP = 'C12'
INSTS = ['f32', 'f64', 'f32_20', 'f32_8', 'f16_8', 'r32', 'f64_16']
INSTS_THOROUGH = ['f32_24', 'f64_20', 'f64_40', 'r64', 'r16_8', 'f32_10']
import math
def top(c):
    """largest raw argument whose exponential is representable with the error bound"""
    return int((math.log(2.0 ** (c.n - 1 - c.f)) - 2.0 ** -7 - 64.0 / c.one) * c.one)
EX = lambda c: (c.min, top(c)) if c.n <= 32 else None
E = Fraction(12, 10 ** 7)
def pos(c, x, r):
    if x.range()[1] <= 0: return []
    e = rexp(x)
    return within(r - e, e * (num(E) + (x + 4).shr(1, c.one)))
def neg(c, x, r):
    if x.range()[0] >= 0: return []
    u = Fraction(1, c.one)
    lo, hi = x.range()
    if hi < -(60 << real.P):     # the exponential is below 2^-80
        return within(r, num(4 * u - Fraction(1, 1 << 80)))
    e = rexp(x)
    return within(r - e, e * E + 4 * u)
OPS = [
    Op('exp', 'a:T', 'T', 'return eirin::exp(mk<N>(a)).internal_value();', lambda c, a: le(a, top(c)),
       lambda c, r, a: [('one at zero', implies(eq(a, 0), eq(r, c.one))), ('not negative', ge(r, 0))], exhaust=EX, when=lambda c: c.sg and c.n - c.f >= 5 and c.f >= 4,
       real=real.Direct({'within the error bound (positive arguments)': pos, 'within the error bound (negative arguments)': neg}),
       cpost=[('within the error bound (positive arguments)', 'a <= 0 || AB(V(ret) - std::exp(V(a))) <= std::exp(V(a)) * (1.2e-6L + (4 + V(a)) * ULP)'),
              ('within the error bound (negative arguments)', 'a >= 0 || AB(V(ret) - std::exp(V(a))) <= 1.2e-6L * std::exp(V(a)) + 4 * ULP')]),
]
GROUP = 1
TMO = 8
WALL = 300
