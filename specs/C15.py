from specs.common import *
from vc import real
from vc.real import within, num
from fractions import Fraction as Q
PROP = 'C15'
INSTS = ['f32', 'f64', 'f32_20', 'f16_8', 'r32']
INSTS_THOROUGH = ['f32_8', 'f32_24', 'f64_16', 'f64_20', 'f64_40', 'r64', 'r16_8']
EX = lambda c: (c.min, c.max) if c.n <= 32 else None
EX1 = lambda c: (max(c.min, -c.one - 10000), c.one + 10000)
SG = lambda c: c.sg and c.f >= 4 and c.n - c.f >= 5
TRY = 'try { x = eirin::%s(mk<N>(a)).internal_value(); return 0; } catch (const std::domain_error&) { return 1; } catch (...) { return 2; }'
CODE = 'return eirin::%s(mk<N>(a)).internal_value();'
dom = lambda c, r, x, a: [('domain error exactly outside [-1, 1]', eq(r, B(gt(tabs(a), c.one))))]
NM = lambda c, a: ne(a, c.min)
IN = lambda c, a: between(-c.one, a, c.one)
EX1 = lambda c: (-c.one, c.one) if c.f <= 32 else None
TL = '(std::is_same_v<T_, int32_t> && F_ == 16 ? 2.1e-4L + 6 * ULP : 1.4e-3L + 4 * ULP)'
def cp(fn): return [('within the error bound', 'AB(V(ret) - std::%s(V(a))) <= %s' % (fn, TL))]
def ratan(c, x, r): return within(r - real.atan(x), num(Q(21, 10 ** 5) + Q(4, c.one)))
def tol(c): return num(Q(21, 10 ** 5) + Q(6, c.one) if c.T == 'i32' and c.f == 16 else Q(14, 10 ** 4) + Q(4, c.one))
def bracket(s, x):
    """s >= arcsine of x, shown through the sine; s in [-pi, pi]"""
    h = real.PI().shr(1, 2)
    lo, hi = s.range()
    if lo > h.range()[1]: return True
    if lo < -h.range()[0]: return False     # not below -pi/2
    if hi <= h.range()[0]: return real.sin(s) - x
    return real.sin(real.TM([lo])) - x
def rasin(c, x, r):
    return [bracket(r + tol(c), x), bracket(-(r - tol(c)), -x)]
def racos(c, x, r): return rasin(c, x, real.PI().shr(1, 2) - r)
NQ = lambda c: not (c.T == 'i32' and c.f == 16)   # the bit-by-bit square root is outside the Taylor models; 2^17 inputs are enumerated
BOX = real.Direct({})
OPS = [
    Op('atan', 'a:T', 'T', CODE % 'atan', None, None, exhaust=EX, when=SG, real=real.Direct({'within the error bound': ratan}), cpost=[('within the error bound', 'AB(V(ret) - std::atan(V(a))) <= 2.1e-4L + 4 * ULP')]),
    Op('atan_odd', 'a:T', 'bool', 'return eirin::atan(mk<N>(a)) == -eirin::atan(mk<N>((T)-a));', NM, lambda c, r, a: [('odd', eq(r, 1))], exhaust=EX, when=SG, real=BOX),
    Op('asin', 'a:T', 'T', CODE % 'asin', IN, None, exhaust=EX1, when=SG, real=real.Direct({'within the error bound': rasin}, when=NQ), cpost=cp('asin')),
    Op('acos', 'a:T', 'T', CODE % 'acos', IN, None, exhaust=EX1, when=SG, real=real.Direct({'within the error bound': racos}, when=NQ), cpost=cp('acos')),
    Op('asin_domain', 'a:T', 'int', TRY % 'asin', None, dom, outs='x:T', when=SG, budget=20000, real=BOX),
    Op('acos_domain', 'a:T', 'int', TRY % 'acos', None, dom, outs='x:T', when=SG, budget=20000, real=BOX),
]
GROUP = 1
TMO = 8
WALL = 400
