from specs.common import *
from vc.real import Periodic
from vc.contracts import Contract
from vc.term import app
from fractions import Fraction as Q
PROP = 'C14'
INSTS = ['f32', 'f64', 'f32_20', 'f16_8', 'r32']
INSTS_THOROUGH = ['f32_8', 'f32_24', 'f64_16', 'f64_20', 'f64_40', 'r64', 'r16_8']
EX = lambda c: (c.min, c.max) if c.n <= 32 else None
TOL = '4e-6L + 4 * ULP + (AB(V(a)) / (2 * PI) + %d) * ULP'
SG = lambda c: c.sg and c.f >= 4 and c.n - c.f >= 5
def limit(c): return max(1, 1 << max(0, 2 * c.f + 1 - c.n))
def tanpost(c, r, s, k, x, a):
    bad = le(tabs(k), limit(c))
    return [('domain error exactly when the cosine is too small', eq(r, B(bad))), ('quotient of sine and cosine', implies(not_(bad), eq(x, div_spec(c, s, k))))]
PS = Periodic('within the error bound', 'sin', lambda c: Q(4, 10 ** 6) + Q(4, c.one), 0)
PC = Periodic('within the error bound', 'cos', lambda c: Q(4, 10 ** 6) + Q(5, c.one), 1)
def mag(P): return lambda c, r, a: [('magnitude', le(tabs(r), P.limit(c)))]
sin = Op('sin', 'a:T', 'T', 'return eirin::sin(mk<N>(a)).internal_value();', None, mag(PS), exhaust=EX, when=SG,
         cpost=[('within the error bound', 'AB(V(ret) - std::sin(V(a))) <= ' + TOL % 0)], real=PS)
cos = Op('cos', 'a:T', 'T', 'return eirin::cos(mk<N>(a)).internal_value();', None, mag(PC), exhaust=EX, when=SG,
         cpost=[('within the error bound', 'AB(V(ret) - std::cos(V(a))) <= ' + TOL % 1)], real=PC)
Contract('sin', '%N eirin::sin<%A, ', 'v', sin, fn=lambda c, a: app('sin_raw', (a,), -PS.limit(c), PS.limit(c)), when=SG)
Contract('cos', '%N eirin::cos<%A, ', 'v', cos, fn=lambda c, a: app('cos_raw', (a,), -PC.limit(c), PC.limit(c)), when=SG)
OPS = [sin, cos,
    Op('tan', 'a:T', 'int', 's = eirin::sin(mk<N>(a)).internal_value(); k = eirin::cos(mk<N>(a)).internal_value(); x = 0; '
       'try { x = eirin::tan(mk<N>(a)).internal_value(); return 0; } catch (const std::domain_error&) { return 1; } catch (...) { return 2; }', None, tanpost, outs='s:T k:T x:T', exhaust=EX, when=SG, uses=['sin', 'cos']),
]
GROUP = 3
TMO = 8
WALL = 40
