from specs.common import *
import specs.callee
PROP = 'C09'
INSTS = ['f32', 'f64', 'f32_20', 'f32_8', 'f64_16', 'f64_40', 'f16_8', 'f8_4', 'r32', 'r64', 'u32_16']
INSTS += ['f32_24', 'f32_10', 'f64_20', 'f16_8w', 'r32_20', 'u16_8', 'f32_1', 'f32_30', 'f64_62']
fl = lambda c, a: scale(fdiv(a, c.one), c.one)
ce = lambda c, a: scale(fdiv(a + (c.one - 1), c.one), c.one)
tr = lambda c, a: scale(tdiv(a, const(c.one)), c.one)
ro = lambda c, a: scale(half_away(a, const(c.one)), c.one)
fm = lambda c, a, b: a - b * fdiv(div_spec(c, a, b), c.one)
def u(name, code, e, pre=None, lab='value', when=None):
    return Op(name, 'a:T', 'T', 'return %s.internal_value();' % code, pre, lambda c, r, a: [(lab, eq(r, e(c, a)))], when=when)
N1 = lambda c: c.f < c.n - 1
OPS = [
    u('floor', 'floor(mk<N>(a))', fl, lab='largest integer not above'),
    u('ceil', 'ceil(mk<N>(a))', lambda c, a: tmin(ce(c, a), const(c.max)), lab='smallest integer not below (largest value when out of range)'),
    u('trunc', 'trunc(mk<N>(a))', tr, lab='towards zero'),
    u('round', 'round(mk<N>(a))', ro, lambda c, a: c.fits(ro(c, a)), lab='nearest integer, ties away from zero'),
    u('abs', 'eirin::abs(mk<N>(a))', lambda c, a: tabs(a), lambda c, a: c.fits(tabs(a)), lab='magnitude'),
    Op('min', 'a:T b:T', 'T', 'return eirin::min(mk<N>(a), mk<N>(b)).internal_value();', None, lambda c, r, a, b: [('smaller', eq(r, tmin(a, b)))]),
    Op('max', 'a:T b:T', 'T', 'return eirin::max(mk<N>(a), mk<N>(b)).internal_value();', None, lambda c, r, a, b: [('larger', eq(r, tmax(a, b)))]),
    Op('modf', 'a:T', 'T', 'N ip; N fr = eirin::modf(mk<N>(a), ip); x = ip.internal_value(); return fr.internal_value();', None,
       lambda c, r, x, a: [('integer part is floor', eq(x, fl(c, a))), ('fraction', eq(r, fmod(a, c.one)))], outs='x:T'),
    Op('fmod', 'a:T b:T', 'T', 'return eirin::fmod(mk<N>(a), mk<N>(b)).internal_value();',
       lambda c, a, b: and_(ne(b, 0), c.fits(div_spec(c, a, b)), c.fits(fm(c, a, b)), c.fits(b * fdiv(div_spec(c, a, b), c.one))),
       lambda c, r, a, b: [('a minus b times the floored quotient', eq(r, fm(c, a, b)))], uses=['floor']),
]
for o in OPS: o.when = N1
GROUP = 5
