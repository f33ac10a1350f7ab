from specs.common import *
PROP = 'C08'
INSTS, INSTS_THOROUGH = ARITH + ARITH_T, []
N1 = lambda c: c.f < c.n - 1
OPS = [
    Op('signbit', 'a:T', 'bool', 'return signbit(mk<N>(a));', None, lambda c, r, a: [('negative iff below zero', eq(r, B(lt(a, 0))))]),
    Op('ipart', 'a:T', 'T', 'return mk<N>(a).integral_part();', None, lambda c, r, a: [('integer part of the magnitude', eq(r, fdiv(tabs(a), c.one)))]),
    Op('fpart', 'a:T', 'T', 'return mk<N>(a).fractional_part();', None, lambda c, r, a: [('signed fraction', eq(r, trem(a, const(c.one))))], when=N1),
    Op('rawipart', 'a:T', 'T', 'return mk<N>(a).raw_integral_part();', None, lambda c, r, a: [('integer field', eq(r, fdiv(fmod(a, 1 << (c.n - 1)), c.one)))]),
    Op('recompose', 'a:T', 'bool', 'N p = mk<N>(a); I ip = p.integral_part(), fr = p.fractional_part(), one = I(1) << $f; I m = ip * one; return (signbit(p) ? -m : m) + fr == I(a);', None,
       lambda c, r, a: [('sign, integer part and fraction give the value back', eq(r, 1))], when=N1),
    Op('lim_max', '', 'T', 'return std::numeric_limits<N>::max().internal_value();', None, lambda c, r: [('max', eq(r, c.max))]),
    Op('lim_min', '', 'T', 'return std::numeric_limits<N>::min().internal_value();', None, lambda c, r: [('min', eq(r, c.min))]),
    Op('lim_lowest', '', 'T', 'return std::numeric_limits<N>::lowest().internal_value();', None, lambda c, r: [('lowest', eq(r, c.min))]),
    Op('max_value', '', 'T', 'return max_value<N>().internal_value();', None, lambda c, r: [('max', eq(r, c.max))]),
    Op('min_value', '', 'T', 'return min_value<N>().internal_value();', None, lambda c, r: [('min', eq(r, c.min))]),
    Op('precision', '', 'u32', 'return N::precision;', None, lambda c, r: [('fraction bits', eq(r, c.f))]),
    Op('ordered', 'a:T', 'bool', 'N p = mk<N>(a); return std::numeric_limits<N>::lowest() <= p && p <= std::numeric_limits<N>::max();', None, lambda c, r, a: [('every value lies within the limits', eq(r, 1))]),
    Op('f32max', '', 'i32', 'return f32_max.internal_value();', None, lambda c, r: [('max', eq(r, (1 << 31) - 1))], perinst=False),
    Op('f32min', '', 'i32', 'return f32_min.internal_value();', None, lambda c, r: [('min', eq(r, -(1 << 31)))], perinst=False),
    Op('f64max', '', 'i64', 'return f64_max.internal_value();', None, lambda c, r: [('max', eq(r, (1 << 63) - 1))], perinst=False),
    Op('f64min', '', 'i64', 'return f64_min.internal_value();', None, lambda c, r: [('min', eq(r, -(1 << 63)))], perinst=False),
]
GROUP = 16
