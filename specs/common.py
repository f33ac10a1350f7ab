"""Shared specification vocabulary: mathematical meaning of raw values (value = raw / 2^f)."""
from vc import term as t
from vc.term import and_, or_, not_, ite, implies, iff, eq, ne, le, lt, ge, gt, const, between, tdiv, trem, fdiv, fmod, scale, tabs, tmin, tmax
from vc.lib import Op, INSTS as ALL, rng

ARITH = ['f32', 'f64', 'f32_20', 'f32_8', 'f64_16', 'f64_40', 'f16_8', 'f8_4', 'r32', 'r64', 'r16_8', 'u32_16']
ARITH_T = ['f32_24', 'f32_10', 'f64_20', 'f16_8w', 'r32_20', 'u16_8', 'f32_1', 'f32_30', 'f64_62']


def B(b): return ite(b, const(1), const(0))


def half_away(num, den):
    """nearest integer to num/den, ties away from zero; den > 0 or < 0"""
    q2 = tdiv(scale(num, 2), den)
    return tdiv(q2, const(2)) + trem(q2, const(2))


def mul_spec(c, a, b):
    """exact product rounded to the grid: floor, or nearest (ties away) when rounding"""
    return half_away(a * b, const(c.one)) if c.r else fdiv(a * b, c.one)


def div_spec(c, a, b):
    return half_away(scale(a, c.one), b) if c.r else tdiv(scale(a, c.one), b)
