"""Output: what the characters written to a stream must say (see vc/stream.emit for the grammar and the ghosts that read them back)."""
from specs.common import *
from vc import term as t
from vc.loops import Each


def parts(c, x):
    m = tabs(x)
    return fdiv(m, c.one), fmod(m, c.one)


def fraction_loop(base):
    """loop 3 of copy_as_chars_to: fraction digits; i and the divisor are known numbers at every head"""
    def inv(p):
        c = p.c
        ip, fr = parts(c, p.I['x'])
        i, dv, v, F = p.i.val, p.divisor.val, p.value, p.V['@frac']
        return [('sign and integer part written', and_(eq(p.V['@int'], ip), eq(p.V['@neg'], ite(lt(p.I['x'], 0), const(1), const(0))))),
                ('written fraction and rest are the fraction', eq(scale(fr, base ** i * dv), scale(F * dv + v, c.one))),
                ('rest', lt(v, dv)), ('there is a fraction', ne(fr, 0)), ('last digit', implies(eq(v, 0), ne(p.V['@last'], 0)) if i else ne(v, 0))]
    return Each('copy_as_chars_to<', lambda c: {'value': (c.In, True, 0, c.one - 1), '@int': (4096, True, 0, (max(c.max, -c.min) >> c.f)), '@neg': (4096, True, 0, 1),
                '@frac': (4096, True, 0, base ** c.f), '@last': (4096, True, 0, base - 1), '@lead': (4096, True, 0, 1)},
                lambda c: {'i': (32, False), 'divisor': (c.In, True), '@phase': (4096, True), '@nd': (4096, True)}, inv, at=[3], keys=['i', 'divisor', '@phase', '@nd'], join=True)


GH = ('@phase', '@neg', '@int', '@frac', '@nd', '@last')


def post(base):
    def f(c, phase, neg, int_, frac, nd, last, x):
        ip, fr = parts(c, x)
        return [('minus sign exactly for negative values', eq(neg, ite(lt(x, 0), const(1), const(0)))),
                ('integer digits', eq(int_, ip)),
                ('complete', ite(eq(fr, 0), eq(phase, 2), eq(phase, 4))),
                ('fraction digits are the exact fraction', implies(eq(phase, 4), and_(le(1, nd), le(nd, c.f), *[implies(eq(nd, k), eq(scale(fr, base ** k), scale(frac, c.one))) for k in range(1, c.f + 1)]))),
                ('no superfluous digit', implies(eq(phase, 4), ne(last, 0)))]
    return f
