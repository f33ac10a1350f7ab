"""Strings: what the text of a parser argument says, as ghosts over the characters, and the parser loops' invariants."""
from specs.common import *
from vc import term as t
from vc.loops import Each, Mismatch
LEN = 1 << 62


class Str:
    """text of n characters: optional minus sign, digits [b, E), then optionally a point and digits [F, E2).
    D(p), N(p): the integer written by the digits of the integer / fraction part before p.  Phi: fraction in units of 2^-f, truncated.
    The ghosts are defined by the text alone; the instances of their definitions and of the lemmas about them used below are facts()."""

    chars = (-128, 127)

    def __init__(s, c, n, size=None):
        s.c, s.n, s.size = c, n, n if size is None else size
        s.E, s.E2, s.Phi = t.var('ghost_E', 0, LEN), t.var('ghost_E2', 0, LEN + 1), t.var('ghost_Phi', 0, (1 << c.f) - 1)
        s.neg = and_(gt(n, 0), eq(s.chr(const(0)), 45))
        s.b = ite(s.neg, const(1), const(0))
        s.dot = and_(lt(s.E, n), eq(s.chr(s.E), 46))
        s.F = s.E + 1
        s.wf = or_(eq(s.E, n), and_(s.dot, eq(s.E2, n)))
        s.value = scale(s.D(s.E), c.one) + ite(s.dot, s.Phi, const(0))     # magnitude of the written number in units of 2^-f, truncated

    def chr(s, i): return t.app('chr', (i,), *s.chars)
    def D(s, i): return t.app('D', (i,))
    def N(s, i): return t.app('N', (i,))
    def digit(s, i): return t.between(48, s.chr(i), 57)

    def read(s, ex, st, off, size):
        if size != 1: raise Mismatch('wide read of a string')
        return s.chr(off)

    def facts(s):
        return [le(s.b, s.E), le(s.E, s.n), implies(lt(s.E, s.n), not_(s.digit(s.E))), eq(s.D(s.b), 0), ge(s.D(s.E), 0),
                implies(s.dot, and_(le(s.F, s.E2), le(s.E2, s.n), implies(lt(s.E2, s.n), not_(s.digit(s.E2))), eq(s.N(s.F), 0), implies(eq(s.E2, s.F), eq(s.Phi, 0))))]

    def at_int(s, p):
        """at a position of the integer part"""
        return [implies(and_(le(s.b, p), lt(p, s.E)), and_(s.digit(p), eq(s.D(p + 1), scale(s.D(p), 10) + s.chr(p) - 48), le(s.D(p + 1), s.D(s.E)), ge(s.D(p), 0)))]

    def at_frac(s, p, j):
        """at a position of the fraction, j digits of which are used"""
        q, w, one = s.F + j, 10 ** j, s.c.one
        return [implies(and_(s.dot, le(q, s.E2)), and_(le(0, s.N(q)), le(s.N(q), w - 1), lt(scale(s.N(q), one), scale(s.Phi + 1, w)), lt(scale(s.Phi, w), scale(s.N(q) + 1, one)),
                                                       implies(eq(q, s.E2), eq(s.Phi, fdiv(scale(s.N(q), one), w))))),
                implies(and_(s.dot, le(s.F, p), lt(p, s.E2)), and_(s.digit(p), eq(s.N(p + 1), scale(s.N(p), 10) + s.chr(p) - 48)))]

    def fits(s, v): return ite(s.neg, le(v, -s.c.min), le(v, s.c.max))

    def short(s):
        """fraction digits that are certainly all used"""
        m, k = (s.c.one - 1) // 10, 1
        while 10 ** k - 1 <= m and k < (17 if s.c.In == 64 else 36): k += 1
        return or_(not_(s.dot), le(s.E2, s.F + k))


def bit(b): return ite(b, const(1), const(0))



class Wide(Str):
    """wide characters, as a stream delivers them (the end-of-file value is not a character)"""
    chars = (0, 0x10ffff)


class Until(Str):
    """text that ends before the first character equal to the one at position last"""

    def __init__(s, c, last):
        s.last = last
        Str.__init__(s, c, t.var('ghost_m', 0, LEN), last + 1)

    def end(s, p): return [implies(and_(le(0, p), le(p, s.n)), iff(eq(p, s.n), eq(s.chr(p), s.chr(s.last))))]
    def facts(s): return Str.facts(s) + [le(s.n, s.last)] + s.end(const(0)) + s.end(s.n)
    def at_int(s, p): return Str.at_int(s, p) + s.end(p)
    def at_frac(s, p, j): return Str.at_frac(s, p, j) + s.end(p)


def loops(fn, pos='pos', ptr=None, cap=None):
    """ptr: pointer local kept at the position; cap: the integer part stops growing there"""
    P = {pos: (64, False, 0, LEN)}
    if pos == '@pos': P['@bits'] = (32, True, 0, 0)
    if ptr: P[ptr] = ('ptr', 0, LEN)
    def p_(p): return p.V[pos]
    def both(inv): return (lambda p: inv(p) + [('pointer at the position', eq(p.V[ptr], p_(p)))]) if ptr else inv
    def int_inv(p): return [('position', and_(le(p.S.b, p_(p)), le(p_(p), p.S.E))), ('integer part', eq(p.int_part, tmin(p.S.D(p_(p)), const(cap(p.c))) if cap else p.S.D(p_(p))))]

    def used(p):
        j = 0
        while 10 ** j < p.divisor.val: j += 1
        if 10 ** j != p.divisor.val: raise Mismatch('divisor is not a power of ten')
        return j

    def frac_inv(p):
        j, s = used(p), p.S
        done = or_(gt(p.dec_part, (p.c.one - 1) // 10), t.boolc(10 ** j > 1 << (p.c.In - 5)))
        return [('position', and_(s.dot, le(s.F + j, p_(p)), le(p_(p), s.E2))), ('fraction', eq(p.dec_part, s.N(s.F + j))),
                ('all digits used or no more needed', or_(eq(p_(p), s.F + j), done))]
    return [Each(fn, lambda c: {**P, 'int_part': (c.In, True, 0, cap(c) if cap else (c.max >> c.f) + 1)}, {}, both(int_inv), at=[0], body=lambda p: p.S.at_int(p_(p))),
            Each(fn, lambda c: {**P, 'dec_part': (c.In, True, 0, 10 * ((c.one - 1) // 10) + 9)}, lambda c: {'divisor': (c.In, True)}, both(frac_inv), at=[1], keys=['divisor'],
                 body=lambda p: p.S.at_frac(p_(p), used(p)))]


def strings(vc): return Str(vc.inst, vc.invars['n'])
def facts(vc): return strings(vc).facts()


def wide(vc): return Wide(vc.inst, vc.invars['n'])
def wide_facts(vc): return wide(vc).facts()
def until(vc): return Until(vc.inst, vc.invars['n'])
def until_facts(vc): return until(vc).facts()


class Wide4(Wide):
    chars = (-1 << 31, (1 << 31) - 1)


def wide4(vc): return Wide4(vc.inst, vc.invars['n'])
def wide4_facts(vc): return wide4(vc).facts()


def post(strict, end=False, cls=Str):
    """end: the parser returns the end of the text when it accepts and the start otherwise"""
    def f(c, ret, out, n, init):
        s = cls(c, n)
        good = eq(ret, s.n) if end else eq(ret, 1)
        m, v = tabs(out), s.value
        ps = [('start or end', or_(good, eq(ret, 0)))] if end else [('zero or one', t.between(0, ret, 1))]
        if strict: ps.append(('malformed text is rejected', implies(not_(s.wf), not_(good))))
        wf = s.wf if strict else t.TRUE
        return ps + [
            ('output untouched when rejected', implies(not_(good), eq(out, init))),
            ('sign', implies(good, ite(s.neg, le(out, 0), ge(out, 0)))),
            ('never larger than the written number', implies(good, le(m, v))),
            ('less than 11 units below', implies(good, ge(m, v - 10))),
            ('exact for integers and short fractions', implies(and_(good, s.short()), eq(m, v))),
            ('representable numbers are accepted', implies(and_(wf, s.fits(v)), good)),
            ('numbers out of range are rejected', implies(not_(ite(s.neg, le(v - 10, -c.min), le(v, c.max))), not_(good))),
            ('short numbers out of range are rejected', implies(and_(s.short(), not_(s.fits(v))), not_(good))),
        ]
    return f


def representable(c, n):
    s = Str(c, n)
    return and_(s.wf, s.fits(s.value))


def literal(c, out, n):
    s = Str(c, n)
    m, v = tabs(out), s.value
    return [
        ('sign', ite(s.neg, le(out, 0), ge(out, 0))),
        ('never larger than the written number', le(m, v)),
        ('less than 11 units below', ge(m, v - 10)),
        ('exact for integers and short fractions', implies(s.short(), eq(m, v))),
    ]


def extract(c, ret, out, pos, n, st, init, cls=Str):
    """operator>> on a stream in state st with n characters left; ret: the state afterwards, pos: characters taken"""
    s = cls(c, n)
    m, v = tabs(out), s.value
    live, end = and_(eq(st, 0), gt(n, 0)), ite(s.dot, s.E2, s.E)
    eof = ite(eq(end, n), const(2), const(0))
    good = eq(ret, eof)
    return [
        ('a stream at its end or in a failed state fails', implies(not_(live), and_(eq(ret, ite(eq(st, 0), const(6), ite(ge(st, 4), st, st + 4))), eq(out, init), eq(pos, 0)))),
        ('takes exactly the number', implies(live, eq(pos, end))),
        ('state', implies(live, or_(good, eq(ret, eof + 4)))),
        ('variable untouched on failure', implies(and_(live, not_(good)), eq(out, init))),
        ('sign', implies(and_(live, good), ite(s.neg, le(out, 0), ge(out, 0)))),
        ('never larger than the written number', implies(and_(live, good), le(m, v))),
        ('less than 11 units below', implies(and_(live, good), ge(m, v - 10))),
        ('exact for integers and short fractions', implies(and_(live, good, s.short()), eq(m, v))),
        ('representable numbers are accepted', implies(and_(live, s.fits(v)), good)),
        ('numbers out of range fail', implies(and_(live, not_(ite(s.neg, le(v - 10, -c.min), le(v, c.max)))), not_(good))),
        ('short numbers out of range fail', implies(and_(live, s.short(), not_(s.fits(v))), not_(good))),
    ]


def extract_wide(*a): return extract(*a, cls=Wide)
