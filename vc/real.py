"""Back end for obligations about one integer input whose statement or code is polynomial / transcendental:
Taylor-model arithmetic over integer boxes with bisection down to single integers.

A Taylor model on the box [l, h] of the base variable is  sum c_k tau^k + [rl, rh]  with tau in [-1, 1]; coefficients and remainders are
integers scaled by 2^P and every rounding is added to the remainder, so a model always encloses the term for every integer in the box.
Integer division is quotient + [-1, 0] (floor) unless its value is constant on the box; on a single integer every operation is exact.
A goal is proved when it is proved on a finite cover of the whole domain.  No sampling: the cover is complete."""
import time
from fractions import Fraction
import mpmath
from . import term as t

P = 128
ONE = 1 << P
DEG = 6
mp = mpmath.mp.clone() if hasattr(mpmath.mp, 'clone') else mpmath.MPContext()
mp.prec = 420


class Giveup(Exception):
    pass


def cdiv(a, b): return -((-a) // b)


_sym = [0]


class TM:
    """sum c_k tau^k + sum e_j eps_j + [lo, hi]; tau and every eps_j in [-1, 1]"""
    __slots__ = ('c', 'lo', 'hi', 'e', '_r')

    def __init__(s, c, lo=0, hi=0, e=None):
        while len(c) > 1 and c[-1] == 0: c = c[:-1]
        s.c, s.lo, s.hi = c, lo, hi
        s.e = e
        s._r = None

    def exact(s):
        """the rational this model is, if it is a single number"""
        return len(s.c) == 1 and s.lo == 0 and s.hi == 0 and not s.e

    def poly_range(s):
        a = b = s.c[0]
        for k in range(1, len(s.c)):
            v = s.c[k]
            if k & 1:
                v = abs(v)
                a -= v
                b += v
            elif v > 0: b += v
            else: a += v
        return a, b

    def noise(s): return sum(abs(v) for v in s.e.values()) if s.e else 0

    def range(s):
        """scaled enclosure"""
        if s._r is None:
            a, b = s.poly_range()
            n = s.noise()
            s._r = (a + s.lo - n, b + s.hi + n)
        return s._r

    def irange(s):
        """enclosing integers of an integer-valued term"""
        a, b = s.range()
        return cdiv(a, ONE), b >> P

    def __add__(s, o):
        if not isinstance(o, TM): o = num(o)
        a, b = s.c, o.c
        if len(a) < len(b): a, b = b, a
        e = s.e or o.e
        if s.e and o.e:
            e = dict(s.e)
            for k, v in o.e.items():
                w = e.get(k, 0) + v
                if w: e[k] = w
                else: e.pop(k, None)
        return TM([x + y for x, y in zip(a, b)] + a[len(b):], s.lo + o.lo, s.hi + o.hi, e)

    def __neg__(s): return TM([-x for x in s.c], -s.hi, -s.lo, {k: -v for k, v in s.e.items()} if s.e else None)
    def __sub__(s, o): return s + (-(o if isinstance(o, TM) else num(o)))
    def __rsub__(s, o): return num(o) - s
    __radd__ = __add__

    def widen(s, lo, hi): return TM(s.c, s.lo + lo, s.hi + hi, s.e)

    def error(s, lo, hi):
        """plus an unknown from [lo, hi], kept as a symbol so that later cancellation is seen"""
        _sym[0] += 1
        m = (lo + hi) // 2
        w = max(hi - m, m - lo)
        e = dict(s.e) if s.e else {}
        e[_sym[0]] = w
        return TM([s.c[0] + m] + s.c[1:], s.lo, s.hi, e)

    def scale(s, k):
        """exact integer factor"""
        e = {j: v * k for j, v in s.e.items()} if s.e and k else None
        if k >= 0: return TM([x * k for x in s.c], s.lo * k, s.hi * k, e)
        return TM([x * k for x in s.c], s.hi * k, s.lo * k, e)

    def shr(s, n, d):
        """times n/d, rounding into the remainder"""
        r = s.scale(n)
        c = [x // d for x in r.c]
        bad = sum(1 for x in r.c if x % d)
        e = None
        if r.e:
            e = {j: v // d for j, v in r.e.items()}
            bad += len(e)
        return TM(c, (r.lo // d) - bad, cdiv(r.hi, d) + bad, e)

    def __mul__(s, o):
        if isinstance(o, int): return s.scale(o)
        if isinstance(o, Fraction): return s.shr(o.numerator, o.denominator)
        if o.exact(): return s.shr(o.c[0], ONE)
        if s.exact(): return o.shr(s.c[0], ONE)
        a, b = s.c, o.c
        n = min(len(a) + len(b) - 1, DEG + 1)
        c = [0] * n
        elo = ehi = 0
        for i, x in enumerate(a):
            if x == 0: continue
            for j, y in enumerate(b):
                k = i + j
                if k < n: c[k] += x * y
                else:
                    v = x * y
                    if k & 1:
                        v = abs(v)
                        elo -= v
                        ehi += v
                    elif v > 0: ehi += v
                    else: elo += v
        cnt = sum(1 for v in c if v & (ONE - 1))
        c = [v >> P for v in c]
        pa, qa = s.poly_range()
        # (Pa + Ea + Ra)(Pb + Eb + Rb) = Pa Pb + Pa Eb + Pb Ea + Ea Eb + Ra whole(b) + (Pa + Ea) Rb
        na, nb = s.noise(), o.noise()
        e = None
        if na or nb:
            e = {}
            a0, b0 = a[0], b[0]
            if nb:
                for k, v in o.e.items(): e[k] = v * a0
            if na:
                for k, v in s.e.items(): e[k] = e.get(k, 0) + v * b0
            e = {k: v >> P for k, v in e.items()}
            cnt += len(e)
            m = na * nb
            if nb: m += max(qa - a0, a0 - pa) * nb
            if na:
                p, q = o.poly_range()
                m += max(q - b0, b0 - p) * na
            elo -= m
            ehi += m
        pb, qb = o.range()
        if o.lo or o.hi:
            pa, qa = pa - na, qa + na
            v = (pa * o.lo, pa * o.hi, qa * o.lo, qa * o.hi)
            elo += min(v)
            ehi += max(v)
        if s.lo or s.hi:
            v = (pb * s.lo, pb * s.hi, qb * s.lo, qb * s.hi)
            elo += min(v)
            ehi += max(v)
        return TM(c, (elo >> P) - cnt, cdiv(ehi, ONE) + cnt, e)
    __rmul__ = __mul__

    def shift(s, k):
        """times 2^k"""
        return s.scale(1 << k) if k >= 0 else s.shr(1, 1 << -k)

    def recip(s, o=None):
        """o / s (1 / s), zero excluded"""
        a, b = s.range()
        if a <= 0 <= b: raise Giveup('division by a range containing zero')
        k = max(abs(a), abs(b)).bit_length() - P
        r = compose(s.shift(-k), _recip)
        return (r if o is None else r * o).shift(-k)


def num(x):
    if isinstance(x, TM): return x
    x = Fraction(x)
    v, r = divmod(x.numerator << P, x.denominator)
    return TM([v], 0, 1 if r else 0)


def hull(a, b):
    """encloses both"""
    if a is b: return a
    d = b - a
    lo, hi = d.poly_range()
    n = d.noise()
    return TM(a.c, min(a.lo, lo - n + b.lo), max(a.hi, hi + n + b.hi), a.e)


def interval(lo, hi):
    """integers lo..hi"""
    return TM([(lo + hi) << (P - 1)], -((hi - lo) << (P - 1)), (hi - lo) << (P - 1))


# ---- elementary functions: Taylor coefficients at g0 and a bound of the next coefficient over the range ------------------------------
def _mpf(g0): return mp.mpf(g0) / mp.mpf(ONE)
def _toi(x): return int(mp.floor(mp.ldexp(x, P)))


def _recip(g0, lo, hi):
    x = _mpf(g0)
    cs, v = [], 1 / x
    for k in range(DEG + 1):
        cs.append(v)
        v = -v / x
    m = min(abs(_mpf(lo)), abs(_mpf(hi)))
    return cs, 1 / m ** (DEG + 2)


def _sin(g0, lo, hi):
    x = _mpf(g0)
    s, c = mp.sin(x), mp.cos(x)
    return [[s, c, -s, -c][k % 4] / mp.factorial(k) for k in range(DEG + 1)], 1 / mp.factorial(DEG + 1)


def _cos(g0, lo, hi):
    x = _mpf(g0)
    s, c = mp.sin(x), mp.cos(x)
    return [[c, -s, -c, s][k % 4] / mp.factorial(k) for k in range(DEG + 1)], 1 / mp.factorial(DEG + 1)


def _exp(g0, lo, hi):
    e = mp.exp(_mpf(g0))
    return [e / mp.factorial(k) for k in range(DEG + 1)], mp.exp(_mpf(hi)) * (1 + mp.mpf(2) ** -200) / mp.factorial(DEG + 1)


def _log(g0, lo, hi):
    if lo <= 0: raise Giveup
    x = _mpf(g0)
    return [mp.log(x)] + [(-1) ** (k + 1) / (k * x ** k) for k in range(1, DEG + 1)], 1 / ((DEG + 1) * _mpf(lo) ** (DEG + 1))


def _atan(g0, lo, hi):
    x = _mpf(g0)
    A, B = 1 + x * x, 2 * x
    d = [1 / A]
    d.append(-B * d[0] / A)
    for n in range(2, DEG + 1): d.append(-(B * d[n - 1] + d[n - 2]) / A)
    m = 0 if lo <= 0 <= hi else min(abs(_mpf(lo)), abs(_mpf(hi)))
    return [mp.atan(x)] + [d[k - 1] / k for k in range(1, DEG + 1)], 1 / ((DEG + 1) * mp.sqrt(1 + m * m) ** (DEG + 1)) * (1 + mp.mpf(2) ** -200)


def _sqrt(g0, lo, hi):
    if lo <= 0: raise Giveup
    x = _mpf(g0)
    cs, v = [], mp.sqrt(x)
    for k in range(DEG + 1):
        cs.append(v)
        v = v * (mp.mpf(1) / 2 - k) / (k + 1) / x
    m = _mpf(lo)
    b = mp.mpf(1)
    for k in range(DEG + 1): b = b * abs(mp.mpf(1) / 2 - k) / (k + 1)
    return cs, b * mp.sqrt(m) / m ** (DEG + 1) * (1 + mp.mpf(2) ** -200)


def compose(g, coef):
    """F(g) for a Taylor model g; coef gives F's Taylor coefficients at a point and a bound of the (DEG+1)-st one on a range"""
    lo, hi = g.range()
    g0 = (lo + hi) // 2
    cs, nb = coef(g0, lo, hi)
    d = g - TM([g0])
    a, b = d.range()
    w = max(abs(a), abs(b))
    r = TM([_toi(cs[-1])], -1, 2)
    if w == 0: return TM([_toi(cs[0])], -1, 2)
    for k in range(DEG - 1, -1, -1): r = r * d + TM([_toi(cs[k])], -1, 2)
    e = _toi(nb * (mp.mpf(w) / mp.mpf(ONE)) ** (DEG + 1)) + 2
    return r.widen(-e, e)


def sin(g): return compose(g, _sin)
def cos(g): return compose(g, _cos)
def exp(g): return compose(g, _exp)
def log(g): return compose(g, _log)



def atan(g):
    lo, hi = g.range()
    if lo > 2 * ONE: return PI().shr(1, 2) - compose(g.recip(), _atan)
    if hi < -2 * ONE: return -(PI().shr(1, 2)) - compose(g.recip(), _atan)
    return compose(g, _atan)


def sqrt(g):
    k = (g.range()[1].bit_length() - P) // 2
    return compose(g.shift(-2 * k), _sqrt).shift(k)



def tmabs(g):
    a, b = g.range()
    if a >= 0: return g
    if b <= 0: return -g
    m = max(-a, b)
    return TM([0], 0, m)


def PI():
    v = _toi(mp.pi)
    return TM([v], -1, 2)


def consts(x):
    """enclosure of an mpf expression"""
    return TM([_toi(x)], -1, 2)


# ---- evaluation of terms on a box -----------------------------------------------------------------------------------------------
class Box:
    """evaluation of terms over the integers l..h of the variable v.  Ranges of terms that are monotone on the box are exact: they are
    evaluated at its two ends."""

    def __init__(s, v, l, h, env=None):
        s.v, s.l, s.h = v, l, h
        s.env = {v.id: ident(l, h)}
        if env: s.env.update(env)
        s.b = {}
        s.open = []      # conditions and quotients not decided on this box, innermost first
        s.m, s.r, s.rd, s.dp = {}, {}, {}, {}
        s.ends = None

    def end(s, k):
        if s.ends is None: s.ends = (Box(s.v, s.l, s.l), Box(s.v, s.h, s.h))
        return s.ends[k]

    def val(s, x):
        r = s.env.get(x.id)
        if r is None:
            y = s.red(x)
            if y is not x:
                r = s.env[x.id] = s.val(y)
                return r
            r = s.env[x.id] = s.compute(x)
            if s.l != s.h and not r.exact():      # plain integer bounds may be tighter
                lo, hi = s._rng(x)
                if (hi - lo) << (P + KEEP[0]) < r.hi - r.lo + 2 * r.noise(): r = s.env[x.id] = interval(lo, hi)
        return r

    def red(s, x):
        """the same integer on this box with decided branches, wraps and remainders removed"""
        r = s.rd.get(x.id)
        if r is None:
            r = s.rd[x.id] = s._red(x)
        return r

    def _red(s, x):
        op = x.op
        if op == 'ite':
            c = s.cond(x.args[0])
            return x if c is None else s.red(x.args[1 if c else 2])
        if op in ('ws', 'wu'):
            lo, hi = s.rng(x.args[0])
            off = 1 << (x.val - 1) if op == 'ws' else 0
            q = (lo + off) >> x.val
            return s.red(t.add(x.args[0], t.const(-(q << x.val)))) if q == (hi + off) >> x.val else x
        if op == 'fmod':
            y = centred(x)
            lo, hi = s.rng(y)
            q = lo // x.val
            return s.red(t.add(y, t.const(-(q * x.val)))) if q == hi // x.val else x
        if op == 'lin':
            d, c = {}, x.val[1]
            for a, k in zip(x.args, x.val[0]):
                a = s.red(a)
                if a.op == 'c': c += k * a.val
                elif a.op == 'lin':
                    c += k * a.val[1]
                    for b, j in zip(a.args, a.val[0]): d[b] = d.get(b, 0) + k * j
                else: d[a] = d.get(a, 0) + k
            return t._mklin(d, c)
        return x

    def rng(s, x):
        x = s.red(x)
        return s._rng(x)

    def _rng(s, x):
        """integers enclosing x on the box"""
        r = s.r.get(x.id)
        if r is None:
            lo, hi = s.val(x).irange()
            if lo != hi and s.l != s.h:
                k = s.mono(x)
                if k is not None:
                    a, b = s.end(0).val(x), s.end(1).val(x)
                    if a.exact() and b.exact():
                        a, b = a.c[0] >> P, b.c[0] >> P
                        if a > b: a, b = b, a
                        lo, hi = max(lo, a), min(hi, b)
            if x.lo is not None: lo = max(lo, x.lo)
            if x.hi is not None: hi = min(hi, x.hi)
            if lo != hi:
                a, b = s.plain(x)
                if a is not None: lo, hi = max(lo, a), min(hi, b)
            r = s.r[x.id] = (lo, hi)
        return r

    def plain(s, x):
        """integer bounds from the bounds of the arguments"""
        op = x.op
        if op == 'fdiv':
            lo, hi = s.rng(x.args[0])
            return lo // x.val, hi // x.val
        if op == 'mul':
            lo, hi = s.rng(x.args[0])
            k = 1
            while k < len(x.args) and x.args[k] is x.args[0]: k += 1
            if k % 2 == 0:
                m, e = max(lo ** k, hi ** k), min(lo ** k, hi ** k)
                lo, hi = (0 if lo <= 0 <= hi else e), m
            else: k = 1
            for a in x.args[k:]:
                p, q = s.rng(a)
                v = (lo * p, lo * q, hi * p, hi * q)
                lo, hi = min(v), max(v)
            return lo, hi
        if op == 'tdiv':
            lo, hi = s.rng(x.args[0])
            p, q = s.rng(x.args[1])
            if p <= 0 <= q: return None, None
            v = [t._tdiv(i, j) for i in (lo, hi) for j in (p, q)]
            return min(v), max(v)
        if op == 'ite':
            a, b = s.rng(x.args[1]), s.rng(x.args[2])
            return min(a[0], b[0]), max(a[1], b[1])
        if op == 'fmod': return 0, x.val - 1
        if op == 'trem':
            lo, hi = s.rng(x.args[0])
            p, q = s.rng(x.args[1])
            m = max(abs(p), abs(q)) - 1
            return (0 if lo >= 0 else max(-m, lo)), (0 if hi <= 0 else min(m, hi))
        return None, None

    def mono(s, x):
        """1 / -1 / 0: nondecreasing / nonincreasing / constant on the box; None: not known"""
        x = s.red(x)
        if x.id in s.m: return s.m[x.id]
        r = s.m[x.id] = s._mono(x)
        return r

    def _mono(s, x):
        op = x.op
        if x is s.v: return 1
        if op == 'c': return 0
        if op == 'lin':
            r = 0
            for a, k in zip(x.args, x.val[0]):
                m = s.mono(a)
                if m is None: return None
                if k < 0: m = -m
                if m and r and m != r: return None
                r = r or m
            return r
        if op == 'fdiv': return s.mono(x.args[0])
        if op == 'mul':
            r = 0
            for a in x.args:
                m = s.mono(a)
                if m is None or s.rng(a)[0] < 0 or (m and r and m != r): return None
                r = r or m
            return r
        if op == 'tdiv':
            b = x.args[1]
            if b.op == 'c' and b.val > 0: return s.mono(x.args[0])
            if x.args[0].op == 'c' and x.args[0].val >= 0 and s.rng(b)[0] > 0:
                m = s.mono(b)
                return None if m is None else -m
            return None
        return None

    def compute(s, x):
        op = x.op
        if op == 'c': return TM([x.val << P])
        if op == 'lin':
            ks, c = x.val
            r = TM([c << P])
            d = dict(zip(x.args, ks))
            for a, k in zip(x.args, ks):
                b, n, m = halved(a)     # q / 2 + q mod 2 with q = b / n: half of it rounded away from zero
                if m is not None and d.get(m) == k and a in d and not s.val(a).exact():
                    del d[a], d[m]
                    r = r + s.val(b).shr(1, 2 * n).error(-ONE // 2, ONE // 2).scale(k)
            for a, k in d.items(): r = r + s.val(a).scale(k)
            return r
        if op == 'mul':
            r = s.val(x.args[0])
            for a in x.args[1:]: r = r * s.val(a)
            return r
        if op == 'fdiv':
            lo, hi = s.rng(x.args[0])
            d = x.val
            if lo // d == hi // d: return TM([(lo // d) << P])
            if hi // d - lo // d <= 2: s.open.append(x)
            return s.val(x.args[0]).shr(1, d).error(-((d - 1) << P) // d - 1, 0)
        if op == 'fmod':
            s.open.append(x)
            if 'fmod' not in (y.op for y in x.args[0].args): return s.val(x.args[0]) - s.val(t.fdiv(x.args[0], x.val)).scale(x.val)
            return interval(0, x.val - 1)
        if op in ('tdiv', 'trem'):
            a, b = s.val(x.args[0]), s.val(x.args[1])
            p, q = s.rng(x.args[1])
            if p <= 0 <= q and x.lo is not None and x.hi is not None: return interval(x.lo, x.hi)
            q = s.trunc(x.args[0], x.args[1])
            if op == 'tdiv': return q
            if q.exact(): return a - b.scale(q.c[0] >> P)
            s.open.append(x)
            q = s.val(t._mk('tdiv', x.args, None, None, None))      # its own error symbol, so that quotient and remainder stay related
            if x.args[1].op == 'c': return a - q.scale(x.args[1].val)
            return a - b * q
        if op == 'ite': return hull(s.val(x.args[1]), s.val(x.args[2]))
        if op in ('ws', 'wu'):
            off = 1 << (x.val - 1) if op == 'ws' else 0
            return interval(-off, (1 << x.val) - 1 - off)
        if op in ('band', 'bor', 'bxor'):
            a, b = s.val(x.args[0]), s.val(x.args[1])
            if a.exact() and b.exact():
                u, v = a.c[0] >> P, b.c[0] >> P
                return TM([(u & v if op == 'band' else u | v if op == 'bor' else u ^ v) << P])
        if x.lo is not None and x.hi is not None: return interval(x.lo, x.hi)
        raise Giveup('term ' + op)

    def trunc(s, ta, tb):
        a, b = s.val(ta), s.val(tb)
        alo, ahi = s.rng(ta)
        blo, bhi = s.rng(tb)
        if blo <= 0 <= bhi: raise Giveup('division by a range containing zero')
        qs = [t._tdiv(p, q) for p in {alo, ahi} for q in {blo, bhi}]
        if min(qs) == max(qs): return TM([qs[0] << P])
        if blo == bhi: q = a.shr(1, blo) if blo > 0 else (-a).shr(1, -blo)
        else: q = b.recip(a)
        lo, hi = q.range()
        if lo >= 0 or (alo >= 0 and blo > 0) or (ahi <= 0 and bhi < 0): return q.error(-ONE, 0)
        if hi <= 0 or (ahi <= 0 and blo > 0) or (alo >= 0 and bhi < 0): return q.error(0, ONE)
        return q.error(-ONE, ONE)

    def cond(s, x):
        r = s.b.get(x.id, s)
        if r is s:
            try: r = s._cond(x)
            except Giveup: r = None
            s.b[x.id] = r
            if r is None and x.op in ('le0', 'eq0'): s.open.append(x)
        return r

    def _cond(s, x):
        op = x.op
        if op == 'b': return x.val
        if op == 'not':
            c = s.cond(x.args[0])
            return None if c is None else not c
        if op in ('and', 'or'):
            stop = op == 'or'
            unk = False
            for a in x.args:
                c = s.cond(a)
                if c is stop: return stop
                if c is None: unk = True
            return None if unk else not stop
        if op == 'le0':
            lo, hi = s.rng(x.args[0])
            if hi <= 0: return True
            if lo > 0: return False
            return None
        if op == 'eq0':
            lo, hi = s.rng(x.args[0])
            if lo > 0 or hi < 0: return False
            if lo == 0 == hi: return True
            if lo < 0 < hi and x.args[0].op == 'lin' and s.l != s.h:
                y = s.red(s.deep(x.args[0]))
                if y.op == 'c': return y.val == 0
            return None
        return None

    def deep(s, x):
        """the term rebuilt with every decided branch, wrap and remainder removed"""
        r = s.dp.get(x.id)
        if r is None:
            y = s.red(x)
            if y.args:
                if y.op == 'ite': a = [y.args[0], s.deep(y.args[1]), s.deep(y.args[2])]
                else: a = [s.deep(z) for z in y.args]
                if any(p is not q for p, q in zip(a, y.args)): y = s.red(t.rebuild(y, a))
            r = s.dp[x.id] = y
        return r

    def discrete(s, x):
        """on a single integer: truth value or quotient of an undecided term"""
        if x.op in ('le0', 'eq0'): return s.cond(x)
        a = s.val(x.args[0]).c[0] >> P
        if x.op in ('fmod', 'fdiv'): return a // x.val
        return t._tdiv(a, s.val(x.args[1]).c[0] >> P)


KEEP = [0]    # plain bounds replace a model only when 2^KEEP times tighter (replacing loses the relation to the input)


def centred(x):
    """argument of a remainder with coefficients reduced to the range around zero"""
    y, m = x.args[0], x.val
    if y.op != 'lin' or all(2 * abs(k) <= m for k in y.val[0]): return y
    return t._mklin({a: (k + m // 2) % m - m // 2 for a, k in zip(y.args, y.val[0])}, y.val[1] % m)


def switch(bx):
    """an integer m in the box where an undecided condition or quotient changes between m and m + 1"""
    best = None
    for n, x in enumerate(bx.open[:60]):
        try: a, b = bx.end(0).discrete(x), bx.end(1).discrete(x)
        except Giveup: continue
        if a is None or b is None or a == b or abs(int(b) - int(a)) > 1: continue
        rank = ({'le0': 0, 'fdiv': 1, 'fmod': 1, 'trem': 1, 'eq0': 2}[x.op], n)
        if best is None or rank < best[0]: best = (rank, x, a)
    if best is None: return None
    _, x, a = best
    l, h = bx.l, bx.h
    while h - l > 1:
        m = (l + h) // 2
        try: k = Box(bx.v, m, m).discrete(x)
        except Giveup: return None
        if k == a: l = m
        else: h = m
    return l


def cover(lo, hi, extra=()):
    """initial boxes: powers of two around zero and the given points"""
    pts = {lo, hi + 1, 0, 1}
    k = 1
    while k < max(abs(lo), abs(hi)):
        pts |= {k, -k}
        k *= 2
    pts |= set(extra)
    ps = sorted(p for p in pts if lo <= p <= hi + 1)
    return [(a, b - 1) for a, b in zip(ps, ps[1:]) if a <= b - 1]


def ident(l, h):
    c = (l + h) << (P - 1)
    return TM([c, (h - l) << (P - 1)] if h > l else [c])


def run(v, boxes, check, max_boxes, deadline):
    """check(l, h) -> (proved, undecided conditions); splits otherwise.  Returns (proved, number of boxes, first open box)"""
    stack = list(reversed(boxes))
    n = 0
    while stack:
        l, h = stack.pop()
        n += 1
        if n > max_boxes or time.time() > deadline: return False, n, (l, h)
        bx = Box(v, l, h)
        try: ok = check(bx, l, h)
        except Giveup: ok = False
        if ok: continue
        if l == h: return False, n, (l, h)
        m = (l + h) // 2
        if l < 0 <= h: m = -1
        elif h - l > 1:
            k = switch(bx)
            if k is not None: m = k
        stack.append((m + 1, h))
        stack.append((l, m))
    return True, n, None


def domain(vc):
    """(variable, lo, hi) of a one-input entry, narrowed by simple preconditions"""
    if len(vc.invars) != 1: return None
    v = list(vc.invars.values())[0]
    return v, v.lo, v.hi


class Stats:
    boxes = 0


def prove_terms(vc, terms, max_boxes=100000, time_s=240):
    """boolean goals over one integer variable; returns (number of boxes or None, refuting integer or None)"""
    d = domain(vc)
    if d is None: return None, None
    v, lo, hi = d
    goal = t.and_(*terms)

    def check(bx, l, h):
        if bx.cond(vc.pre) is False: return True
        return bx.cond(goal) is True
    KEEP[0] = vc.op.real.keep
    ok, k, at = run(v, cover(lo, hi), check, max_boxes, time.time() + time_s)
    return (k, None) if ok else (None, at[0] if at[0] == at[1] else None)


def halved(a):
    """(b, n, q mod 2) when the term is q / 2 with q = b / n"""
    if a.op == 'tdiv' and a.args[1].op == 'c' and a.args[1].val == 2:
        q = a.args[0]
        b, n = (q.args[0], q.args[1].val) if q.op == 'tdiv' and q.args[1].op == 'c' and q.args[1].val > 0 else (q.args[0], q.val) if q.op == 'fdiv' else (q, 1)
        return b, n, t.trem(q, t.const(2))
    if a.op == 'fdiv' and a.val % 2 == 0: return a.args[0], a.val // 2, t.fmod(t.fdiv(a.args[0], a.val // 2), 2)
    return None, None, None


class Direct:
    """|result - F(x)| <= bound(x) with x = a / 2^f; ok(box helpers) returns a list of models that must be >= 0"""

    def __init__(self, goals, max_boxes=100000, time_s=240, points=None, when=None, keep=0):
        self.keep = keep
        self.goals, self.max_boxes, self.time_s, self.points, self.when = goals, max_boxes, time_s, points, when

    def applies(self, vc): return self.when is None or self.when(vc.inst)

    def __call__(self, vc, g):
        d = domain(vc)
        if d is None or len(vc.results) != 1: return False
        v, lo, hi = d
        inst = vc.inst
        fn = self.goals[g.label[len('post: '):]]
        dl = time.time() + self.time_s
        rid = vc.outvars['ret'].id
        res = vc.results[0][1][rid]
        grd = vc.results[0][0]

        def check(bx, l, h):
            if bx.cond(vc.pre) is False or bx.cond(grd) is False: return True
            r = bx.val(res)
            for m in fn(inst, ident(l, h).shr(1, inst.one), r.shr(1, inst.one)):
                if m is True: continue
                if m is False or m.range()[0] < 0: return False
            return True
        KEEP[0] = self.keep
        pts = self.points(inst) if self.points else ()
        ok, k, at = run(v, cover(lo, hi, pts), check, self.max_boxes, dl)
        g.by = 'taylor models (%d boxes)' % k
        if not ok:
            g.by = 'open on [%s, %s] after %d boxes' % (at[0], at[1], k)
            g.model = {v.val[0]: at[0]}
        return ok


class Periodic:
    """|result - F(x)| <= tol + (|x| / 2 pi + extra) ulp for F = sin or cos of period 2 pi and a result that depends on the input only through
    the remainder of E = input + c modulo a constant m close to 2 pi, once |E| >= m.  Inputs with |E| < m are boxed directly; for the others
    E = k m + r and the error at r, plus |k| times the error of m, is boxed over r."""

    def __init__(self, goal, F, tol, extra, max_boxes=100000, time_s=240):
        self.goal, self.F, self.tol, self.extra, self.max_boxes, self.time_s = goal, F, tol, extra, max_boxes, time_s

    derived = ('magnitude',)

    def applies(self, vc): return False

    def limit(self, c):
        """what the error bound and |F| <= 1 say about the magnitude of the result, in ulp"""
        return c.one + -(-self.tol(c) * c.one // 1) + self.extra + 1 + max(-c.min, c.max) // (6 * c.one)

    def derive(self, vc, g):
        """the goal is |result| <= limit: a consequence of the error bound proved before"""
        res = vc.results[0][1][vc.outvars['ret'].id] if len(vc.results) == 1 else None
        want = None if res is None else t.implies(vc.results[0][0], t.le(t.tabs(res), self.limit(vc.inst)))
        if want is g.term and any(x.label == 'post: ' + self.goal and x.status == 'proved' for x in vc.goals): g.status, g.by = 'proved', 'consequence of the error bound'

    def prove(self, vc, g):
        if len(vc.results) != 1 or len(vc.invars) != 1 or g.label != 'post: ' + self.goal: return False
        v, inst = list(vc.invars.values())[0], vc.inst
        grd, m = vc.results[0]
        res = m[vc.outvars['ret'].id]
        if grd is not t.TRUE and t.implies(vc.pre, grd) is not t.TRUE: return False
        dl = time.time() + self.time_s
        n, g.by = 0, 'no periodic form'
        one, KEEP[0] = inst.one, 0

        def rems(a):
            R = res if a is v else t.subst(res, {v.id: a})
            mods, seen, st = {}, set(), [R]
            while st:
                x = st.pop()
                if x.id in seen: continue
                seen.add(x.id)
                if x.op == 'fmod' or x.op == 'trem' and x.args[1].op == 'c':
                    y = x.args[0]
                    if y is a or y.op == 'lin' and y.args == (a,) and y.val[0] == (1,): mods[x.id] = (x, y)
                st.extend(x.args)
            return R, mods
        cases = [v] if rems(v)[1] else [t.fresh('a', v.lo, 0), t.fresh('a', 1, v.hi)]
        for a in cases:
            lo, hi = a.lo, a.hi
            R, mods = rems(a)
            if not mods or len(set(y.id for _, y in mods.values())) != 1: return False
            ms = set(x.val if x.op == 'fmod' else x.args[1].val for x, _ in mods.values())
            E = [y for _, y in mods.values()][0]
            c, M = (0 if E is a else E.val[1]), min(ms)
            if len(ms) != 1: return False
            for kind in ('near', 'above', 'below'):
                if kind == 'near': l, h = max(lo + c, 1 - M), min(hi + c, M - 1)
                elif kind == 'above': l, h = 0, M - 1
                else: l, h = 1 - M, 0
                top = (hi + c) if kind == 'above' else -(lo + c)
                if l > h or kind != 'near' and top < M: continue
                r = t.fresh('r', l, h)
                if kind == 'near': T = t.subst(R, {**{k: r for k in mods}, a.id: t.sub(r, c)})
                else:
                    big = t.fresh('e', M, hi + c) if kind == 'above' else t.fresh('e', lo + c, -M)
                    T = t.subst(t.subst(R, {k: r for k in mods}), {a.id: t.sub(big, c)})
                    if big.id in (x.id for x in t.vars_of([T])): return False
                ok, k, at = run(r, cover(l, h), self.check(inst, T, r, c, M, kind, top // M), self.max_boxes, dl)
                n += k
                if not ok:
                    g.by = 'open on %s %s after %d boxes' % (kind, at, n)
                    if at[0] == at[1]: vc.boxmodel = {v.val[0]: (at[0] if kind == 'near' else at[0] + (M if kind == 'above' else -M)) - c}
                    return False
        g.by = 'taylor models (%d boxes)' % n
        return True

    def check(self, inst, T, r, c, M, kind, kmax):
        one = inst.one
        F = sin if self.F == 'sin' else cos
        two = PI().scale(2)
        V = lambda x: x.shr(1, one)
        u2 = two.recip().shr(1, one)      # ulp / 2 pi
        base = num(self.tol(inst))
        if kind != 'near':
            eps = num(Fraction(M, one)) - two
            e = tmabs(eps)
            gain = u2 * num(Fraction(M, one)) - e
            base = base + hull(gain, gain.scale(kmax)) - u2 * num(Fraction(abs(c), one))
            if self.F == 'cos':      # sin(x + c) against cos(x)
                q = num(Fraction(c, one)) - PI().shr(1, 2)
                base = base - (tmabs(q) if abs(c) < 2 * one else tmabs(num(Fraction(c, one)) + (PI() + PI() + PI()).shr(1, 2)))

        def check(bx, l, h):
            val = V(bx.val(T))
            x = V(ident(l, h))
            if kind == 'near':
                x = x - num(Fraction(c, one))
                f = F(x)
            else: f = sin(x)
            for mod in within(val - f, base + tmabs(x) * u2):
                if mod.range()[0] < 0: return False
            return True
        return check


def within(e, b):
    """|e| <= b"""
    return [b - e, b + e]
