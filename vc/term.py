"""Hash-consed terms over mathematical integers and booleans.

Machine integers are represented by the mathematical integer they denote (signed view); wrap-around is an explicit
operator (ws n: reduce modulo 2^n into the signed range, wu n: into the unsigned range).  Every integer term carries a
sound interval [lo,hi] (None = unbounded), used to drop wraps that cannot happen and to pick bit-vector widths.
"""
import math
import sys
sys.setrecursionlimit(200000)

_tab = {}
_ctr = [0]


class T:
    __slots__ = ('op', 'args', 'val', 'lo', 'hi', 'id', 'sort')

    def __repr__(self):
        return show(self)

    # convenience operators for spec writing ------------------------------------------------
    def __add__(s, o): return add(s, o)
    def __radd__(s, o): return add(o, s)
    def __sub__(s, o): return sub(s, o)
    def __rsub__(s, o): return sub(o, s)
    def __mul__(s, o): return mul(s, o)
    def __rmul__(s, o): return mul(o, s)
    def __neg__(s): return neg(s)
    def __le__(s, o): return le(s, o)
    def __ge__(s, o): return le(o, s)
    def __lt__(s, o): return lt(s, o)
    def __gt__(s, o): return lt(o, s)
    # NB: == stays identity-based (terms are hash-consed); use eq()


def _mk(op, args, val, lo, hi, sort='I'):
    key = (op, tuple(a.id for a in args), val)
    t = _tab.get(key)
    if t is not None:
        return t
    t = T()
    t.op, t.args, t.val, t.lo, t.hi, t.sort = op, args, val, lo, hi, sort
    _ctr[0] += 1
    t.id = _ctr[0]
    _tab[key] = t
    return t


def const(n):
    return _mk('c', (), int(n), int(n), int(n))


def I(x):
    return x if isinstance(x, T) else const(x)


TRUE = _mk('b', (), True, None, None, 'B')
FALSE = _mk('b', (), False, None, None, 'B')


def boolc(b):
    return TRUE if b else FALSE


_fresh = [0]


def var(name, lo=None, hi=None):
    return _mk('v', (), (name, lo, hi), lo, hi)


def fresh(prefix, lo=None, hi=None):
    _fresh[0] += 1
    return var('%s!%d' % (prefix, _fresh[0]), lo, hi)


def boolvar(name):
    return _mk('bv', (), name, None, None, 'B')


def freshbool(prefix):
    _fresh[0] += 1
    return boolvar('%s!%d' % (prefix, _fresh[0]))


# ---- linear combinations ----------------------------------------------------------------
def _lin_of(t):
    """-> (dict term->coeff, const)"""
    if t.op == 'c':
        return {}, t.val
    if t.op == 'lin':
        return dict(zip(t.args, t.val[0])), t.val[1]
    return {t: 1}, 0


def _mklin(d, c):
    items = [(t, k) for t, k in d.items() if k != 0]
    if not items:
        return const(c)
    if len(items) == 1 and c == 0 and items[0][1] == 1:
        return items[0][0]
    items.sort(key=lambda p: p[0].id)
    lo = hi = c
    for t, k in items:
        a, b = (t.lo, t.hi) if k > 0 else (t.hi, t.lo)
        lo = None if lo is None or a is None else lo + k * a
        hi = None if hi is None or b is None else hi + k * b
    return _mk('lin', tuple(t for t, k in items), (tuple(k for t, k in items), c), lo, hi)


def add(a, b):
    a, b = I(a), I(b)
    if a.op == 'c' and a.val == 0:
        return b
    if b.op == 'c' and b.val == 0:
        return a
    d, c = _lin_of(a)
    d2, c2 = _lin_of(b)
    for t, k in d2.items():
        d[t] = d.get(t, 0) + k
    # ite(p, 1, 0) + ite(p, x, y): one case distinction
    for t in d:
        if t.op == 'ite' and d[t] and t.args[1].op == 'c' and t.args[2].op == 'c':
            p = t.args[0]
            for u in d:
                if u is not t and u.op == 'ite' and d[u] and (u.args[0] is p or u.args[0] is not_(p)):
                    x, y = (u.args[1], u.args[2]) if u.args[0] is p else (u.args[2], u.args[1])
                    k, l = d.pop(t), d.pop(u)
                    m = ite(p, add(const(k * t.args[1].val), scale(x, l)), add(const(k * t.args[2].val), scale(y, l)))
                    return add(_mklin(d, c + c2), m)
    return _mklin(d, c + c2)


def scale(a, k):
    a = I(a)
    if k == 1:
        return a
    d, c = _lin_of(a)
    return _mklin({t: v * k for t, v in d.items()}, c * k)


def neg(a):
    return scale(a, -1)


def sub(a, b):
    return add(a, neg(I(b)))


def _imul(alo, ahi, blo, bhi):
    if None in (alo, ahi, blo, bhi):
        # partially bounded: handle the common non-negative case
        if alo is not None and blo is not None and alo >= 0 and blo >= 0:
            return alo * blo, None
        return None, None
    p = (alo * blo, alo * bhi, ahi * blo, ahi * bhi)
    return min(p), max(p)


def mul(a, b):
    a, b = I(a), I(b)
    if a.op == 'c':
        return scale(b, a.val)
    if b.op == 'c':
        return scale(a, b.val)
    # pull out a common coefficient of single-atom linear terms
    k = 1
    if a.op == 'lin' and len(a.args) == 1 and a.val[1] == 0:
        k *= a.val[0][0]
        a = a.args[0]
    if b.op == 'lin' and len(b.args) == 1 and b.val[1] == 0:
        k *= b.val[0][0]
        b = b.args[0]
    if k != 1:
        return scale(mul(a, b), k)
    # cheap lifting over ite with constant branches
    for x, y in ((a, b), (b, a)):
        if x.op == 'ite' and x.args[1].op == 'c' and x.args[2].op == 'c':
            return ite(x.args[0], scale(y, x.args[1].val), scale(y, x.args[2].val))
    fs = (a.args if a.op == 'mul' else (a,)) + (b.args if b.op == 'mul' else (b,))
    fs = tuple(sorted(fs, key=lambda t: t.id))
    lo, hi = _imul(a.lo, a.hi, b.lo, b.hi)
    if len(fs) == 2 and fs[0] is fs[1]:
        x = fs[0]
        lo = 0
        if x.lo is not None and x.hi is not None:
            hi = max(x.lo * x.lo, x.hi * x.hi)
            if x.lo > 0 or x.hi < 0:
                lo = min(x.lo * x.lo, x.hi * x.hi)
    return _mk('mul', fs, None, lo, hi)


def fdiv(a, d):
    """floor(a/d), d a positive constant"""
    a = I(a)
    if d == 1:
        return a
    assert d > 1
    if a.op == 'c':
        return const(a.val // d)
    if a.lo is not None and a.hi is not None and a.lo // d == a.hi // d:
        return const(a.lo // d)
    if a.op == 'fdiv':
        return fdiv(a.args[0], a.val * d)
    if a.op == 'lin':
        # split multiples of d out:  floor((d*x + r)/d) = x + floor(r/d)
        q, r = {}, {}
        for t, k in zip(*[a.args, a.val[0]]):
            if k % d == 0:
                q[t] = k // d
            else:
                r[t] = k
        c = a.val[1]
        if q or c // d != 0:
            rest = _mklin(r, c % d)
            return add(_mklin(q, c // d), fdiv(rest, d))
        # common factor:  floor(g*x/(g*e)) = floor(x/e)
        from math import gcd
        g = d
        for k in a.val[0]:
            g = gcd(g, k)
        g = gcd(g, a.val[1]) if a.val[1] else g
        if g > 1:
            return fdiv(_mklin({t: k // g for t, k in zip(a.args, a.val[0])}, a.val[1] // g), d // g)
    if a.op == 'ite' and (a.args[1].op == 'c' or a.args[2].op == 'c'):
        return ite(a.args[0], fdiv(a.args[1], d), fdiv(a.args[2], d))
    if a.op == 'wu' and d == 1 << (a.val - 1) and in_range(a.args[0], -d, d - 1):
        return ite(le0(add(a.args[0], 1)), const(1), const(0))     # sign bit
    return _mk('fdiv', (a,), d, None if a.lo is None else a.lo // d, None if a.hi is None else a.hi // d)


def fmod(a, m):
    """a - m*floor(a/m), m positive constant"""
    a = I(a)
    if m == 1:
        return const(0)
    if a.op == 'c':
        return const(a.val % m)
    if a.lo is not None and a.hi is not None and a.lo // m == a.hi // m:
        return sub(a, const(m * (a.lo // m)))
    if a.op == 'lin':
        d = {t: k % m for t, k in zip(a.args, a.val[0])}
        c = a.val[1] % m
        b = _mklin(d, c)
        if b is not a:
            return fmod(b, m)
    if a.op == 'fmod' and a.val % m == 0:
        return fmod(a.args[0], m)
    if a.op in ('ws', 'wu') and (1 << a.val) % m == 0:
        return fmod(a.args[0], m)
    if a.op == 'ite' and (a.args[1].op == 'c' or a.args[2].op == 'c'):
        return ite(a.args[0], fmod(a.args[1], m), fmod(a.args[2], m))
    return _mk('fmod', (a,), m, 0, m - 1)


def _tdiv(a, b):
    q = abs(a) // abs(b)
    return q if (a >= 0) == (b >= 0) else -q


def tdiv(a, b):
    """truncated division; meaningless for b = 0 (totalised to 0 for evaluation)"""
    a, b = I(a), I(b)
    if a.op == 'c' and b.op == 'c' and b.val != 0:
        return const(_tdiv(a.val, b.val))
    if b.op == 'c' and b.val == 1:
        return a
    if b.op == 'c' and b.val == -1:
        return neg(a)
    if b.op == 'c' and b.val < 0:
        return neg(tdiv(a, -b.val))
    if b.op == 'c' and b.val > 0:
        d = b.val
        if a.lo is not None and a.lo >= 0:
            return fdiv(a, d)
        if a.hi is not None and a.hi <= 0:
            return neg(fdiv(neg(a), d))
        if a.op == 'lin':      # exact divisibility
            if all(k % d == 0 for k in a.val[0]) and a.val[1] % d == 0:
                return _mklin({t: k // d for t, k in zip(a.args, a.val[0])}, a.val[1] // d)
            g = math.gcd(d, a.val[1], *a.val[0])
            if g > 1: return tdiv(_mklin({t: k // g for t, k in zip(a.args, a.val[0])}, a.val[1] // g), const(d // g))
    lo = hi = None
    if a.lo is not None and a.hi is not None:
        if b.op == 'c' and b.val > 0:
            lo, hi = _tdiv(a.lo, b.val), _tdiv(a.hi, b.val)
        elif b.lo is not None and b.lo > 0:
            c = [_tdiv(x, y) for x in (a.lo, a.hi) for y in ([b.lo] if b.hi is None else [b.lo, b.hi])]
            lo, hi = min(c + [0]) if b.hi is None else min(c), max(c + [0]) if b.hi is None else max(c)
        else:
            m = max(abs(a.lo), abs(a.hi))
            lo, hi = -m, m
    return _mk('tdiv', (a, b), None, lo, hi)


def trem(a, b):
    a, b = I(a), I(b)
    if a.op == 'c' and b.op == 'c' and b.val != 0:
        return const(a.val - b.val * _tdiv(a.val, b.val))
    if b.op == 'c' and b.val < 0:
        return trem(a, -b.val)
    if b.op == 'c' and (b.val == 1 or (a.op == 'lin' and a.val[1] % b.val == 0 and all(k % b.val == 0 for k in a.val[0]))):
        return const(0)
    if b.op == 'c' and b.val > 0:
        if a.lo is not None and a.lo >= 0:
            return fmod(a, b.val)
        if a.hi is not None and a.hi <= 0:
            return neg(fmod(neg(a), b.val))
    m = None
    if b.lo is not None and b.hi is not None:
        m = max(abs(b.lo), abs(b.hi)) - 1
        if m < 0:
            m = 0
    if a.lo is not None and a.hi is not None:
        m2 = max(abs(a.lo), abs(a.hi))
        m = m2 if m is None else min(m, m2)
    lo = None if m is None else (0 if (a.lo is not None and a.lo >= 0) else -m)
    hi = None if m is None else (0 if (a.hi is not None and a.hi <= 0) else m)
    if m is None:
        if a.lo is not None and a.lo >= 0: lo = 0
        if a.hi is not None and a.hi <= 0: hi = 0
    return _mk('trem', (a, b), None, lo, hi)


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a.sort == 'B':
        return or_(and_(c, a), and_(not_(c), b)) if True else None
    if c.op == 'not':
        return ite(c.args[0], b, a)
    if a.op == 'ite' and a.args[0] is c:
        a = a.args[1]
    if b.op == 'ite' and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    if c.op == 'le0' and c.args[0].lo is not None and c.args[0].lo >= 0 and b is c.args[0] and a is neg(b): return b   # |b| of b >= 0
    if b.op == 'ite' and b.args[1] is a:
        return ite(or_(c, b.args[0]), a, b.args[2])
    if a.op == 'ite' and a.args[2] is b:
        return ite(and_(c, a.args[0]), a.args[1], b)
    lo = None if a.lo is None or b.lo is None else min(a.lo, b.lo)
    hi = None if a.hi is None or b.hi is None else max(a.hi, b.hi)
    if lo is not None and hi is not None and lo < 0 and c.op == 'le0' and add(a, b) is const(0):
        # magnitude
        if c is le0(a) or c is le0(add(a, 1)): lo, hi = min(a.lo, -a.hi), 0
        elif c is le0(b) or c is le0(add(b, 1)): lo, hi = 0, max(-b.lo, b.hi)
    return _mk('ite', (c, a, b), None, lo, hi)


def in_range(t, lo, hi):
    return t.lo is not None and t.hi is not None and t.lo >= lo and t.hi <= hi


def _wrap_inner(a, n):
    """drop inner wraps that are irrelevant modulo 2^n"""
    m = 1 << n
    if a.op in ('ws', 'wu') and a.val >= n:
        return _wrap_inner(a.args[0], n)
    if a.op == 'fmod' and a.val % m == 0:
        return _wrap_inner(a.args[0], n)
    if a.op == 'lin':
        d, c = {}, a.val[1]
        ch = False
        for t, k in zip(a.args, a.val[0]):
            t2 = _wrap_inner(t, n)
            if t2 is not t:
                ch = True
            dd, cc = _lin_of(t2)
            c += cc * k
            for u, v in dd.items():
                d[u] = d.get(u, 0) + v * k
        # reduce coefficients modulo 2^n (balanced)
        for u in list(d):
            k = d[u] % m
            if k >= m // 2:
                k -= m
            if k != d[u]:
                ch = True
                d[u] = k
        if ch:
            return _mklin(d, c)
    return a


def ws(n, a):
    a = I(a)
    lo, hi = -(1 << (n - 1)), (1 << (n - 1)) - 1
    if in_range(a, lo, hi):
        return a
    if a.op == 'c':
        v = a.val & ((1 << n) - 1)
        return const(v - (1 << n) if v > hi else v)
    b = _wrap_inner(a, n)
    if b is not a:
        return ws(n, b)
    if a.op == 'ite' and (a.args[1].op == 'c' or a.args[2].op == 'c'
                          or in_range(a.args[1], lo, hi) or in_range(a.args[2], lo, hi)):
        return ite(a.args[0], ws(n, a.args[1]), ws(n, a.args[2]))
    return _mk('ws', (a,), n, lo, hi)


def wu(n, a):
    a = I(a)
    lo, hi = 0, (1 << n) - 1
    if in_range(a, lo, hi):
        return a
    if a.op == 'c':
        return const(a.val & hi)
    b = _wrap_inner(a, n)
    if b is not a:
        return wu(n, b)
    if in_range(a, -(1 << n), hi):
        pass
    if a.op == 'ite' and (a.args[1].op == 'c' or a.args[2].op == 'c'
                          or in_range(a.args[1], lo, hi) or in_range(a.args[2], lo, hi)):
        return ite(a.args[0], wu(n, a.args[1]), wu(n, a.args[2]))
    return _mk('wu', (a,), n, lo, hi)


# ---- bitwise (infinite two's complement) --------------------------------------------------
def _bits(x):
    return x.bit_length() if x >= 0 else (~x).bit_length()


def band(a, b):
    a, b = I(a), I(b)
    if a.op == 'c' and b.op == 'c':
        return const(a.val & b.val)
    if b.op == 'c':
        a, b = b, a
    if a is b:
        return a
    if a.op == 'c':
        m = a.val
        if m == 0:
            return const(0)
        if m == -1:
            return b
        if m > 0 and (m & (m + 1)) == 0:
            return fmod(b, m + 1)
        if m < 0 and ((-m) & (-m - 1)) == 0:      # ~(2^k-1): clear the low bits
            return sub(b, fmod(b, -m))
        if m > 0:
            # contiguous run of ones: 2^j*(2^i-1)
            low = (m & -m)
            r = m // low
            if (r & (r + 1)) == 0:
                return scale(fmod(fdiv(b, low), r + 1), low)
            return _mk('band', (a, b), None, 0, m if b.lo is None or b.lo < 0 else min(m, b.hi) if b.hi is not None else m)
    lo = hi = None
    if a.lo is not None and a.lo >= 0 and a.hi is not None:
        lo, hi = 0, a.hi
    if b.lo is not None and b.lo >= 0 and b.hi is not None:
        lo, hi = 0, b.hi if hi is None else min(hi, b.hi)
    if lo is None and None not in (a.lo, a.hi, b.lo, b.hi):
        n = max(_bits(a.lo), _bits(a.hi), _bits(b.lo), _bits(b.hi))
        lo, hi = -(1 << n), (1 << n) - 1
    if a.id > b.id:
        a, b = b, a
    return _mk('band', (a, b), None, lo, hi)


def _orxor(op, a, b):
    a, b = I(a), I(b)
    if a.op == 'c' and b.op == 'c':
        return const(a.val | b.val if op == 'bor' else a.val ^ b.val)
    if b.op == 'c':
        a, b = b, a
    if a.op == 'c' and a.val == 0:
        return b
    if a is b:
        return a if op == 'bor' else const(0)
    if a.op == 'c' and a.val == -1:
        return const(-1) if op == 'bor' else sub(-1, b)
    if op == 'bxor':
        for m, x in ((a, b), (b, a)):
            if m.lo is not None and m.hi is not None and m.lo >= -1 and m.hi <= 0: return ite(eq(m, 0), x, sub(-1, x))   # sign mask
    lo = hi = None
    if None not in (a.lo, a.hi, b.lo, b.hi):
        n = max(_bits(a.lo), _bits(a.hi), _bits(b.lo), _bits(b.hi))
        lo, hi = (0 if a.lo >= 0 and b.lo >= 0 else -(1 << n)), (1 << n) - 1
    if a.id > b.id:
        a, b = b, a
    # disjoint or: multiple of 2^k  |  value below 2^k
    if op == 'bor':
        for x, y in ((a, b), (b, a)):
            if y.lo is not None and y.lo >= 0 and y.hi is not None:
                k = y.hi.bit_length()
                if is_multiple(x, 1 << k):
                    return add(x, y)
    return _mk(op, (a, b), None, lo, hi)


def is_multiple(t, m):
    if t.op == 'c':
        return t.val % m == 0
    if t.op == 'lin':
        return t.val[1] % m == 0 and all(k % m == 0 or is_multiple(u, m) for u, k in zip(t.args, t.val[0]))
    if t.op in ('ws', 'wu'):
        return (1 << t.val) % m == 0 and is_multiple(t.args[0], m)
    if t.op == 'ite':
        return is_multiple(t.args[1], m) and is_multiple(t.args[2], m)
    return False


def bor(a, b): return _orxor('bor', a, b)
def bxor(a, b): return _orxor('bxor', a, b)


def pow2(k):
    k = I(k)
    if k.op == 'c':
        return const(1 << k.val)
    if k.op == 'ite':
        return ite(k.args[0], pow2(k.args[1]), pow2(k.args[2]))
    assert k.lo is not None and k.hi is not None and 0 <= k.lo and k.hi <= 256, ('pow2 range', k, k.lo, k.hi)
    r = const(1 << k.hi)
    for i in range(k.hi - 1, k.lo - 1, -1):
        r = ite(eq(k, i), const(1 << i), r)
    return r


def fdivp2(a, k):
    """floor(a / 2^k)"""
    a, k = I(a), I(k)
    if k.op == 'c':
        return fdiv(a, 1 << k.val)
    if k.op == 'ite':
        return ite(k.args[0], fdivp2(a, k.args[1]), fdivp2(a, k.args[2]))
    assert k.lo is not None and k.hi is not None and 0 <= k.lo and k.hi <= 256, ('fdivp2 range', k.lo, k.hi)
    r = fdiv(a, 1 << k.hi)
    for i in range(k.hi - 1, k.lo - 1, -1):
        r = ite(eq(k, i), fdiv(a, 1 << i), r)
    return r


def app(fname, args, lo=None, hi=None):
    args = tuple(I(a) for a in args)
    return _mk('app', args, (fname, lo, hi), lo, hi)


def papp(fname, args):
    args = tuple(I(a) for a in args)
    return _mk('papp', args, fname, None, None, 'B')


# ---- booleans -------------------------------------------------------------------------
def not_(a):
    if a is TRUE: return FALSE
    if a is FALSE: return TRUE
    if a.op == 'not': return a.args[0]
    if a.op == 'le0':    # not(t<=0)  <=>  1 - t <= 0
        return le0(sub(1, a.args[0]))
    return _mk('not', (a,), None, None, None, 'B')


def and_(*xs):
    s = {}
    for x in xs:
        if x is FALSE: return FALSE
        if x is TRUE: continue
        if x.op == 'and':
            for y in x.args: s[y.id] = y
        else:
            s[x.id] = x
    for y in s.values():
        n = not_(y)
        if n.id in s:
            return FALSE
    v = [s[k] for k in sorted(s)]
    if not v: return TRUE
    if len(v) == 1: return v[0]
    return _mk('and', tuple(v), None, None, None, 'B')


def or_(*xs):
    s = {}
    for x in xs:
        if x is TRUE: return TRUE
        if x is FALSE: continue
        if x.op == 'or':
            for y in x.args: s[y.id] = y
        else:
            s[x.id] = x
    for y in list(s.values()):
        if not_(y).id in s:
            return TRUE
    v = [s[k] for k in sorted(s)]
    if not v: return FALSE
    if len(v) == 1: return v[0]
    # factor common conjuncts:  (p & a) | (p & b) = p & (a | b)
    cj = [set(y.id for y in (x.args if x.op == 'and' else (x,))) for x in v]
    common = set.intersection(*cj)
    if common:
        byid = {}
        for x in v:
            for y in (x.args if x.op == 'and' else (x,)):
                byid[y.id] = y
        rest = []
        for x in v:
            rest.append(and_(*[y for y in (x.args if x.op == 'and' else (x,)) if y.id not in common]))
        return and_(*([byid[i] for i in common] + [or_(*rest)]))
    # p | (~p & q) = p | q
    for i, x in enumerate(v):
        if x.op == 'and':
            for j, y in enumerate(v):
                if i != j:
                    nid = not_(y).id
                    if nid in cj[i]:
                        v2 = v[:i] + [and_(*[z for z in x.args if z.id != nid])] + v[i + 1:]
                        return or_(*v2)
    return _mk('or', tuple(v), None, None, None, 'B')


def implies(a, b):
    return or_(not_(a), b)


def iff(a, b):
    if a is b: return TRUE
    if a is TRUE: return b
    if b is TRUE: return a
    if a is FALSE: return not_(b)
    if b is FALSE: return not_(a)
    return and_(implies(a, b), implies(b, a))


_ld = [0]
_lmemo = {}


def _lift(f, t):
    """comparison of a linear term with a single ite atom having a decided branch"""
    if t.op not in ('ite', 'lin') or _ld[0] >= 3: return None
    k = (f is le0, t.id)
    if k in _lmemo: return _lmemo[k]
    _ld[0] += 1
    try:
        r = _lift1(f, t)
    finally:
        _ld[0] -= 1
    if _ld[0] == 0: _lmemo[k] = r
    return r


def _lift1(f, t):
    if t.op == 'ite':
        c, a, b = t.args
        ra, rb = f(a), f(b)
        if ra.op == 'b' or rb.op == 'b':
            return or_(and_(c, ra), and_(not_(c), rb))
    if t.op == 'lin':
        its = [u for u in t.args if u.op == 'ite']
        if len(its) == 1:
            u = its[0]
            i = t.args.index(u)
            k = t.val[0][i]
            rest = sub(t, scale(u, k))
            c, a, b = u.args
            ra, rb = f(add(rest, scale(a, k))), f(add(rest, scale(b, k)))
            if ra.op == 'b' or rb.op == 'b':
                return or_(and_(c, ra), and_(not_(c), rb))
    return None


def le0(t):
    t = I(t)
    if t.op == 'c': return boolc(t.val <= 0)
    if t.hi is not None and t.hi <= 0: return TRUE
    if t.lo is not None and t.lo > 0: return FALSE
    r = _lift(le0, t)
    if r is not None:
        return r
    # divide by gcd of coefficients (tightening)
    if t.op == 'lin':
        from math import gcd
        g = 0
        for k in t.val[0]:
            g = gcd(g, k)
        if g > 1:
            return le0(_mklin({u: k // g for u, k in zip(t.args, t.val[0])}, -((-t.val[1]) // g)))
        if len(t.args) == 1:
            u, k, c = t.args[0], t.val[0][0], t.val[1]
            if u.op == 'fdiv':
                d = u.val
                if k == 1:      # floor(a/d) <= -c  <=>  a <= d*(-c) + d-1
                    return le0(sub(u.args[0], d * (-c) + d - 1))
                if k == -1:     # floor(a/d) >= c  <=>  a >= d*c
                    return le0(sub(d * c, u.args[0]))
    elif t.op == 'fdiv':
        return le0(sub(t.args[0], t.val - 1))
    return _mk('le0', (t,), None, None, None, 'B')


def eq0(t):
    t = I(t)
    if t.op == 'c': return boolc(t.val == 0)
    if t.lo is not None and t.lo > 0: return FALSE
    if t.hi is not None and t.hi < 0: return FALSE
    r = _lift(eq0, t)
    if r is not None:
        return r
    if t.op == 'lin':
        from math import gcd
        g = 0
        for k in t.val[0]:
            g = gcd(g, k)
        if t.val[1] % g:
            return FALSE
        if t.val[0][0] < 0:
            g = -g
        if g != 1:
            return eq0(_mklin({u: k // g for u, k in zip(t.args, t.val[0])}, t.val[1] // g))
    return _mk('eq0', (t,), None, None, None, 'B')


def le(a, b): return le0(sub(I(a), I(b)))
def lt(a, b): return le0(add(sub(I(a), I(b)), 1))
def ge(a, b): return le(b, a)
def gt(a, b): return lt(b, a)


def eq(a, b):
    if isinstance(a, T) and a.sort == 'B':
        return iff(a, b)
    return eq0(sub(I(a), I(b)))


def ne(a, b): return not_(eq(a, b))


def between(lo, x, hi):
    return and_(le(lo, x), le(x, hi))


def tmin(a, b):
    a, b = I(a), I(b)
    return ite(le(a, b), a, b)


def tmax(a, b):
    a, b = I(a), I(b)
    return ite(le(a, b), b, a)


def tabs(a):
    a = I(a)
    if a.hi is not None and a.hi <= 0: return neg(a)
    return ite(le(0, a), a, neg(a))


# ---- evaluation ----------------------------------------------------------------------
def evaluate(t, env, funs=None, cache=None):
    """env: var name -> int/bool; funs: uninterpreted function name -> python callable"""
    cache = {} if cache is None else cache
    stack = [t]
    while stack:
        x = stack[-1]
        if x.id in cache:
            stack.pop()
            continue
        if x.op == 'ite':
            c = x.args[0]
            if c.id not in cache:
                stack.append(c)
                continue
            br = x.args[1] if cache[c.id] else x.args[2]
            if br.id not in cache:
                stack.append(br)
                continue
            cache[x.id] = cache[br.id]
            stack.pop()
            continue
        if x.op in ('and', 'or'):
            stop = (x.op == 'or')
            done = False
            for y in x.args:
                if y.id not in cache:
                    stack.append(y)
                    done = None
                    break
                if cache[y.id] == stop:
                    cache[x.id] = stop
                    done = True
                    break
            if done is None:
                continue
            if done is False:
                cache[x.id] = not stop
            stack.pop()
            continue
        todo = [y for y in x.args if y.id not in cache]
        if todo:
            stack.extend(todo)
            continue
        a = [cache[y.id] for y in x.args]
        op = x.op
        if op in ('c', 'b'): r = x.val
        elif op == 'v': r = env[x.val[0]]
        elif op == 'bv': r = env[x.val]
        elif op == 'lin': r = sum(k * v for k, v in zip(x.val[0], a)) + x.val[1]
        elif op == 'mul':
            r = 1
            for v in a: r *= v
        elif op == 'fdiv': r = a[0] // x.val
        elif op == 'fmod': r = a[0] % x.val
        elif op == 'tdiv': r = _tdiv(a[0], a[1]) if a[1] else 0
        elif op == 'trem': r = a[0] - a[1] * _tdiv(a[0], a[1]) if a[1] else 0
        elif op == 'ws':
            m = 1 << x.val
            r = a[0] % m
            r = r - m if r >= m // 2 else r
        elif op == 'wu': r = a[0] % (1 << x.val)
        elif op == 'band': r = a[0] & a[1]
        elif op == 'bor': r = a[0] | a[1]
        elif op == 'bxor': r = a[0] ^ a[1]
        elif op == 'app': r = funs[x.val[0]](*a)
        elif op == 'papp': r = funs[x.val](*a)
        elif op == 'not': r = not a[0]
        elif op == 'le0': r = a[0] <= 0
        elif op == 'eq0': r = a[0] == 0
        else: raise Exception('eval ' + op)
        cache[x.id] = r
        stack.pop()
    return cache[t.id]


def subst(t, m, cache=None):
    """replace variables/subterms: m maps term.id -> term"""
    cache = {} if cache is None else cache

    def go(x):
        if x.id in m: return m[x.id]
        r = cache.get(x.id)
        if r is not None: return r
        if not x.args:
            r = x
        else:
            a = [go(y) for y in x.args]
            if all(p is q for p, q in zip(a, x.args)):
                r = x
            else:
                r = rebuild(x, a)
        cache[x.id] = r
        return r
    return go(t)


def modless(x, cache):
    """remainders written as a - m * floor(a / m), so that the digits of a number cancel in sums"""
    r = cache.get(x.id)
    if r is None:
        if not x.args: r = x
        else:
            a = [modless(y, cache) for y in x.args]
            if x.op == 'fmod': r = sub(a[0], scale(fdiv(a[0], x.val), x.val))
            else: r = x if all(p is q for p, q in zip(a, x.args)) else rebuild(x, a)
        cache[x.id] = r
    return r


def rebuild(x, a):
    op = x.op
    if op == 'lin':
        r = const(x.val[1])
        for k, y in zip(x.val[0], a):
            r = add(r, scale(y, k))
        return r
    if op == 'mul':
        r = a[0]
        for y in a[1:]: r = mul(r, y)
        return r
    if op == 'fdiv': return fdiv(a[0], x.val)
    if op == 'fmod': return fmod(a[0], x.val)
    if op == 'tdiv': return tdiv(*a)
    if op == 'trem': return trem(*a)
    if op == 'ite': return ite(*a)
    if op == 'ws': return ws(x.val, a[0])
    if op == 'wu': return wu(x.val, a[0])
    if op == 'band': return band(*a)
    if op == 'bor': return bor(*a)
    if op == 'bxor': return bxor(*a)
    if op == 'app': return app(x.val[0], a, x.val[1], x.val[2])
    if op == 'papp': return papp(x.val, a)
    if op == 'not': return not_(a[0])
    if op == 'and': return and_(*a)
    if op == 'or': return or_(*a)
    if op == 'le0': return le0(a[0])
    if op == 'eq0': return eq0(a[0])
    raise Exception('rebuild ' + op)


def vars_of(ts):
    seen, out, st = set(), {}, list(ts)
    while st:
        x = st.pop()
        if x.id in seen: continue
        seen.add(x.id)
        if x.op in ('v', 'bv'): out[x.id] = x
        st.extend(x.args)
    return list(out.values())


def show(t, depth=6):
    if depth == 0: return '…'
    s = lambda x: show(x, depth - 1)
    op = t.op
    if op in ('c', 'b'): return str(t.val)
    if op == 'v': return t.val[0]
    if op == 'bv': return t.val
    if op == 'lin':
        p = ' + '.join(('%s' if k == 1 else str(k) + '*%s') % s(u) for k, u in zip(t.val[0], t.args))
        return '(' + p + (' + %d' % t.val[1] if t.val[1] else '') + ')'
    if op == 'le0': return '(%s <= 0)' % s(t.args[0])
    if op == 'eq0': return '(%s = 0)' % s(t.args[0])
    return '%s%s(%s)' % (op, '' if t.val is None else '[%s]' % (t.val,), ', '.join(s(x) for x in t.args))


def size(t):
    seen, st = set(), [t]
    while st:
        x = st.pop()
        if x.id in seen: continue
        seen.add(x.id)
        st.extend(x.args)
    return len(seen)
