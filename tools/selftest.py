#!/usr/bin/env python3
"""Randomised self-test of the verifier's trusted parts (not used by the checks): term constructors against plain integer arithmetic,
bounds of terms, SMT encodings, Taylor-model enclosures of integer terms and of the real functions.
usage: python3-vt tools/selftest.py [seconds] [seed]"""
import sys, os, random, time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
from vc import term as t, real, smt
from mpmath import mp
import mpmath
secs = float(sys.argv[1]) if len(sys.argv) > 1 else 60
R = random.Random(int(sys.argv[2]) if len(sys.argv) > 2 else 1)


def tq(a, b): return abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1) if b else 0


def wrap(n, a):
    a %= 1 << n
    return a - (1 << n) if a >> (n - 1) else a


def gen(vs, d):
    """(term, function of the assignment)"""
    if d == 0 or R.random() < .1:
        if R.random() < .3:
            k = R.choice([0, 1, -1, 2, 3, 7, 65536, -65536, 131072, R.randint(-10 ** 6, 10 ** 6)])
            return t.const(k), lambda e: k
        v = R.choice(vs)
        return v, lambda e, n=v.val[0]: e[n]
    op = R.choice(['add', 'sub', 'scale', 'mul', 'fdiv', 'fmod', 'tdiv', 'trem', 'ite', 'ws', 'wu', 'band', 'half', 'fhalf', 'abs', 'min', 'tdivv'])
    a, f = gen(vs, d - 1)
    k = R.choice([2, 3, 4, 16, 256, 65536, 32768, 3217, R.randint(2, 10 ** 5)])
    if op in ('add', 'sub', 'mul', 'min', 'ite', 'tdivv'):
        b, g = gen(vs, d - 1)
        if op == 'add': return t.add(a, b), lambda e: f(e) + g(e)
        if op == 'sub': return t.sub(a, b), lambda e: f(e) - g(e)
        if op == 'mul': return t.mul(a, b), lambda e: f(e) * g(e)
        if op == 'min': return t.tmin(a, b), lambda e: min(f(e), g(e))
        if op == 'tdivv': return t.ite(t.eq(b, 0), a, t.tdiv(a, b)), lambda e: tq(f(e), g(e)) if g(e) else f(e)
        c, h = gen(vs, d - 2 if d > 1 else 0)
        q = R.choice(['le', 'eq', 'lt'])
        return t.ite(getattr(t, q)(a, c), a, b), lambda e: f(e) if {'le': f(e) <= h(e), 'eq': f(e) == h(e), 'lt': f(e) < h(e)}[q] else g(e)
    if op == 'scale':
        k = R.randint(-70000, 70000)
        return t.scale(a, k), lambda e: f(e) * k
    if op == 'fdiv': return t.fdiv(a, k), lambda e: f(e) // k
    if op == 'fmod': return t.fmod(a, k), lambda e: f(e) % k
    if op == 'tdiv':
        k *= R.choice([1, 1, -1])
        return t.tdiv(a, t.const(k)), lambda e: tq(f(e), k)
    if op == 'trem': return t.trem(a, t.const(k)), lambda e: f(e) - k * tq(f(e), k)
    if op == 'half':
        q = t.tdiv(a, t.const(k))
        return t.add(t.tdiv(q, t.const(2)), t.trem(q, t.const(2))), lambda e: (lambda x: tq(x, 2) + x - 2 * tq(x, 2))(tq(f(e), k))
    if op == 'fhalf':
        q = t.fdiv(a, k)
        return t.add(t.fdiv(q, 2), t.fmod(q, 2)), lambda e: -(-(f(e) // k) // 2)
    n = R.choice([8, 16, 32, 64])
    if op == 'ws': return t.ws(n, a), lambda e: wrap(n, f(e))
    if op == 'wu': return t.wu(n, a), lambda e: f(e) % (1 << n)
    if op == 'band':
        m = R.choice([255, 65535, -65536, 0x8000, 1])
        return t.band(a, t.const(m)), lambda e: f(e) & m
    return t.tabs(a), lambda e: abs(f(e))


def fail(*a):
    print('SELFTEST FAILED', *a)
    sys.exit(1)


def nodes(x):
    seen, st = {}, [x]
    while st:
        y = st.pop()
        if y.id not in seen:
            seen[y.id] = y
            st += y.args
    return seen.values()


n = dict(terms=0, points=0, boxes=0, smt=0, reals=0)
end = time.time() + secs
import z3
while time.time() < end:
    lim = R.choice([100, 1 << 15, 1 << 20, 1 << 31, 1 << 63])
    lo, hi = sorted((R.randint(-lim, lim), R.randint(-lim, lim)))
    vs = [t.fresh('a', lo, hi)] + ([t.fresh('b', -lim, lim)] if R.random() < .4 else [])
    x, f = gen(vs, R.randint(1, 6))
    n['terms'] += 1
    pick = lambda v: R.choice([v.lo, v.hi, R.randint(v.lo, v.hi), max(v.lo, min(v.hi, R.randint(-70000, 70000)))])
    for _ in range(12):
        e = {v.val[0]: pick(v) for v in vs}
        cache = {}
        n['points'] += 1
        r = t.evaluate(x, e, None, cache)
        if r != f(e): fail('constructor', t.show(x), e, r, f(e))
        for y in nodes(x):
            if y.sort == 'I' and y.id in cache:
                if y.lo is not None and cache[y.id] < y.lo or y.hi is not None and cache[y.id] > y.hi: fail('bounds', t.show(y), e)
    if R.random() < .05 and x.args:
        e = {v.val[0]: pick(v) for v in vs}
        r = t.evaluate(x, e)
        for E in (smt.IntEnc, smt.BVEnc):
            for val, want in ((r, z3.sat), (r + 1, z3.unsat)):
                try: txt = E().text([t.eq(v, e[v.val[0]]) for v in vs] + [t.eq(x, val)])
                except smt.Unsupported: continue
                s = z3.Solver()
                s.set('timeout', 2000)
                s.from_string(txt)
                c = s.check()
                n['smt'] += 1
                if c != z3.unknown and c != want: fail('encoding', E.__name__, t.show(x), e, val, c)
    if len(vs) == 1 and x.args:
        v = vs[0]
        for _ in range(4):
            l = pick(v)
            h = min(v.hi, l + R.choice([0, 1, 5, 1000, 10 ** 6, 1 << 62]))
            real.KEEP[0] = R.choice([0, 2, 20])
            bx = real.Box(v, l, h)
            try: m = bx.val(x)
            except real.Giveup: continue
            a, b = m.range()
            n['boxes'] += 1
            try: p, q = bx.rng(x)
            except real.Giveup: p = q = None
            for _ in range(6):
                w = R.choice([l, h, R.randint(l, h)])
                g = f({v.val[0]: w})
                if not a <= g * real.ONE <= b: fail('enclosure', t.show(x), (l, h), w, g, a / real.ONE, b / real.ONE)
                if p is not None and not p <= g <= q: fail('range', t.show(x), (l, h), w, g, p, q)
    # real functions
    nm = R.choice(['sin', 'cos', 'exp', 'log', 'atan', 'sqrt', 'recip'])
    l = R.randint(1, 1 << 20)
    if nm in ('sin', 'cos', 'exp', 'atan') and R.random() < .5: l = -l
    h = l + R.choice([0, 3, 100, 5000])
    if l <= 0 <= h and nm in ('recip', 'log', 'sqrt'): continue
    g = real.ident(l, h).shr(1, 65536 if nm != 'exp' else 1 << 18)
    try: m = g.recip() if nm == 'recip' else getattr(real, nm)(g)
    except real.Giveup: continue
    with mpmath.workprec(400):
        for _ in range(4):
            w = R.choice([l, h, R.randint(l, h)])
            y = mpmath.mpf(w) / (65536 if nm != 'exp' else 1 << 18)
            y = {'sin': mpmath.sin, 'cos': mpmath.cos, 'exp': mpmath.exp, 'log': mpmath.log, 'atan': mpmath.atan, 'sqrt': mpmath.sqrt, 'recip': lambda z: 1 / z}[nm](y)
            a, b = m.range()
            n['reals'] += 1
            # the model itself at this point, not only its range
            s = mpmath.mpf(0)
            if not mpmath.mpf(a) / real.ONE <= y <= mpmath.mpf(b) / real.ONE: fail('real', nm, (l, h), w)
print('ok', n)
