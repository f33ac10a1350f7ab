from specs.common import *
from fractions import Fraction as Q
from vc import term as t
from vc.loops import Cut, Facts
from vc.contracts import Contract
PROP = 'C11'
INSTS = ['f32', 'f64', 'f32_20', 'f16_8', 'r32']
INSTS_THOROUGH = ['f32_8', 'f32_24', 'f64_16', 'f64_20', 'f64_40', 'r64', 'r16_8', 'f32_10']
EX = lambda c: (1, c.max) if c.n <= 32 else None
TRY = 'try { x = eirin::%s(mk<N>(a)).internal_value(); return 0; } catch (const std::domain_error&) { return 1; } catch (...) { return 2; }'
dom = lambda c, r, x, a: [('domain error exactly for arguments not above zero', eq(r, B(le(a, 0))))]
def pow2(c, r, a): return [('exact for powers of two', and_(*[implies(eq(a, 1 << k), eq(r, (k - c.f) * c.one)) for k in range(0, c.n - 1)]))]
SG = lambda c: c.sg and c.f >= 4 and c.n - c.f >= 5
CP = lambda fn, tol: [('within the error bound', 'AB(V(ret) - std::%s(V(a))) <= %s' % (fn, tol))]
CODE = 'return eirin::%s(mk<N>(a)).internal_value();'
POS = lambda c, a: gt(a, 0)

# Ghosts: floor(2^K log2(.)) of positive integers.  The facts used about them are mathematics: log2 is increasing, log2(2^j u) = j + log2(u),
# log2(u v) = log2(u) + log2(v) and log2(1 + 1/u) <= log2(e) / u.
K = 128
U = 1 << K
LOG2E = (Q(14426950408889634073599246810018921374, 10 ** 37), Q(14426950408889634073599246810018921375, 10 ** 37))
LOG2_10 = (Q(33219280948873623478703194294893901758, 10 ** 37), Q(33219280948873623478703194294893901759, 10 ** 37))
def up(x): return -((-x.numerator) // x.denominator)
def glog(ex, a): return ex.__dict__.setdefault('glog', {}).setdefault(a.id, t.fresh('ghost_log2_arg', 0, 1 << (K + 8)))
def CC(c): return up(LOG2E[1] * U / c.one)
def slack(k): return (2 << k) - 1
def err(c, k):
    e = CC(c) + 1
    for _ in range(k): e = 2 * e + CC(c)
    return e
def shapes(c, a, z, y):
    """(shift, condition) of the normalised argument"""
    return [(j, and_(eq(y, j * c.one), eq(z, scale(a, 1 << -j)) if j <= 0 else and_(le(scale(z, 1 << j), a), lt(a, scale(z + 1, 1 << j))))) for j in range(-c.f, c.n - c.f)]
def digits(arg, ghost, pair):
    def inv(p):
        c, k, a = p.c, p.it, arg(p)
        r = []
        if k == 0: r.append(('normalised argument', or_(*[s for _, s in shapes(c, a, p.z, p.y)])))
        else:
            z0, y0 = p.log[(2, p.call, 0)].z, p.log[(2, p.call, 0)].y
            r += [('powers of two', implies(eq(z0, c.one), and_(eq(p.z, c.one), eq(p.y, y0)))), ('digits below those found', between(y0, p.y, y0 + c.one - (c.one >> k)))]
        if ghost:
            G = glog(p.vc.ex, a) - (c.f << K) - scale(p.y, U >> c.f)
            r += [('digits not above the logarithm', le(p.l - (c.f << K), scale(G, 1 << k) + slack(k))),
                  ('digits not far below the logarithm', le(scale(G, 1 << k), p.l - (c.f << K) + err(c, k)))]
        if pair and p.call == 0 and k > 0:
            q = p.log[(2, 0, k - 1)]
            r.append(('one squaring', or_(and_(eq(p.y, q.y), eq(p.z, fdiv(q.z * q.z, c.one))), and_(eq(p.y, q.y + (c.one >> k)), eq(p.z, fdiv(q.z * q.z, 2 * c.one))))))
        if pair and p.call == 1:
            p1 = p.log[(2, 0, k)]
            r.append(('order of the two arguments', or_(le(p1.y + (c.one >> k), p.y), and_(eq(p1.y, p.y), le(p1.z, p.z)))))
        return r
    def lem(p):
        c, a = p.c, arg(p)
        if p.it == 0:
            A, r = glog(p.vc.ex, a), []
            for j, s in shapes(c, a, p.z, p.y): r.append(implies(s, eq(p.l, A - (j << K)) if j <= 0 else between(p.l + (j << K), A, p.l + (j << K) + CC(c) + 1)))
            return r
        q, r = p.prev, []
        for m in (0, 1):
            s = c.f + m
            r.append(implies(and_(le(scale(p.z, 1 << s), q.z * q.z), lt(q.z * q.z, scale(p.z + 1, 1 << s)), ge(p.z, c.one)),
                             between(p.l + (s << K) - 1, scale(q.l, 2), p.l + (s << K) + CC(c))))
        return r
    def body(p):
        if not pair or p.call == 0: return []
        B = 2 * p.c.one
        return [p.use('squares increase', lambda x, y: implies(le(x, y), le(x * x, y * y)), (p.log[(2, 0, p.it)].z, 0, B), (p.z, 0, B))]
    return Cut('eirin::log2<', lambda c: {'z': (c.In, True, c.one, 2 * c.one - 1), 'y': (c.n, True, c.min, c.max)}, lambda c: {'i': (64, False), 'b': (c.n, True)}, inv,
               keys=['i'], at=(2,), ghosts=(lambda c: {'l': (c.f << K, (c.f + 1) << K)}) if ghost else None, lemmas=lem if ghost else None, body=body)
def close(c, ex, r, a):
    """0 <= 2^f log2(a / 2^f) - r <= 1 + E (units in the last place), up to 2^-80"""
    G = scale(glog(ex, a) - (c.f << K) - scale(r, U >> c.f), c.one)
    return between(-slack(c.f), G, U + err(c, c.f))
def rlog2(vc, r):
    c = vc.inst
    G = glog(vc.ex, vc.invars['a']) - (c.f << K) - scale(r, U >> c.f)     # 2^K log2 of the value, minus the result
    return and_(close(c, vc.ex, r, vc.invars['a']), le(scale(G + 1, c.one), 4 * U), ge(scale(G, c.one), -4 * U))
def rother(n, base):
    """|r base - log2| <= (n + |r|) base: linear in base, so checked at both ends of its enclosure"""
    def f(vc, r):
        c, a = vc.inst, vc.invars['a']
        if a.id not in vc.ex.__dict__.get('glog', {}): return None
        G = glog(vc.ex, a) - (c.f << K)
        out = []
        for b in base:
            D, N = b.denominator, b.numerator
            tol = scale(scale(tabs(r), U >> c.f) + n * U, N)      # (n + |V|) base, in units of 2^-K ulp / D
            for g in (G, G + 1):
                d = scale(r, N * U) - scale(g, D * c.one)
                out += [le(d, tol), ge(d, -tol)]
        return and_(*out)
    return f
log2 = Op('log2', 'a:T', 'T', CODE % 'log2', POS, pow2, exhaust=EX, when=SG, cpost=CP('log2', '4 * ULP'), split=True,
          loops=[digits(lambda p: p.I['a'], True, False)], real=Facts({'within the error bound': rlog2}))
Contract('log2', '%N eirin::log2%T(', 'v', log2, when=SG, facts=lambda ex, c, r, a: [close(c, ex, r, a)])
mono = digits(lambda p: p.I['a'] + p.call, False, True)
OPS = [
    log2,
    Op('log', 'a:T', 'T', CODE % 'log', POS, None, exhaust=EX, when=SG, cpost=CP('log', '(4 + AB(V(ret))) * ULP'), uses=['log2'], real=Facts({'within the error bound': rother(4, LOG2E)})),
    Op('log10', 'a:T', 'T', CODE % 'log10', POS, None, exhaust=EX, when=SG, cpost=CP('log10', '(3 + AB(V(ret))) * ULP'), uses=['log2'], real=Facts({'within the error bound': rother(3, LOG2_10)})),
    Op('log2_mono', 'a:T', 'bool', 'return eirin::log2(mk<N>(a)) <= eirin::log2(mk<N>((T)(a + 1)));', lambda c, a: and_(gt(a, 0), lt(a, c.max)),
       lambda c, r, a: [('does not decrease', eq(r, 1))], exhaust=EX, when=SG, split=True, loops=[mono]),
] + [Op(n + '_domain', 'a:T', 'int', TRY % n, None, dom, outs='x:T', when=SG, budget=20000, split=True, loops=[digits(lambda p: p.I['a'], False, False)]) for n in ('log2', 'log', 'log10')]
GROUP = 1
TMO = 8
WALL = 200
