from specs.common import *
from vc import real
from vc.loops import Cut
from vc.contracts import Contract
from vc.real import within, num, tmabs, PI
PROP = 'C25'
INSTS = ['f32', 'f64', 'f32_20', 'f32_8', 'f16_8', 'r32', 'f64_16']
INSTS_THOROUGH = ['f32_24', 'f64_20', 'f64_40', 'r64', 'r16_8', 'f32_10']
EX = lambda c: (c.min, c.max) if c.n <= 32 else None
def cb(c, r, a):
    """|r| is the integer cube root of |a| * 2^(2f)"""
    m = tmin(tabs(a), const(c.max))
    x = tabs(r)
    t3 = scale(m, c.one * c.one)
    return [('sign of the argument', and_(implies(gt(a, 0), gt(r, 0)), implies(lt(a, 0), lt(r, 0)), implies(eq(a, 0), eq(r, 0)))),
            ('cube does not exceed the argument', le(x * x * x, t3)), ('next cube exceeds the argument', lt(t3, (x + 1) * (x + 1) * (x + 1)))]
def PIr(c): return (0x6487ED5110B4611A + (1 << (60 - c.f)) if c.r else 0x6487ED5110B4611A) >> (61 - c.f)
deg = lambda c, a: mul_spec(c, div_spec(c, a, const(PIr(c))), const(180 * c.one))
rad = lambda c, a: mul_spec(c, div_spec(c, a, const(180 * c.one)), const(PIr(c)))
S180 = lambda c: c.max >= 180 * c.one
def rdeg(c, x, r): return within(r * PI() - x * 180, (tmabs(x) * 19 + 182).shr(1, c.one) * PI())
def rrad(c, x, r): return within(r * 180 - x * PI(), (tmabs(x) + 900).shr(1, c.one))
def top(c): return 1 << ((c.n + 2 * c.f) // 3 + 1)
def root(p):
    """x holds the bits of the root above bit i"""
    m, i = scale(p.value, p.c.one * p.c.one), p.i.val
    n = p.x + (1 << (i + 1))
    return [('bits above', le(p.x, top(p.c) - (1 << (i + 1)))), ('cube not above', le(p.x * p.x * p.x, m)), ('next cube above', lt(m, n * n * n))]
def compare(S, N, T, s):
    """S N <= T 2^s decided with quotients only"""
    h, l, q = fdiv(S, 1 << s), fmod(S, 1 << s), tdiv(T, N)
    return and_(le(q * N, T), lt(T, q * N + N), ge(q, 0), iff(or_(lt(h, q), and_(eq(h, q), le(l * N, scale(T - q * N, 1 << s)))), le(S * N, scale(T, 1 << s))))
def divided(p):
    if p.i.val < 0: return []
    c, N = p.c, p.x + (1 << p.i.val)
    shift = min(2 * c.f, c.n)
    B = 1 << ((c.n + 2 * c.f) // 3 + 2)
    return [p.use('comparison by quotients', compare, (N * N, 0, B * B), (N, 1, B), (scale(p.value, 1 << shift), 0, 1 << (c.n + shift)), 2 * c.f - shift)]
CUT = Cut('eirin::cbrt<', lambda c: {'x': (c.In, True, 0, top(c))},
          lambda c: {'i': (32, True), 'value': (c.n, True), 'target': (c.In, True)}, root, lambda p: {'x': 1 << (p.i.val + 1)}, keys=['i'], join=max, body=divided,
          defs=lambda c: {'value': (c.n, True, lambda c, I, D: tmin(tabs(I['a']), const(c.max)), 0, c.max),
                          'target': (c.In, True, lambda c, I, D: scale(D.get('value', 0), 1 << min(2 * c.f, c.n)), None, None)})
msb = Op('find_msb', 'a:T', 'int', 'return eirin::detail::find_msb(a);', lambda c, a: gt(a, 0),
         lambda c, r, a: [('highest set bit', and_(between(0, r, c.n - 2), *[implies(eq(r, j), between(1 << j, a, (2 << j) - 1)) for j in range(c.n - 1)]))], when=lambda c: c.sg)
Contract('find_msb', 'int eirin::detail::find_msb<%D>(%D)', 'v', msb, when=lambda c: c.sg, rng=lambda c: (0, c.n - 2))
OPS = [
    Op('cbrt', 'a:T', 'T', 'return eirin::cbrt(mk<N>(a)).internal_value();', None, cb, exhaust=EX, when=lambda c: c.sg, split=True, loops=[CUT], uses=['find_msb']),
    Op('degrees', 'a:T', 'T', 'return eirin::degrees(mk<N>(a)).internal_value();', lambda c, a: and_(c.fits(div_spec(c, a, const(PIr(c)))), c.fits(deg(c, a))),
       lambda c, r, a: [('quotient by pi times 180', eq(r, deg(c, a)))], when=S180, real=real.Direct({'within the error bound': rdeg}, keep=2),
       cpost=[('within the error bound', 'AB(V(ret) - V(a) * 180 / PI) <= (182 + AB(V(a)) * 19) * ULP')]),
    Op('radians', 'a:T', 'T', 'return eirin::radians(mk<N>(a)).internal_value();', lambda c, a: and_(c.fits(div_spec(c, a, const(180 * c.one))), c.fits(rad(c, a))),
       lambda c, r, a: [('quotient by 180 times pi', eq(r, rad(c, a)))], when=S180, real=real.Direct({'within the error bound': rrad}, keep=2),
       cpost=[('within the error bound', 'AB(V(ret) - V(a) * PI / 180) <= (5 + AB(V(a)) / 180) * ULP')]),
]
GROUP = 1
TMO = 8
WALL = 400
