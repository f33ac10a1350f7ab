from specs.common import *
PROP = 'C07'
INSTS = ['f32', 'f64', 'f32_20', 'f16_8', 'r32', 'r64', 'r16_8', 'f64_16', 'u32_16']
INSTS_THOROUGH = ['f32_8', 'f32_24', 'f64_20', 'f64_40', 'r32_20', 'f8_4', 'f32_1', 'f32_30', 'u16_8']
OPS = []
def rne_spec(a, p, n):
    """a rounded to p significant bits, ties to even"""
    r = a
    for k in range(1, n - p + 1):
        d = 1 << k
        q = fdiv(a, d)
        up = or_(gt(fmod(a, d), d // 2), and_(eq(fmod(a, d), d // 2), eq(fmod(q, 2), 1)))
        r = ite(lt(tabs(a), 1 << (p + k - 1)), r, scale(q + B(up), d))
    return r
for ty, p in (('double', 53), ('float', 24)):
    OPS.append(Op('to_' + ty, 'a:T', 'i128', 'return (__int128)((%s)mk<N>(a) * (%s)(1ULL << $f));' % (ty, ty), None,
                  lambda c, r, a, p=p: [('nearest %d-bit value' % p, eq(r, rne_spec(a, p, c.n)))]))
OPS.append(Op('roundtrip', 'a:T', 'T', 'return N((double)mk<N>(a)).internal_value();', None, lambda c, r, a: [('same value', eq(r, a))], when=lambda c: c.n <= 32))
OPS.append(Op('roundtrip_f', 'a:T', 'T', 'return N((float)mk<N>(a)).internal_value();', None, lambda c, r, a: [('same value', eq(r, a))], when=lambda c: c.n <= 16))
OPS.append(Op('roundtrip_53', 'a:T', 'T', 'return N((double)mk<N>(a)).internal_value();', lambda c, a: between(-(1 << 53), a, 1 << 53), lambda c, r, a: [('same value', eq(r, a))], when=lambda c: c.n > 32))
def conv(ty, p, e):
    """every value of the floating type with exponent e: m * 2^e"""
    def scaled(c, m):
        k = e + c.f
        if k >= 0: return scale(m, 1 << k)
        return half_away(m, const(1 << -k)) if c.r else tdiv(m, const(1 << -k))
    def pre(c, m): return and_(between(-(1 << p), m, 1 << p), c.fits(scaled(c, m)), c.fits(scale(m, 1 << max(0, e + c.f)) if e + c.f >= 0 else tdiv(m, const(1 << -(e + c.f)))))
    nm = ('p%d' % e) if e >= 0 else 'm%d' % -e
    return Op('from_%s_%s' % (ty, nm), 'm:i%d' % (64 if p > 24 else 32), 'T', 'return N((%s)m * (%s)0x1p%d%s).internal_value();' % (ty, ty, e, 'f' if ty == 'float' else ''), pre,
              lambda c, r, m: [('scaled value rounded', eq(r, scaled(c, m)))], budget=4000, bounds={'m': (-(1 << p), 1 << p)})
for e in list(range(-96, 12)) + [-1021, -400, -150, 20, 40]: OPS.append(conv('double', 53, e))
for e in list(range(-70, 41)) + [-125, -100]: OPS.append(conv('float', 24, e))
for o in OPS:
    if o.name.startswith('from_'):
        ty, ex = o.name.split('_')[1:]
        ex = int(ex[1:]) * (1 if ex[0] == 'p' else -1)
        o.when = (lambda c, ex=ex: ex <= c.n - 1 - c.f and (ex >= -c.f - 58 or ex < -99))
GROUP = 60
TMO = 10
WALL = 60
