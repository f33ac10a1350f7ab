from specs.common import *
PROP = 'C13'
INSTS = ['f32', 'f64', 'f32_20', 'f16_8', 'r32', 'f64_16']
INSTS_THOROUGH = ['f32_8', 'f32_24', 'f64_20', 'r64', 'r16_8']
SG = lambda c: c.sg and c.f >= 4 and c.n - c.f >= 5
PI_ = 'return eirin::pow(mk<N>(b), e).internal_value();'
TRY = 'try { x = eirin::pow(mk<N>(b), mk<N>(e)).internal_value(); return 0; } catch (const std::domain_error&) { return 1; } catch (...) { return 2; }'
T_ = '({ long double t = rpow_(V(b), e), m = t < 0 ? -t : t, B = AB(V(b)), E = e < 0 ? -(long double)e : e; (void)B; (void)E; %s; })'
FP_ = '({ long double b_ = V(b), e_ = V(e), t = powl(b_, e_), ti = powl(b_, truncl(e_)), E = fabsl(e_), L = fabsl(logl(b_)); (void)ti; (void)E; (void)L; %s; })'
EB = {'e': (-4096, 4096)}
intb = lambda c, b: eq(fmod(b, c.one), 0)
OPS = [
    Op('pow_zero_base', 'e:i32', 'T', 'return eirin::pow(N(0), e).internal_value();', None, lambda c, r, e: [('one for exponent zero, else zero', eq(r, ite(eq(e, 0), const(c.one), const(0))))], when=SG),
    Op('pow_zero_exp', 'b:T', 'T', 'return eirin::pow(mk<N>(b), 0).internal_value();', None, lambda c, r, b: [('one', eq(r, c.one))], when=SG),
    Op('pow_one_exp', 'b:T', 'T', 'return eirin::pow(mk<N>(b), 1).internal_value();', lambda c, b: c.fits(mul_spec(c, b, b)), lambda c, r, b: [('the base', eq(r, b))], when=SG),
    Op('pow_two', 'b:T', 'T', 'return eirin::pow(mk<N>(b), 2).internal_value();', lambda c, b: and_(c.fits(mul_spec(c, b, b)), c.fits(mul_spec(c, mul_spec(c, b, b), mul_spec(c, b, b)))),
       lambda c, r, b: [('the square', eq(r, mul_spec(c, b, b)))], when=SG),
    Op('fpow_zero_base', 'e:T', 'T', 'return eirin::pow(N(0), mk<N>(e)).internal_value();', None, lambda c, r, e: [('one for exponent zero, else zero', eq(r, ite(eq(e, 0), const(c.one), const(0))))], when=SG),
    Op('pow_pos', 'b:T e:i32', 'T', PI_, lambda c, b, e: ge(e, 0), None, when=SG, bounds={'e': (0, 1 << 30)},
       cpost=[('within the error bound', T_ % 'm > 0.98L * MAXV || B == 0 || AB(V(ret) - t) <= 2 * ULP * (1 + 2 * E * fmaxl(m / B, m))')]),
    Op('pow_integral', 'b:T e:i32', 'T', PI_, lambda c, b, e: and_(ge(e, 0), intb(c, b)), None, when=SG, bounds={'e': (0, 200)},
       cpost=[('exact for integral bases', '({ __int128 q = ipow_((__int128)b >> F_, e); q > ((__int128)MAXRAW >> F_) || q < -((__int128)MAXRAW >> F_) || (__int128)ret == q << F_; })')]),
    Op('pow_neg', 'b:T e:i32', 'T', PI_, lambda c, b, e: and_(lt(e, 0), ge(tabs(b), c.one)), None, when=SG, bounds={'e': (-(1 << 20), -1)},
       cpost=[('within the error bound', T_ % 'AB(V(ret) - t) <= 2 * ULP * (2 + 2 * E * m)')]),
    Op('pow_neg_small', 'b:T e:i32', 'T', PI_, lambda c, b, e: and_(lt(e, 0), lt(tabs(b), c.one), ne(b, 0)), None, when=SG, bounds={'e': (-60, -1)},
       cpre=T_ % 'm <= 0.5L * MAXV && 8 * E * m * ULP <= 0.5L',
       cpost=[('within the error bound', T_ % 'AB(V(ret) - t) <= 4 * ULP * (1 + m) * (1 + E * m)')]),
    Op('fpow_integral', 'b:T k:i32', 'bool', 'return eirin::pow(mk<N>(b), N(k)) == eirin::pow(mk<N>(b), (T)k);', lambda c, b, k: and_(c.fits(scale(k, c.one)), or_(ge(k, 0), ge(tabs(b), c.one))), lambda c, r, b, k: [('agrees with the integer power', eq(r, 1))], when=SG),
    Op('fpow_domain', 'b:T e:T', 'int', TRY, lambda c, b, e: and_(lt(b, 0), or_(ge(e, 0), ge(tabs(b), c.one))), lambda c, r, x, b, e: [('domain error exactly for non-integral exponents', eq(r, B(ne(fmod(e, c.one), 0))))], outs='x:T', when=SG, budget=100000),
    Op('fpow', 'b:T e:T', 'T', 'return eirin::pow(mk<N>(b), mk<N>(e)).internal_value();', lambda c, b, e: gt(b, 0), None, when=SG,
       cpre=FP_ % 't <= 0.4L * MAXV && t >= ULP && ti <= 0.4L * MAXV && 64 * (1 + E) * (1 + 1 / fminl(ti, 1 / ti)) * ULP <= 0.5L',
       cpost=[('within the error bound', FP_ % 'AB(V(ret) - t) <= 4 * ULP + t * (2e-6L + 8 * ULP * (4 + L + E * (2 + 1 / b_)) * (1 + 1 / fminl(ti, 1 / ti))) + 8 * ULP * (1 + ti)')]),
]
GROUP = 1
TMO = 8
WALL = 40
