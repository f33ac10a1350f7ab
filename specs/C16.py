from specs.common import *
import mpmath
mpmath.mp.prec = 300
PROP = 'C16'
INSTS = ['f32', 'f64', 'f32_20', 'f32_8', 'f32_24', 'f32_10', 'f64_20', 'f64_16', 'f64_40', 'f16_8', 'f16_8w', 'r32', 'r64', 'r16_8', 'r32_20']
m = mpmath
C = {'e_v': m.e, 'pi_v': m.pi, 'log2e_v': 1 / m.log(2), 'log10e_v': 1 / m.log(10), 'inv_pi_v': 1 / m.pi, 'inv_sqrtpi_v': 1 / m.sqrt(m.pi), 'ln2_v': m.log(2),
     'ln10_v': m.log(10), 'sqrt2_v': m.sqrt(2), 'sqrt3_v': m.sqrt(3), 'inv_sqrt3_v': 1 / m.sqrt(3), 'egamma_v': m.euler, 'phi_v': (1 + m.sqrt(5)) / 2}
MEM = {'e': m.e, 'pi': m.pi, 'pi_2': m.pi / 2, 'pi_4': m.pi / 4, 'double_pi': 2 * m.pi, 'epsilon': m.mpf(5) / 65536, 'nearly_compare_epsilon': m.mpf(5) / 65536}
VARS = ['pi', 'e', 'log2e', 'log10e', 'inv_pi', 'inv_sqrtpi', 'ln2', 'ln10', 'sqrt2', 'sqrt3', 'inv_sqrt3', 'egamma', 'phi']
def exact(c, v):
    x = (+v) * (1 << c.f)
    return int(m.floor(x + 0.5)) if c.r else int(m.floor(x))
def post(v):
    def p(c, r):
        k = exact(c, v)
        if c.f <= 32: return [('exact constant on the grid', eq(r, k))]
        s = 1 << (c.f - 40)      # the sources carry about 53 bits
        return [('constant within 2^-40', between(k - s, r, k + s))]
    return p
OPS = [Op(n, '', 'T', 'return eirin::numbers::%s<N>().internal_value();' % n, None, post(v)) for n, v in C.items()]
OPS += [Op('m_' + n, '', 'T', 'return N::%s().internal_value();' % n, None, post(v)) for n, v in MEM.items()]
OPS += [Op('n_%s' % n, '', 'T', 'return eirin::numbers::%s.internal_value();' % n, None, post(C[n + '_v']), when=lambda c: c.name == 'f32') for n in VARS]
OPS += [Op('n_%s_f64' % n, '', 'T', 'return eirin::numbers::%s_f64.internal_value();' % n, None, post(C[n + '_v']), when=lambda c: c.name == 'f64') for n in VARS]
GROUP = 100
