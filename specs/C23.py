from specs.common import *
PROP = 'C23'
INSTS = ['f32', 'f64']
HEAD = '#include "inst.hpp"\n#include <eirin/ext/cordic.hpp>\nusing namespace eirin;\n'
EX = lambda c: (c.min, c.max) if c.n <= 32 else None
OPS = [
    Op('cordic_sine', 'a:T', 'T', 'return eirin::cordic_sine(mk<N>(a)).internal_value();', None, None, exhaust=EX,
       cpost=[('within the error bound', 'AB(V(ret) - std::sin(V(a))) <= (32 + AB(V(a)) / PI) * ULP')]),
    Op('cordic_odd', 'a:T', 'bool', 'return eirin::cordic_sine(mk<N>(a)) == -eirin::cordic_sine(mk<N>((T)-a));', lambda c, a: and_(ne(a, c.min), ne(a, 0)), lambda c, r, a: [('odd', eq(r, 1))], exhaust=EX),
]
GROUP = 1
TMO = 8
WALL = 40
