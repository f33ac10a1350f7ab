from specs.common import *
PROP = 'C24'
INSTS = []
FLAGS = ('-mavx', '-mavx2', '-msse')
HEAD = '''#include "inst.hpp"
#include <array>
#include <eirin/ext/simd_math.hpp>
using namespace eirin;
static inline fixed64 q(int64_t v) { return fixed64::from_internal_value(v); }
'''
TP = 26986075409           # floor(2 pi 2^32)
Q = 1 << 64


def lane(r, x, lab):
    m = tabs(x)
    a = ite(ge(x, 0), r, const(0) - r)          # the result, measured in the direction of the angle
    return [('%s: angle minus whole turns' % lab, or_(eq(fmod(m - a, TP), 0), eq(fmod(m - a, TP - 1), 0))),
            ('%s: turns are truncated towards zero' % lab, and_(ge(a, 0), le(m - a, m))),
            ('%s: less than a turn, up to the error of the reciprocal' % lab, lt(scale(a - TP, Q), scale(m, TP)))]


def posts(k): return lambda c, *v: [p for i in range(k) for p in lane(v[i], v[k + i], 'lane %d' % i)]


NEG, POS = (-(1 << 63), -1), (0, (1 << 63) - 1)


def op(nm, args, call, i, sg):
    n = args.split()[i].split(':')[0]
    return Op('%s_lane%d_%s' % (nm, i, 'neg' if sg is NEG else 'pos'), args, 'i64', 'return simd::%s[%d].internal_value();' % (call, i), None,
              lambda c, r, *x: lane(r, x[i], 'lane %d' % i), perinst=False, bounds={n: sg})


OPS = [op('reduce4', 'a:i64 b:i64 c:i64 d:i64', 'simd_reduce_angle({q(a), q(b), q(c), q(d)})', i, s) for i in range(4) for s in (POS, NEG)]
OPS += [op('reduce2', 'a:i64 b:i64', 'simd_reduce_angle_2({q(a), q(b)})', i, s) for i in range(2) for s in (POS, NEG)]
GROUP = 2
