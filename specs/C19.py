from specs.common import *
from specs import outp
from vc import harn
from vc import term as t
PROP = 'C19'
INSTS = ['f32', 'f64', 'f32_20', 'f32_8', 'f32_30', 'f32_24', 'f16_8', 'r32', 'f64_16', 'f64_40', 'f64_62', 'f8_4', 'u32_16']
HEAD = '''#include "inst.hpp"
#include <ostream>
using namespace eirin;
extern "C" void eirin_emit(void*, char);
struct Sink { void* p; Sink& operator*() { return *this; } Sink& operator++() { return *this; } Sink& operator=(char c) { eirin_emit(p, c); return *this; } };
'''
HEX, DEC, OCT, UP = 3, 1, 6, 14       # bits of std::ios_base::fmtflags in this libstdc++; every other bit is arbitrary
B = {'hex': (16, {HEX: 1}), 'dec': (10, {HEX: 0, DEC: 1}), 'oct': (8, {HEX: 0, DEC: 0, OCT: 1}), 'bin': (2, {HEX: 0, DEC: 0, OCT: 0})}
OPS = [Op('insert_' + nm + ('upper' if up else ''), 'os:ostream x:T', None, 'os << mk<N>(x);', None, outp.post(b), split=True, loops=[outp.fraction_loop(b)], strings=(b, bool(up), {UP: up, **k}), ghosts=outp.GH)
       for nm, (b, k) in B.items() for up in (0, 1)]
OPS += [Op('chars_%d' % b, 'os:sink x:T', None, 'N::copy_as_chars_to(mk<N>(x), Sink{os}, %d, false);' % b, None, outp.post(b), split=True, loops=[outp.fraction_loop(b)], strings=(b, False, {}), ghosts=outp.GH,
           when=lambda c: c.name == 'f32') for b in (10,)]
ASSUME = ['std::operator<<(std::ostream&, char), put and flush append the character to the output (vc/stream.py); the field width is zero; ios_base flag layout of this libstdc++']
GROUP = 3
TMO = 8
WALL = 300
LEVEL = 'proof'
BOUND = 'every value of the 8- and 16-bit types; values around every power of two and random ones otherwise; bases 2, 8, 10, 16 in both cases'


def stream(which, tier, seed): return [harn.record('insert_' + which, 'stream.cpp', ['out', which], tier, seed, bound=BOUND)]


def custom(tier): return [('stream', w) for w in 'abcd']
