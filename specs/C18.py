from specs.common import *
from specs import text
from vc import harn
PROP = 'C18'
INSTS = ['f32', 'f64', 'f32_20', 'f32_8', 'f16_8', 'r32', 'f64_40', 'f32_30', 'f32_24', 'f8_4', 'u32_16']
INSTS_THOROUGH = ['f64_16', 'f64_62']
HEAD = '#include "inst.hpp"\n#include <istream>\nusing namespace eirin;\nextern "C" uint64_t eirin_ghost_pos(const void*);\n'
def op(name, ty, post=text.extract, strings=text.strings, facts=text.facts, **k):
    return Op(name, 'is:%s n:u64 st:int init:T' % ty, 'int', 'N x = mk<N>(init); is >> x; out = x.internal_value(); pos = eirin_ghost_pos(&is); return is.rdstate();', None, post, outs='out:T pos:u64',
              bounds={'n': (0, text.LEN - 1), 'st': (0, 7)}, split=True, loops=text.loops('eirin::operator>><', '@pos', cap=lambda c: (c.max >> c.f) + 2), strings=strings, facts=facts, **k)
OPS = [op('extract', 'stream'), op('extract_wide', 'wstream', text.extract_wide, text.wide, text.wide_facts, when=lambda c: c.name in ('f32', 'f16_8'))]
ASSUME = ['std::basic_istream peek, get, good, setstate, rdstate behave as written in vc/stream.py over a ghost character sequence; stream exceptions are off (the default); wide streams deliver characters in [0, 0x10ffff]']
GROUP = 1
TMO = 8
WALL = 300
LEVEL = 'proof'
BOUND = 'every string over {- . 0 1 9 5 x} of length up to 5 (6 thorough) and random long, near-limit and damaged numbers, narrow and wide streams'


def stream(which, tier, seed): return [harn.record('extract_' + which, 'stream.cpp', ['in', which], tier, seed, bound=BOUND)]


def custom(tier): return [('stream', w) for w in 'abc']
