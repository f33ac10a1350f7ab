from specs.common import *
from specs import text
from vc import harn
PROP = 'C17'
HEAD = '#include "inst.hpp"\n#include <eirin/io/parse.hpp>\nusing namespace eirin;\n'
INSTS = ['f32', 'f64', 'f32_20', 'f32_8', 'f16_8', 'r32', 'f64_40', 'f32_30', 'f32_24', 'f8_4', 'u32_16']
INSTS_THOROUGH = ['f64_16', 'f64_62']
def op(name, call, fn, strict=True, **k):
    return Op(name, 's:chars n:u64 init:T', 'int', 'N x = mk<N>(init); int ok = %s(s, n, x) ? 1 : 0; out = x.internal_value(); return ok;' % call, None, text.post(strict), outs='out:T',
              bounds={'n': (0, text.LEN - 1)}, split=True, loops=text.loops(fn), strings=text.strings, facts=text.facts, **k)
OPS = [
    op('detail_parse', 'eirin::detail::parse<char>', 'eirin::detail::parse<'),
    op('fixed_from_cstring', 'eirin::fixed_from_cstring', 'eirin::fixed_from_cstring<', strict=False),
    op('f32_from_cstring', 'eirin::f32_from_cstring', 'eirin::f32_from_cstring(', when=lambda c: c.name == 'f32'),
]
OPS += [Op('detail_parse_wide', 's:wchars n:u64 init:T', 'int', 'N x = mk<N>(init); int ok = eirin::detail::parse<wchar_t>(s, n, x) ? 1 : 0; out = x.internal_value(); return ok;', None,
           text.post(True, cls=text.Wide4), outs='out:T', bounds={'n': (0, text.LEN // 4 - 1)}, split=True, loops=text.loops('eirin::detail::parse<'), strings=text.wide4, facts=text.wide4_facts,
           when=lambda c: c.name in ('f32', 'f16_8'))]
def io(name, call, **k):
    return Op(name, 's:chars n:u64 init:T', 'i64', 'N x = mk<N>(init); const char* e = %s; out = x.internal_value(); return e - s;' % call, None, outs='out:T', bounds={'n': (0, text.LEN - 1)}, split=True,
              loops=text.loops('eirin::io::detail::parse_impl<', ptr='start.addr'), when=lambda c: c.name == 'f32', **k)
OPS += [
    io('io_parse_view', 'eirin::io::parse(std::string_view(s, n), x)', post=text.post(True, end=True), strings=text.strings, facts=text.facts),
    io('io_parse_range', 'eirin::io::parse(s, s + n, x)', post=text.post(True, end=True, cls=text.Until), strings=text.until, facts=text.until_facts),
]
OPS += [Op('literal_' + nm, 's:chars n:u64', 'T', 'return operator""_%s(s, n).internal_value();' % nm, text.representable, text.literal, bounds={'n': (0, text.LEN - 1)}, split=True,
           loops=text.loops('eirin::detail::parse<'), strings=text.strings, facts=text.facts, when=lambda c, nm=nm: c.name == nm) for nm in ('f32', 'f64')]
LEVEL = 'proof'
BOUND = 'every string over {- . 0 1 9 5 x} of length up to 6 (7 thorough; 5 for the less common formats) and random long, near-limit and damaged numbers'
GROUP = 1
TMO = 8
WALL = 300


def parse(which, tier, seed): return [harn.record('parse_' + which, 'parse.cpp', [which], tier, seed, bound=BOUND)]


def custom(tier): return [('parse', w) for w in ('f32', 'f32io', 'f64', 'other32', 'other64', 'small')]
