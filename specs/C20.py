from vc import harn
PROP = 'C20'
INSTS = []
LEVEL = 'exploration'
OPS = []
BOUND = 'every combination of fill, alignment, sign, #, 0, and sampled width, precision and type on edge values; random specifications and values; every invalid type character'


def fmt(which, tier, seed): return [harn.record('format_' + which, 'fmt.cpp', [which], tier, seed, bound=BOUND)]


def custom(tier): return [('fmt', w) for w in 'abcd']
