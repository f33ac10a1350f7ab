"""x86 vector intrinsics used by ext/simd_math.hpp (lane-wise, count operand given as a scalar)."""
import re
from . import term as t
from .term import const


def intrinsic(ex, st, n, args, inst, rty, atys):
    from . import exec as X
    m = re.match(r'x86\.(?:avx2|sse2)\.p(srl|sll|sra)i\.([qdw])$', n)
    if m and isinstance(args[0], X.Agg) and args[1].op == 'c':
        w = {'q': 64, 'd': 32, 'w': 16}[m.group(2)]
        k = t.wu(32, args[1]).val
        out = []
        for v in args[0].v:
            if v is X.UNDEF: return None
            if m.group(1) == 'sra': out.append(t.fdiv(v, 1 << min(k, w - 1)))
            elif k >= w: out.append(const(0))
            elif m.group(1) == 'srl': out.append(t.ws(w, t.fdiv(t.wu(w, v), 1 << k)))
            else: out.append(t.ws(w, t.scale(v, 1 << k)))
        return [(st, X.Agg(out))], []
    return None
