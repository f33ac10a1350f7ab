"""Terms -> C expressions (clang _BitInt), used to evaluate specifications natively in searches and replays."""
from . import term as t
from .smt import topo
from .ir import Unsupported


def emit(name, args, roots, funs=None):
    """C++ text of  extern int name(Z args...): bit i set when roots[i] is false.  Z is wide enough for every subterm."""
    w = 64
    order = topo(roots)
    for x in order:
        if x.sort == 'I' and x.op not in ('app',):
            if x.lo is None or x.hi is None: raise Unsupported('unbounded term in C evaluation')
            w = max(w, t._bits(x.lo) + 2, t._bits(x.hi) + 2)
        if x.op == 'c': w = max(w, t._bits(x.val) + 2)
        if x.op == 'lin':
            for k in x.val[0]: w = max(w, t._bits(k) + 2)
    w = (w + 63) // 64 * 64
    ty = '__int128' if w <= 128 else '_BitInt(%d)' % w
    if w <= 64: ty = 'long long'
    out = []
    N = {}

    def lit(n):
        if -(1 << 62) < n < (1 << 62): return '(Z)%dLL' % n
        neg = n < 0
        n = abs(n)
        parts = []
        sh = 0
        while n:
            parts.append('((Z)%dULL << %d)' % (n & ((1 << 32) - 1), sh) if sh else '(Z)%dULL' % (n & ((1 << 32) - 1)))
            n >>= 32
            sh += 32
        s = '(' + '+'.join(parts) + ')'
        return '(-%s)' % s if neg else s
    for x in order:
        op = x.op
        a = [N[y.id] for y in x.args]
        if op == 'c': N[x.id] = lit(x.val); continue
        if op == 'b': N[x.id] = '1' if x.val else '0'; continue
        if op == 'v': N[x.id] = 'v_' + x.val[0].replace('!', '_'); continue
        if op == 'bv': N[x.id] = 'v_' + x.val.replace('!', '_'); continue
        if op == 'lin':
            e = '+'.join('%s*%s' % (lit(k), u) if k != 1 else u for k, u in zip(x.val[0], a))
            if x.val[1]: e += '+' + lit(x.val[1])
        elif op == 'mul': e = '*'.join(a)
        elif op == 'fdiv': e = 'vfdiv(%s,%s)' % (a[0], lit(x.val))
        elif op == 'fmod': e = '%s-%s*vfdiv(%s,%s)' % (a[0], lit(x.val), a[0], lit(x.val))
        elif op == 'tdiv': e = '%s==0?(Z)0:%s/%s' % (a[1], a[0], a[1])
        elif op == 'trem': e = '%s==0?(Z)0:%s%%%s' % (a[1], a[0], a[1])
        elif op == 'ite': e = '%s?%s:%s' % tuple(a)
        elif op == 'ws':
            e = 'vws(%s,%d)' % (a[0], x.val)
        elif op == 'wu': e = '%s-%s*vfdiv(%s,%s)' % (a[0], lit(1 << x.val), a[0], lit(1 << x.val))
        elif op == 'band': e = '%s&%s' % tuple(a)
        elif op == 'bor': e = '%s|%s' % tuple(a)
        elif op == 'bxor': e = '%s^%s' % tuple(a)
        elif op == 'not': e = '!%s' % a[0]
        elif op == 'and': e = '&&'.join(a)
        elif op == 'or': e = '||'.join(a)
        elif op == 'le0': e = '%s<=0' % a[0]
        elif op == 'eq0': e = '%s==0' % a[0]
        else: raise Unsupported('C evaluation of ' + op)
        n = 'x%d' % x.id
        out.append('  %s %s = %s;' % ('bool' if x.sort == 'B' else 'Z', n, e))
        N[x.id] = n
    body = '\n'.join(out)
    r = '|'.join('(%s?0:%d)' % (N[r.id], 1 << i) for i, r in enumerate(roots)) or '0'
    mx = max([k.val for k in order if k.op in ('ws', 'wu')] or [0])
    return '''namespace ns_%s {
typedef %s Z;
static inline Z vfdiv(Z a, Z b){ Z q=a/b; return (a%%b!=0 && a<0) ? q-1 : q; }
static inline Z vws(Z a, int n){ Z m=(Z)1<<n; Z r=a-m*vfdiv(a,m); return r>=(m>>1)?r-m:r; }
static int chk(%s) {
%s
  return %s;
}
}
''' % (name, ty, ', '.join('Z v_' + a for a in args), body, r)
