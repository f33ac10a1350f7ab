"""Semantics of compiler intrinsics and of the run-time / standard-library functions that are not part of /repo.
Everything here is an assumption about the platform and is listed in the evidence (trusted externals)."""
from . import term as t
from .term import TRUE, FALSE, and_, or_, not_, ite, const
from .ir import Unsupported, IntTy, PTR
from . import exec as X

EXC = X.Obj('ext', 'exception', None)
_tid = {}
BASES = {
    '@_ZTISt12domain_error': ['@_ZTISt11logic_error', '@_ZTISt9exception'],
    '@_ZTISt16invalid_argument': ['@_ZTISt11logic_error', '@_ZTISt9exception'],
    '@_ZTISt12out_of_range': ['@_ZTISt11logic_error', '@_ZTISt9exception'],
    '@_ZTISt12format_error': ['@_ZTISt13runtime_error', '@_ZTISt9exception'],
    '@_ZTIN5eirin14divide_by_zeroE': ['@_ZTISt9exception', '@_ZTISt11logic_error', '@_ZTISt12domain_error'],
}
USED = {}


def typeid(n):
    if n not in _tid: _tid[n] = len(_tid) + 1
    return _tid[n]


def exc_bases(ex, n):
    """bases from the typeinfo object emitted in this module, else the table above"""
    out, todo, seen = [], [n], set()
    while todo:
        x = todo.pop()
        if x in seen: continue
        seen.add(x)
        g = ex.m.globals.get(x)
        if g and g[0] != 'alias' and g[1] and g[1][0] == 'agg':
            for ty, v in g[1][1]:
                if v[0] == 'glob' and v[1].startswith('@_ZTI') and v[1] != x: todo.append(v[1])
                if v[0] == 'glob' and v[1].startswith('@_ZTI'): out.append(v[1])
        else:
            out += BASES.get(x, [])
    return out


_ex = [None]


def exc_matches(exc, ti):
    return exc == ti or ti in exc_bases(_ex[0], exc)


NOPS = ('@llvm.dbg.', '@llvm.lifetime.', '@llvm.experimental.noalias', '@llvm.var.annotation', '@llvm.donothing', '@llvm.invariant')


def builtin(ex, st, name, args, inst, rty, atys):
    _ex[0] = ex
    R = lambda v=None: ([(st, v)], [])
    if name.startswith(NOPS): return R()
    if name.startswith('@llvm.'):
        return intrinsic(ex, st, name, args, inst, rty, atys)
    if name == '@__cxa_allocate_exception':
        o = X.Obj('heap', 'exception', None)
        st.mem[o.id] = {}
        return R(X.Ptr(o))
    if name == '@__cxa_free_exception': return R()
    if name == '@__cxa_throw':
        ti = args[1].o.name if isinstance(args[1], X.Ptr) and args[1].o else None
        return [], [(st, ti)]
    if name == '@__cxa_begin_catch': return R(X.Ptr(EXC))
    if name == '@__cxa_end_catch':
        st.exc = None
        return R()
    if name == '@__cxa_rethrow': return [], [(st, st.exc)]
    if name in ('@__clang_call_terminate', '@_ZSt9terminatev', '@abort'):
        ex.ob('program terminates (exception escapes noexcept / abort)', st, FALSE, inst)
        return [], []
    if name in ('@__assert_fail', '@_ZSt21__glibcxx_assert_failPKciS0_S0_'):
        ex.ob('assertion', st, FALSE, inst)
        return [], []
    if name == '@__cxa_guard_acquire':
        v = ex.load(st, IntTy(8), args[0], inst)
        return R(ite(t.eq(v, 0), const(1), const(0)))
    if name == '@__cxa_guard_release':
        ex.store(st, IntTy(8), args[0], const(1), inst)
        return R()
    if name == '@__cxa_guard_abort': return R()
    d = X.demangle(name)
    # constructors / destructors of standard exceptions: no effect on the modelled state
    if d.startswith(('std::domain_error::', 'std::exception::', 'std::logic_error::', 'std::runtime_error::',
                     'std::invalid_argument::', 'std::out_of_range::')) or d.startswith('eirin::divide_by_zero::'):
        if d.startswith('eirin::') and name in ex.m.funcs: return None
        USED[d] = USED.get(d, 0) + 1
        return R()
    h = EXT.get(d)
    if h is not None:
        USED[d] = USED.get(d, 0) + 1
        return h(ex, st, args, inst)
    for pat, h in EXTPAT:
        if pat.match(d):
            r = h(ex, st, args, inst, d)
            if r is not None:
                USED[d] = USED.get(d, 0) + 1
                return r
    return None


EXT = {}
EXTPAT = []


def ext(*names):
    def deco(f):
        for n in names: EXT[n] = f
        return f
    return deco


@ext('isdigit')
def _isdigit(ex, st, args, inst):
    c = args[0]
    # ISO C 7.4: the argument must be representable as unsigned char or EOF
    ex.ob('isdigit argument in range', st, t.between(-1, c, 255), inst)
    return [(st, ite(t.between(48, c, 57), const(1), const(0)))], []


@ext('strlen')
def _strlen(ex, st, args, inst):
    p = args[0]
    if isinstance(p, X.Ptr) and p.o is not None and p.off.op == 'c' and isinstance(p.o.ghost, dict):
        k = p.off.val
        while k in p.o.ghost and p.o.ghost[k][1].val != 0: k += 1
        if k in p.o.ghost: return [(st, const(k - p.off.val))], []
    raise Unsupported('strlen')


def intrinsic(ex, st, name, args, inst, rty, atys):
    R = lambda v=None: ([(st, v)], [])
    n = name[6:]
    if n.startswith(('memcpy.', 'memmove.')):
        ex.memcpy(st, args[0], args[1], args[2], inst)
        return R()
    if n.startswith('memset.'):
        if args[2].op != 'c' or args[1].op != 'c': raise Unsupported('memset')
        k = args[2].val
        if args[1].val != 0: raise Unsupported('memset non-zero')
        for i in range(k):
            ex.store(st, IntTy(8), ex.pmap(args[0], lambda p: X.Ptr(p.o, t.add(p.off, i))), const(0), inst)
        return R()
    if n.startswith('expect.'): return R(args[0])
    if n.startswith('assume'):
        return R()
    if n.startswith('eh.typeid.for'):
        p = args[0]
        return R(const(typeid(p.o.name if p.o else None)))
    if n == 'trap' or n.startswith('ubsantrap'):
        ex.ob('trap', st, FALSE, inst)
        return [], []
    if n.startswith('stacksave') or n.startswith('stackrestore'): return R(X.NULL)
    if n.startswith('is.constant'): return R(FALSE)
    import re
    m = re.match(r'([su])(add|sub|mul)\.with\.overflow\.i(\d+)', n)
    if m:
        w = int(m.group(3))
        a, b = args
        if m.group(1) == 'u': a, b = t.wu(w, a), t.wu(w, b)
        r = {'add': t.add, 'sub': t.sub, 'mul': t.mul}[m.group(2)](a, b)
        ok = t.between(0, r, (1 << w) - 1) if m.group(1) == 'u' else t.between(-(1 << (w - 1)), r, (1 << (w - 1)) - 1)
        return R(X.Agg([t.ws(w, r), not_(ok)]))
    m = re.match(r'(ctlz|cttz|ctpop|abs|smax|smin|umax|umin|bswap|fshl|fshr)\.i(\d+)', n)
    if m:
        w = int(m.group(2))
        op = m.group(1)
        a = args[0]
        if op == 'ctlz':
            u = t.wu(w, a)
            r = const(w)
            for k in range(w): r = ite(t.ge(u, 1 << k), const(w - 1 - k), r)
            if len(args) > 1 and args[1] is TRUE: ex.ob('ctlz of zero', st, t.ne(a, 0), inst)
            return R(r)
        if op == 'cttz':
            r = const(w)
            for k in range(w - 1, -1, -1): r = ite(t.ne(t.fmod(t.fdiv(t.wu(w, a), 1 << k), 2), 0), const(k), r)
            return R(r)
        if op == 'ctpop':
            u = t.wu(w, a)
            r = const(0)
            for k in range(w): r = t.add(r, t.fmod(t.fdiv(u, 1 << k), 2))
            return R(r)
        if op == 'abs':
            if args[1] is TRUE: ex.ob('no signed overflow (abs i%d)' % w, st, t.ne(a, -(1 << (w - 1))), inst)
            return R(t.ws(w, t.tabs(a)))
        if op == 'smax': return R(t.tmax(a, args[1]))
        if op == 'smin': return R(t.tmin(a, args[1]))
        ua, ub = t.wu(w, a), t.wu(w, args[1])
        if op == 'umax': return R(t.ws(w, t.tmax(ua, ub)))
        if op == 'umin': return R(t.ws(w, t.tmin(ua, ub)))
        if op in ('fshl', 'fshr'):
            if args[2].op != 'c': raise Unsupported('funnel shift by symbolic amount')
            k = t.wu(w, args[2]).val % w
            if op == 'fshl':
                return R(t.ws(w, t.add(t.scale(ua, 1 << k), t.fdiv(ub, 1 << (w - k)) if k else const(0))))
            return R(t.ws(w, t.add(t.scale(ua, 1 << (w - k)) if k else const(0), t.fdiv(ub, 1 << k))))
    from . import simd
    r = simd.intrinsic(ex, st, n, args, inst, rty, atys)
    if r is not None: return r
    raise Unsupported('intrinsic ' + name)


import re as _re


@ext('operator new(unsigned long)')
def _new(ex, st, args, inst):
    if args[0].op != 'c': raise Unsupported('operator new of symbolic size')
    o = X.Obj('heap', 'new', args[0].val)
    st.mem[o.id] = {}
    st.own.add(o.id)
    return [(st, X.Ptr(o))], []


@ext('operator delete(void*)', 'operator delete(void*, unsigned long)')
def _delete(ex, st, args, inst): return [(st, None)], []


_seq = {}


def _seedseq(ex, st, args, inst, d):
    """std::seed_seq is deterministic: generate() writes values that depend only on the sequence object and the length"""
    if '::generate<' in d:
        q, a, b = args
        if not all(isinstance(p, X.Ptr) for p in args) or a.o is not b.o: raise Unsupported('seed_seq::generate')
        n = t.sub(b.off, a.off)
        if n.op != 'c' or a.off.op != 'c': raise Unsupported('seed_seq::generate of symbolic length')
        w = 4 if 'unsigned int' in d else 8
        for k in range(0, n.val, w):
            key = (q.o.id, n.val, k)
            if key not in _seq: _seq[key] = t.fresh('seedseq', 0, (1 << 32) - 1)
            ex.store(st, IntTy(8 * w), X.Ptr(a.o, t.add(a.off, k)), t.ws(8 * w, _seq[key]), inst)
    return [(st, None)], []


EXTPAT.append((_re.compile(r'(void )?std::seed_seq::'), _seedseq))
