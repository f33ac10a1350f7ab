"""Symbolic executor / verification-condition generator over the LLVM IR clang emits for the real sources.

Guarded forward execution: every basic block is executed once per (merged) incoming state; loops are unrolled until the
back edge is infeasible (an obligation decided by a solver), or handled by an invariant supplied / inferred elsewhere.
Every operation with undefined behaviour yields an obligation  (path condition => operation is defined).
"""
import re
import subprocess
import time
from . import term as t
from .ir import Unsupported, IntTy, PTR, FP
from .term import TRUE, FALSE, and_, or_, not_, ite, const, I


class Undef:
    def __repr__(s): return 'undef'


UNDEF = Undef()


class Ptr:
    __slots__ = ('o', 'off')

    def __init__(s, o, off=0):
        s.o, s.off = o, I(off)

    def __repr__(s): return '&%s+%s' % (s.o.name if s.o else 'null', s.off)


class PIte:
    __slots__ = ('c', 'a', 'b')

    def __init__(s, c, a, b):
        s.c, s.a, s.b = c, a, b

    def __repr__(s): return 'pite(%s,%r,%r)' % (s.c, s.a, s.b)


NULL = Ptr(None, 0)
_oid = [0]


class Obj:
    __slots__ = ('id', 'size', 'kind', 'name', 'const', 'sym', 'fn', 'tag', 'ghost')

    def __init__(s, kind, name, size, const=False, sym=None, fn=None):
        _oid[0] += 1
        s.id = _oid[0]
        s.kind, s.name, s.size, s.const, s.sym, s.fn = kind, name, size, const, sym, fn
        s.tag = None
        s.ghost = None

    def __repr__(s): return '<%s %s>' % (s.kind, s.name)


class Agg:
    __slots__ = ('v',)

    def __init__(s, v): s.v = tuple(v)

    def __repr__(s): return 'agg%r' % (s.v,)


class State:
    __slots__ = ('g', 'mem', 'env', 'own', 'exc', 'ghost')

    def __init__(s, g=TRUE):
        s.g = g
        s.mem = {}      # obj id -> dict off -> (size, val, defined-cond)
        s.own = set()
        s.env = {}
        s.exc = None
        s.ghost = {}    # ghost variables (named, functional)

    def copy(s):
        n = State(s.g)
        n.mem = dict(s.mem)
        n.own = set()
        s.own = set()
        n.env = dict(s.env)
        n.exc = s.exc
        n.ghost = dict(s.ghost)
        return n

    def cells(s, o):
        return s.mem.get(o.id, {})

    def wcells(s, o):
        if o.id not in s.own:
            s.mem[o.id] = dict(s.mem.get(o.id, {}))
            s.own.add(o.id)
        return s.mem[o.id]


class Ob:
    __slots__ = ('kind', 'where', 'cond', 'fn', 'parts')

    def __init__(s, kind, where, cond, fn, parts=None):
        s.kind, s.where, s.cond, s.fn, s.parts = kind, where, cond, fn, parts

    def __repr__(s): return '%s @ %s in %s' % (s.kind, s.where, s.fn)


def split_cell(cells, at):
    """integer cells that straddle an offset in `at` are cut there"""
    out = dict(cells)
    for x in sorted(at):
        for y in [y for y in range(x - 16, x) if y in out and y + out[y][0] > x]:
            sz, v, d = out[y]
            if v is UNDEF:
                out[y], out[x] = (x - y, UNDEF, d), (y + sz - x, UNDEF, d)
                continue
            if not isinstance(v, t.T) or v.sort != 'I': raise Unsupported('split of a non-integer cell')
            u = t.wu(8 * sz, v)
            k = x - y
            out[y] = (k, t.ws(8 * k, u), d)
            out[x] = (sz - k, t.ws(8 * (sz - k), t.fdiv(u, 1 << (8 * k))), d)
    return out


def refine(a, b):
    return split_cell(a, set(b) | set(o + c[0] for o, c in b.items()))


def overlap(a, b):
    for x, y in ((a, b), (b, a)):
        for o, c in x.items():
            if o not in y and any(k in y and k + y[k][0] > o for k in range(o - 15, o)): return True
    return False


def rel_guard(g1, g2):
    """conjuncts of g1 that are not in g2 (g1, g2 disjoint => separates them)"""
    a = g1.args if g1.op == 'and' else (g1,)
    b = set(x.id for x in (g2.args if g2.op == 'and' else (g2,)))
    return and_(*[x for x in a if x.id not in b])


def vmerge(c, a, b):
    if a is b: return a
    if a is UNDEF: return b
    if b is UNDEF: return a
    if isinstance(a, t.T) and isinstance(b, t.T):
        if a.sort == 'F' and b.sort == 'F' and as_dy(a) is not None and as_dy(b) is not None:
            (x, e1), (y, e2) = as_dy(a), as_dy(b)
            e = min(e1, e2)
            k = a.val[1] if a.op == 'fdy' else a.val[1]
            return t._mk('fdy', (ite(c, t.scale(x, 1 << (e1 - e)), t.scale(y, 1 << (e2 - e))),), (e, k), None, None, 'F')
        return ite(c, a, b)
    if isinstance(a, (Ptr, PIte)) and isinstance(b, (Ptr, PIte)):
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.o is b.o:
            return Ptr(a.o, ite(c, a.off, b.off))
        return PIte(c, a, b)
    if isinstance(a, Agg) and isinstance(b, Agg) and len(a.v) == len(b.v):
        return Agg([vmerge(c, x, y) for x, y in zip(a.v, b.v)])
    raise Unsupported('merge of %r and %r' % (type(a), type(b)))


def merge2(s1, s2):
    if s1.g is FALSE: return s2
    if s2.g is FALSE: return s1
    c = rel_guard(s1.g, s2.g)
    n = State(or_(s1.g, s2.g))
    if s1.exc is not s2.exc and s1.exc != s2.exc:
        raise Unsupported('merge of different exceptions')
    n.exc = s1.exc
    for k in set(s1.mem) | set(s2.mem):
        a, b = s1.mem.get(k), s2.mem.get(k)
        if a is None: n.mem[k] = b
        elif b is None or a is b: n.mem[k] = a
        else:
            d = {}
            if any(off in b and a[off][0] != b[off][0] for off in a) or overlap(a, b): a, b = refine(a, b), refine(b, a)
            for off in set(a) | set(b):
                x, y = a.get(off), b.get(off)
                if x is y:
                    d[off] = x
                elif x is None:
                    if y[0] is not None: d[off] = (y[0], y[1], and_(y[2], not_(c)))
                elif y is None:
                    d[off] = (x[0], x[1], and_(x[2], c))
                else:
                    if x[0] != y[0]:
                        raise Unsupported('merge of cells of different size')
                    d[off] = (x[0], vmerge(c, x[1], y[1]),
                              x[2] if x[2] is y[2] else or_(and_(c, x[2]), and_(not_(c), y[2])))
            n.mem[k] = d
    for k in s1.env:
        if k in s2.env:
            a, b = s1.env[k], s2.env[k]
            n.env[k] = a if a is b else vmerge(c, a, b)
        else:
            n.env[k] = s1.env[k]
    for k in s2.env:
        if k not in n.env: n.env[k] = s2.env[k]
    for k in set(s1.ghost) | set(s2.ghost):
        a, b = s1.ghost.get(k), s2.ghost.get(k)
        if a is b: n.ghost[k] = a
        elif a is None or b is None: n.ghost[k] = a if b is None else b
        else: n.ghost[k] = gmerge(c, a, b)
    return n


def gmerge(c, a, b):
    if hasattr(a, 'merge'): return a.merge(c, b)
    return vmerge(c, a, b)


def merge(states):
    # merge pairwise from the back so that nested ifs collapse
    states = [s for s in states if s.g is not FALSE]
    if not states: return None
    r = states[0]
    for s in states[1:]:
        r = merge2(r, s)
    return r


# ---- floating point (uninterpreted except for constants) -------------------------------------
def fp_const(v, k): return t._mk('fc', (), (float(v).hex(), k), None, None, 'F')
def fp_op(op, args, k): return t._mk('f:' + op, tuple(args), k, None, None, 'F')
def fp_val(x): return float.fromhex(x.val[0])


# exact dyadic floating-point values: m * 2^e with an integer term m (IEEE round-to-nearest-even applied where an operation rounds)
PREC = {'float': (24, -149, 127), 'double': (53, -1074, 1023), 'x86_fp80': (64, -16445, 16383)}


def rne(m, p):
    """integer m rounded to p significant bits, ties to even"""
    if m.lo is None or m.hi is None: return None
    w = max(abs(m.lo), abs(m.hi)).bit_length()
    r = m
    for k in range(1, w - p + 1):
        d = 1 << k
        q, rem = t.fdiv(m, d), t.fmod(m, d)
        up = or_(t.gt(rem, d >> 1), and_(t.eq(rem, d >> 1), t.eq(t.fmod(q, 2), 1)))
        v = t.scale(q + ite(up, const(1), const(0)), d)
        r = ite(t.lt(t.tabs(m), 1 << (p + k - 1)), r, v)
    return r


def dy(m, e, k, exact=False):
    p, emin, emax = PREC[k]
    if m.lo is None or m.hi is None: return None
    w = max(abs(m.lo), abs(m.hi)).bit_length()
    if e < emin or w + e > emax: return None
    if not exact: m = rne(m, p)
    return t._mk('fdy', (m,), (e, k), None, None, 'F')


def as_dy(v):
    """(m, e) of a constant or dyadic value"""
    if v.op == 'fdy': return v.args[0], v.val[0]
    if v.op == 'fc':
        x = fp_val(v)
        if x != x or x in (float('inf'), float('-inf')): return None
        n, d = x.as_integer_ratio()
        return const(n), -(d.bit_length() - 1)
    return None


def dy_bin(op, a, b, k):
    x, y = as_dy(a), as_dy(b)
    if x is None or y is None: return None
    p2 = lambda z: z.op == 'c' and z.val != 0 and abs(z.val) & (abs(z.val) - 1) == 0
    same = lambda v: v.op == 'fc' or PREC[v.val[1]][0] <= PREC[k][0]
    if op == 'fmul': return dy(x[0] * y[0], x[1] + y[1], k, (p2(y[0]) and same(a)) or (p2(x[0]) and same(b)))
    if op == 'fdiv':
        if p2(y[0]):
            s = abs(y[0].val).bit_length() - 1
            return dy(x[0] if y[0].val > 0 else t.neg(x[0]), x[1] - y[1] - s, k, same(a))
        return None
    e = min(x[1], y[1])
    p, q = t.scale(x[0], 1 << (x[1] - e)), t.scale(y[0], 1 << (y[1] - e))
    return dy(p + q if op == 'fadd' else p - q, e, k)


class CFG:
    def __init__(self, f):
        self.f = f
        succ = {}
        for b in f.order:
            x = f.blocks[b][-1]
            if x.op == 'br':
                succ[b] = [x.a[1]] if x.a[0] is None else [x.a[1], x.a[2]]
            elif x.op == 'switch':
                succ[b] = [x.a[1]] + [l for _, l in x.a[2]]
            elif x.op == 'invoke':
                succ[b] = [x.a[2], x.a[3]]
            else:
                succ[b] = []
        self.succ = succ
        entry = f.order[0]
        # iterative DFS for RPO and back edges
        st, seen, on, post, back = [(entry, iter(succ[entry]))], {entry}, {entry}, [], set()
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    on.add(s)
                    st.append((s, iter(succ[s])))
                    break
                elif s in on:
                    back.add((b, s))
            else:
                st.pop()
                on.discard(b)
                post.append(b)
        self.rpo = post[::-1]
        self.back = back
        pred = {b: [] for b in self.rpo}
        for b in self.rpo:
            for s in succ[b]: pred[s].append(b)
        # natural loops
        loops = {}
        for (u, h) in back:
            body = loops.setdefault(h, {h})
            stk = [u]
            while stk:
                x = stk.pop()
                if x in body: continue
                body.add(x)
                stk.extend(pred[x])
        self.loops = loops
        # values used outside of their defining block
        defb = {}
        for b in self.rpo:
            for x in f.blocks[b]:
                if x.res: defb[x.res] = b
        live = set(x.res for b in self.rpo for x in f.blocks[b] if x.op == 'alloca')
        for b in self.rpo:
            for x in f.blocks[b]:
                for nm in re.findall(r'%(?:"[^"]*"|[-a-zA-Z$._0-9]+)', x.text):
                    if nm in defb and (defb[nm] != b or x.op == 'phi'): live.add(nm)
        self.live = live

    def owner(self, b, within):
        """innermost loop strictly inside `within` (header or None) whose header is b"""
        return b in self.loops and b != within


class Executor:
    def __init__(self, mod, demangled=None):
        self.m = mod
        self.obs = []
        self.contracts = {}       # mangled name -> callable(ex, state, args, inst, fname) -> [(state, value)], [(state, exc)]
        self.patterns = []        # (regex on demangled name, callable)
        self.gobj = {}
        self.cfgs = {}
        self.depth = 0
        self.split = False
        self.unroll_max = 400
        self.feasible = None      # callable(term) -> bool or None
        self.assume = TRUE        # facts assumed globally (preconditions)
        self.used = {}            # functions whose body was executed: name -> count
        self.used_contracts = {}
        self.externals = {}
        self.stack = []
        self.forgotten = set()
        self.loop_handler = None  # callable(ex, f, header, state) -> None | list of exits
        self.loopstats = {}
        self.track_ub = True
        self.lemmas = []

    # -- obligations -----------------------------------------------------------------------
    def ob(self, kind, st, cond, inst=None):
        if not self.track_ub: return
        c = t.implies(st.g, cond)
        if c is TRUE: return
        w = self.m.loc(inst.dbg) if inst is not None else '?'
        self.obs.append(Ob(kind, w, c, self.stack[-1] if self.stack else '?', (st.g, cond)))

    # -- values ----------------------------------------------------------------------------
    def glob(self, name, st):
        if name in self.gobj:
            return Ptr(self.gobj[name])
        if name in self.m.funcs or name in self.m.decls:
            o = Obj('fn', name, 1, True, fn=name)
            self.gobj[name] = o
            return Ptr(o)
        g = self.m.globals.get(name)
        if g is None:
            raise Unsupported('global ' + name)
        if g[0] == 'alias':
            return self.glob(g[1], st)
        ty, init, isc = g
        o = Obj('global', name, self.m.size(ty) if ty.k != 'struct' or ty.e else 0, isc)
        self.gobj[name] = o
        if init is not None:
            o.ghost = {}
            self._init(o.ghost, 0, ty, init, st)
            if not isc and not name.startswith('@_ZGV') and '@_ZGV' + name[3:] not in self.m.globals:
                # writable static storage: any value may have been left there by earlier calls
                for off, (sz, v, d) in list(o.ghost.items()):
                    if isinstance(v, t.T) and v.sort == 'I': o.ghost[off] = (sz, t.fresh('static', -(1 << (8 * sz - 1)), (1 << (8 * sz - 1)) - 1), d)
                    else: raise Unsupported('writable global ' + name)
        return Ptr(o)

    def _init(self, d, off, ty, v, st):
        ty = self.m.res(ty)
        if v[0] == 'zero':
            if ty.k == 'arr' or ty.k == 'vec':
                for i in range(ty.n): self._init(d, off + i * self.m.size(ty.e), ty.e, v, st)
            elif ty.k == 'struct':
                for i in range(len(ty.e)):
                    o, e = self.m.field(ty, i)
                    self._init(d, off + o, e, v, st)
            else:
                d[off] = (self.m.size(ty), self.zero(ty), TRUE)
        elif v[0] == 'agg':
            if ty.k in ('arr', 'vec'):
                for i, (et, ev) in enumerate(v[1]): self._init(d, off + i * self.m.size(ty.e), et, ev, st)
            else:
                for i, (et, ev) in enumerate(v[1]):
                    o, e = self.m.field(ty, i)
                    self._init(d, off + o, e, ev, st)
        elif v[0] == 'str':
            for i, b in enumerate(v[1]): d[off + i] = (1, const(b - 256 if b > 127 else b), TRUE)
        elif v[0] == 'undef':
            pass
        elif v[0] == 'unsupported':
            raise Unsupported('global initialiser')
        else:
            d[off] = (self.m.size(ty), self.mem_repr(self.val(ty, v, st)), TRUE)

    def zero(self, ty):
        ty = self.m.res(ty)
        if ty.k == 'int': return FALSE if ty.n == 1 else const(0)
        if ty.k == 'ptr': return NULL
        if ty.k in FP: return fp_const(0.0, ty.k)
        if ty.k in ('arr', 'vec'): return Agg([self.zero(ty.e)] * ty.n)
        if ty.k == 'struct': return Agg([self.zero(e) for e in ty.e])
        raise Unsupported('zero')

    def undef(self, ty):
        ty = self.m.res(ty)
        if ty.k in ('arr', 'vec'): return Agg([self.undef(ty.e)] * ty.n)
        if ty.k == 'struct': return Agg([self.undef(e) for e in ty.e])
        return UNDEF

    def mem_repr(self, v):
        if isinstance(v, t.T) and v.sort == 'B': return ite(v, const(1), const(0))
        return v

    def val(self, ty, v, st):
        k = v[0]
        if k == 'loc':
            return st.env[v[1]]
        if k == 'int':
            if ty.n == 1: return t.boolc(v[1] != 0)
            return t.ws(ty.n, const(v[1]))
        if k == 'glob': return self.glob(v[1], st)
        if k == 'null': return NULL
        if k == 'undef': return self.undef(ty)
        if k == 'zero': return self.zero(ty)
        if k == 'fp': return fp_const(v[1], ty.k)
        if k == 'fpx': return t._mk('fx', (), (v[1], ty.k), None, None, 'F')
        if k == 'agg': return Agg([self.val(a, b, st) for a, b in v[1]])
        if k == 'str': return Agg([const(b - 256 if b > 127 else b) for b in v[1]])
        if k == 'cexpr':
            if v[1] == 'gep':
                b = self.val(*v[3][0], st)
                return self.gep(v[2], b, [(a, self.val(a, x, st)) for a, x in v[3][1:]])
            if v[1] == 'cast':
                return self.val(v[3], v[4], st)
            if v[1] == 'bin':
                a, b = self.val(v[3], v[4], st), self.val(v[3], v[5], st)
                return self.binop(v[2], v[3], a, b, set(), st, None)
        if k == 'none': return None
        raise Unsupported('operand %r' % (v,))

    # -- pointers ----------------------------------------------------------------------------
    def pmap(self, p, f):
        if isinstance(p, PIte): return vmerge(p.c, self.pmap(p.a, f), self.pmap(p.b, f))
        if isinstance(p, Ptr): return f(p)
        raise Unsupported('pointer expected, got %r' % (p,))

    def gep(self, ty, base, idx):
        off = const(0)
        cur = ty
        for i, (ity, iv) in enumerate(idx):
            if i == 0:
                off = t.add(off, t.scale(iv, self.m.size(cur)) if self.m.size(cur) else const(0))
                continue
            cur = self.m.res(cur)
            if cur.k == 'struct':
                if iv.op != 'c': raise Unsupported('symbolic struct index')
                o, e = self.m.field(cur, iv.val)
                off = t.add(off, const(o))
                cur = e
            elif cur.k in ('arr', 'vec'):
                off = t.add(off, t.scale(iv, self.m.size(cur.e)))
                cur = cur.e
            else:
                raise Unsupported('gep into %r' % cur)
        return self.pmap(base, lambda p: Ptr(p.o, t.add(p.off, off)))

    def leaves(self, p, g=TRUE):
        if isinstance(p, PIte):
            yield from self.leaves(p.a, and_(g, p.c))
            yield from self.leaves(p.b, and_(g, not_(p.c)))
        elif isinstance(p, Ptr):
            yield p, g
        else:
            raise Unsupported('pointer expected, got %r' % (p,))

    def const_offs(self, off):
        """possible constant values of an offset term with conditions, or None"""
        if off.op == 'c': return [(TRUE, off.val)]
        if off.op == 'ite':
            a, b = self.const_offs(off.args[1]), self.const_offs(off.args[2])
            if a is None or b is None: return None
            r = [(and_(off.args[0], c), v) for c, v in a] + [(and_(not_(off.args[0]), c), v) for c, v in b]
            d = {}
            for c, v in r: d[v] = or_(d[v], c) if v in d else c
            return [(c, v) for v, c in d.items() if c is not FALSE]
        if off.op == 'lin' and len(off.args) == 1 and off.args[0].op == 'ite':
            a = self.const_offs(off.args[0])
            if a is None: return None
            return [(c, v * off.val[0][0] + off.val[1]) for c, v in a]
        return None

    def bounds(self, st, p, size, inst, what, g=TRUE):
        o = p.o
        if o is None:
            self.ob('null dereference (%s)' % what, st, not_(g), inst)
            return False
        if o.kind == 'fn' or o.kind == 'ext':
            raise Unsupported('access to %r' % o)
        if o.size is None: return True
        self.ob('access in bounds (%s)' % what, st,
                t.implies(g, and_(t.le(0, p.off), t.le(t.add(p.off, size), o.size))), inst)
        return True

    # -- memory ------------------------------------------------------------------------------
    def load(self, st, ty, ptr, inst=None, quiet=False):
        ty = self.m.res(ty)
        if ty.k in ('struct', 'arr', 'vec'):
            vals = []
            n = len(ty.e) if ty.k == 'struct' else ty.n
            for i in range(n):
                if ty.k == 'struct': o, e = self.m.field(ty, i)
                else: o, e = i * self.m.size(ty.e), ty.e
                vals.append(self.load(st, e, self.pmap(ptr, lambda p: Ptr(p.o, t.add(p.off, o))), inst, quiet))
            return Agg(vals)
        size = self.m.size(ty)
        if ty.k == 'int' and ty.n % 8 and ty.n != 1: raise Unsupported('odd int load')
        res = None
        first = True
        for p, g in list(self.leaves(ptr)):
            if g is FALSE: continue
            if not self.bounds(st, p, size, inst, 'read', g): continue
            v = self._load1(st, ty, p, size, inst, g)
            if v is None: continue
            if first: res, first = v, False
            else: res = vmerge(g, v, res)
        if res is None:
            # nothing readable: unreachable under the obligations
            res = self.freshval(ty, 'unreach')
        if ty.k == 'int' and ty.n == 1 and res.sort != 'B':
            res = t.ne(t.fmod(res, 2), 0)
        return res

    def freshval(self, ty, nm):
        ty = self.m.res(ty)
        if ty.k == 'int':
            if ty.n == 1: return t.freshbool(nm)
            return t.fresh(nm, -(1 << (ty.n - 1)), (1 << (ty.n - 1)) - 1)
        if ty.k == 'ptr': return NULL
        if ty.k in FP: return t._mk('fv', (), (nm, t.fresh(nm).val[0], ty.k), None, None, 'F')
        if ty.k in ('arr', 'vec'): return Agg([self.freshval(ty.e, nm) for _ in range(ty.n)])
        if ty.k == 'struct': return Agg([self.freshval(e, nm) for e in ty.e])
        raise Unsupported('fresh %r' % ty)

    def objcells(self, st, o):
        c = st.mem.get(o.id)
        if c is None:
            return o.ghost if isinstance(o.ghost, dict) else {}
        return c

    def _load1(self, st, ty, p, size, inst, g):
        o = p.o
        if o.sym is not None:
            return o.sym(self, st, p.off, size, ty)
        cells = self.objcells(st, o)
        if o.kind == 'global' and o.ghost is None and o.id not in st.mem:
            raise Unsupported('read of external global ' + o.name)
        if p.off.op == 'c':
            return self._load_at(st, ty, o, cells, p.off.val, size, inst, g)
        cs = self.const_offs(p.off)
        if cs is None:
            lo = 0 if p.off.lo is None else max(0, p.off.lo)
            osz = o.size if isinstance(o.size, int) else (o.size.val if o.size.op == 'c' else None)
            if osz is None: raise Unsupported('symbolic index into object of symbolic size')
            hi = osz - size if p.off.hi is None else min(osz - size, p.off.hi)
            step = size
            # offset stride
            from math import gcd
            s = 0
            if p.off.op == 'lin':
                for k in p.off.val[0]: s = gcd(s, k)
                base = p.off.val[1] % s
            else:
                s, base = 1, 0
            offs = [x for x in range(lo, hi + 1) if x % s == base]
            if len(offs) > 600: raise Unsupported('symbolic index over %d cells' % len(offs))
            cs = [(t.eq(p.off, x), x) for x in offs]
            v = self.runs(o, cells, p.off, offs, size, ty)
            if v is not None: return v
        res = None
        for c, x in reversed(cs):
            if not (0 <= x): continue
            if isinstance(o.size, int) and x + size > o.size: continue
            v = self._load_at(st, ty, o, cells, x, size, inst, and_(g, c))
            if v is None: continue
            res = v if res is None else vmerge(c, v, res)
        return res

    def runs(self, o, cells, off, offs, size, ty):
        """table of known numbers, given by a few arithmetic progressions"""
        if len(offs) < 2 or ty.k != 'int' or any(x not in cells or cells[x][0] != size or not isinstance(cells[x][1], t.T) or cells[x][1].op != 'c' or cells[x][2] is not TRUE for x in offs): return None
        rs = []
        for x in offs:
            v = cells[x][1].val
            if rs and rs[-1][1] == x - 1 and rs[-1][2] == v - x: rs[-1][1] = x
            else: rs.append([x, x, v - x])
        if len(rs) > 4: return None
        r = t.add(off, rs[-1][2])
        for a, b, d in reversed(rs[:-1]): r = ite(t.le(off, b), t.add(off, d), r)
        return r

    def _load_at(self, st, ty, o, cells, off, size, inst, g):
        c = cells.get(off)
        if c is None and o.id in self.forgotten: raise Unsupported('read of %s, which the loop annotation does not cover' % o.name)
        if c is not None and c[0] == size:
            if c[2] is not TRUE:
                self.ob('read of initialised memory', st, t.implies(g, c[2]), inst)
            v = c[1]
            if v is UNDEF:
                self.ob('read of initialised memory', st, not_(g), inst)
                return self.freshval(ty, 'uninit')
            if isinstance(v, (Ptr, PIte)) and ty.k == 'int': return v
            if isinstance(v, t.T) and v.sort == 'F' and ty.k == 'int': raise Unsupported('fp bits')
            if isinstance(v, t.T) and v.sort == 'I' and ty.k in FP: raise Unsupported('fp from bits')
            return v
        if ty.k != 'int':
            if c is None:
                self.ob('read of initialised memory', st, not_(g), inst)
                return self.freshval(ty, 'uninit')
            raise Unsupported('partial load of %r' % ty)
        # reassemble from bytes of neighbouring cells
        total, x, k = const(0), off, 0
        while k < size:
            c = cells.get(x)
            if c is not None and c[0] <= size - k:
                v = c[1]
                if not isinstance(v, t.T) or v.sort != 'I':
                    raise Unsupported('partial load of non-int')
                if c[2] is not TRUE: self.ob('read of initialised memory', st, t.implies(g, c[2]), inst)
                total = t.add(total, t.scale(t.wu(8 * c[0], v), 1 << (8 * k)))
                k += c[0]
                x += c[0]
                continue
            # inside a bigger cell?
            for y in range(x - 15, x + 1):
                c = cells.get(y)
                if c is not None and y + c[0] > x:
                    v = c[1]
                    if not isinstance(v, t.T) or v.sort != 'I': raise Unsupported('partial load of non-int')
                    if c[2] is not TRUE: self.ob('read of initialised memory', st, t.implies(g, c[2]), inst)
                    nb = min(y + c[0] - x, size - k)
                    piece = t.fmod(t.fdiv(t.wu(8 * c[0], v), 1 << (8 * (x - y))), 1 << (8 * nb))
                    total = t.add(total, t.scale(piece, 1 << (8 * k)))
                    k += nb
                    x += nb
                    break
            else:
                self.ob('read of initialised memory', st, not_(g), inst)
                return self.freshval(ty, 'uninit')
        return t.ws(ty.n if ty.n > 1 else 8, total)

    def store(self, st, ty, ptr, v, inst=None):
        ty = self.m.res(ty)
        if ty.k in ('struct', 'arr', 'vec'):
            if not isinstance(v, Agg): raise Unsupported('aggregate store')
            n = len(v.v)
            for i in range(n):
                if ty.k == 'struct': o, e = self.m.field(ty, i)
                else: o, e = i * self.m.size(ty.e), ty.e
                self.store(st, e, self.pmap(ptr, lambda p: Ptr(p.o, t.add(p.off, o))), v.v[i], inst)
            return
        size = self.m.size(ty)
        v = self.mem_repr(v)
        ls = [(p, g) for p, g in self.leaves(ptr) if g is not FALSE]
        for p, g in ls:
            if not self.bounds(st, p, size, inst, 'write', g): continue
            if p.o.const:
                self.ob('write to constant object', st, not_(g), inst)
                continue
            if p.o.sym is not None: raise Unsupported('store to symbolic array')
            if p.o.kind == 'global' and p.o.id not in st.mem:
                st.mem[p.o.id] = dict(p.o.ghost or {})
                st.own.add(p.o.id)
            if p.off.op == 'c' and g is TRUE:
                self._store_at(st, p.o, p.off.val, size, v)
                continue
            cs = self.const_offs(p.off)
            if cs is None:
                osz = o_size(p.o)
                lo = 0 if p.off.lo is None else max(0, p.off.lo)
                hi = osz - size if p.off.hi is None else min(osz - size, p.off.hi)
                from math import gcd
                s = 0
                if p.off.op == 'lin':
                    for k in p.off.val[0]: s = gcd(s, k)
                    base = p.off.val[1] % s
                else:
                    s, base = 1, 0
                offs = [x for x in range(lo, hi + 1) if x % s == base]
                if len(offs) > 600: raise Unsupported('symbolic store over %d cells' % len(offs))
                cs = [(t.eq(p.off, x), x) for x in offs]
            for c, x in cs:
                cc = and_(g, c)
                w = st.wcells(p.o)
                old = w.get(x)
                if old is None:
                    self._clobber(st, p.o, x, size)
                    w[x] = (size, v, cc)
                elif old[0] == size:
                    w[x] = (size, vmerge(cc, v, old[1]), or_(cc, old[2]))
                else:
                    raise Unsupported('conditional store changes cell size')

    def _clobber(self, st, o, off, size):
        w = st.wcells(o)
        for y in [y for y in w if y < off + size and y + w[y][0] > off]:
            sz, v, d = w[y]
            if y >= off and y + sz <= off + size:
                del w[y]
            else:
                part = split_cell({y: w[y]}, (off, off + size))
                del w[y]
                for k, c in part.items():
                    if not (off <= k < off + size): w[k] = c

    def _store_at(self, st, o, off, size, v):
        w = st.wcells(o)
        c = w.get(off)
        if c is None or c[0] != size:
            self._clobber(st, o, off, size)
        w[off] = (size, v, TRUE)

    def memcpy(self, st, dst, src, n, inst):
        if not isinstance(n, t.T) or n.op != 'c': raise Unsupported('memcpy of symbolic length')
        n = n.val
        if n == 0: return
        sl = list(self.leaves(src))
        dl = list(self.leaves(dst))
        for p, g in sl: self.bounds(st, p, n, inst, 'read', g)
        for p, g in dl: self.bounds(st, p, n, inst, 'write', g)
        if len(sl) == 1 and len(dl) == 1 and sl[0][0].off.op == 'c' and dl[0][0].off.op == 'c' and sl[0][0].o.sym is None:
            s, d = sl[0][0], dl[0][0]
            so, do = s.off.val, d.off.val
            cells = dict(self.objcells(st, s.o))
            if any(y < e < y + c[0] for e in (so, so + n) for y, c in cells.items()): cells = split_cell(cells, (so, so + n))
            w = st.wcells(d.o)
            self._clobber(st, d.o, do, n)
            for y in sorted(cells):
                c = cells[y]
                if y >= so and y + c[0] <= so + n:
                    w[do + y - so] = c
                elif y < so + n and y + c[0] > so:
                    raise Unsupported('memcpy splits a cell')
            return
        # byte-wise through typed cells of the sources
        shapes = set()
        for p, g in sl:
            if p.o.sym is not None or p.off.op != 'c': raise Unsupported('memcpy shape')
            cells = self.objcells(st, p.o)
            shapes.add(tuple(sorted((y - p.off.val, cells[y][0], type(cells[y][1]).__name__) for y in cells
                                    if y >= p.off.val and y + cells[y][0] <= p.off.val + n)))
        if len(shapes) != 1: raise Unsupported('memcpy shapes differ')
        for (y, sz, tn) in shapes.pop():
            ty = PTR if tn in ('Ptr', 'PIte') else IntTy(8 * sz)
            v = self.load(st, ty, self.pmap(src, lambda p: Ptr(p.o, t.add(p.off, y))), inst)
            self.store(st, ty, self.pmap(dst, lambda p: Ptr(p.o, t.add(p.off, y))), v, inst)

    # -- operations ----------------------------------------------------------------------------
    def binop(self, op, ty, a, b, fl, st, inst):
        if isinstance(a, Agg):
            return Agg([self.binop(op, ty.e, x, y, fl, st, inst) for x, y in zip(a.v, b.v)])
        if a is UNDEF or b is UNDEF:
            self.ob('use of an indeterminate value', st, FALSE, inst)
            return self.freshval(ty, 'undef')
        if op[0] == 'f': return self.fpbin(op, ty, a, b)
        n = ty.n
        if isinstance(a, (Ptr, PIte)) or isinstance(b, (Ptr, PIte)):
            return self.ptrarith(op, a, b, st, inst)
        if n == 1:
            if op == 'xor': return not_(t.iff(a, b))
            if op == 'and': return and_(a, b)
            if op == 'or': return or_(a, b)
            raise Unsupported('i1 ' + op)
        lo, hi = -(1 << (n - 1)), (1 << (n - 1)) - 1
        if op in ('add', 'sub', 'mul'):
            r = {'add': t.add, 'sub': t.sub, 'mul': t.mul}[op](a, b)
            if 'nuw' in fl:
                r2 = {'add': t.add, 'sub': t.sub, 'mul': t.mul}[op](t.wu(n, a), t.wu(n, b))
                self.ob('no unsigned overflow', st, t.between(0, r2, (1 << n) - 1), inst)
            if 'nsw' in fl:
                self.ob('no signed overflow (%s i%d)' % (op, n), st, t.between(lo, r, hi), inst)
                return r
            return t.ws(n, r)
        if op in ('sdiv', 'srem'):
            self.ob('division by zero', st, t.ne(b, 0), inst)
            self.ob('no signed overflow (%s i%d)' % (op, n), st, not_(and_(t.eq(a, lo), t.eq(b, -1))), inst)
            return t.tdiv(a, b) if op == 'sdiv' else t.trem(a, b)
        if op in ('udiv', 'urem'):
            ua, ub = t.wu(n, a), t.wu(n, b)
            self.ob('division by zero', st, t.ne(b, 0), inst)
            return t.ws(n, t.tdiv(ua, ub) if op == 'udiv' else t.trem(ua, ub))
        if op in ('shl', 'lshr', 'ashr'):
            ub = t.wu(n, b)
            self.ob('shift amount in range (%s i%d)' % (op, n), st, t.lt(ub, n), inst)
            if ub.op == 'c':
                if ub.val >= n: return self.freshval(ty, 'badshift')
            elif not (ub.hi is not None and ub.hi < n):
                ub = t.fmod(ub, n)     # equal under the obligation
            if op == 'shl':
                r = t.scale(a, 1 << ub.val) if ub.op == 'c' else self._shlsym(a, ub)
                return t.ws(n, r)
            if op == 'ashr': return t.fdivp2(a, ub)
            return t.ws(n, t.fdivp2(t.wu(n, a), ub))
        if op == 'and': return t.ws(n, t.band(a, b))
        if op == 'or': return t.ws(n, t.bor(a, b))
        if op == 'xor': return t.ws(n, t.bxor(a, b))
        raise Unsupported('binop ' + op)

    def _shlsym(self, a, k):
        if k.op == 'ite':
            return ite(k.args[0], self._shlsym(a, k.args[1]), self._shlsym(a, k.args[2]))
        if k.op == 'c': return t.scale(a, 1 << k.val)
        r = t.scale(a, 1 << k.hi)
        for i in range(k.hi - 1, k.lo - 1, -1):
            r = ite(t.eq(k, i), t.scale(a, 1 << i), r)
        return r

    def ptrarith(self, op, a, b, st, inst):
        if isinstance(a, PIte): return vmerge(a.c, self.ptrarith(op, a.a, b, st, inst), self.ptrarith(op, a.b, b, st, inst))
        if isinstance(b, PIte): return vmerge(b.c, self.ptrarith(op, a, b.a, st, inst), self.ptrarith(op, a, b.b, st, inst))
        if op == 'sub' and isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.o is b.o: return t.sub(a.off, b.off)
        if op == 'add' and isinstance(a, Ptr) and isinstance(b, t.T): return Ptr(a.o, t.add(a.off, b))
        if op == 'add' and isinstance(b, Ptr) and isinstance(a, t.T): return Ptr(b.o, t.add(b.off, a))
        if op == 'sub' and isinstance(a, Ptr) and isinstance(b, t.T): return Ptr(a.o, t.sub(a.off, b))
        raise Unsupported('pointer arithmetic ' + op)

    def fpbin(self, op, ty, a, b):
        if a.op == 'fc' and b.op == 'fc' and ty.k in ('double', 'float'):
            x, y = fp_val(a), fp_val(b)
            try:
                r = {'fadd': x + y, 'fsub': x - y, 'fmul': x * y}.get(op)
                if r is None: r = x / y
                if ty.k == 'float':
                    import struct
                    r = struct.unpack('f', struct.pack('f', r))[0]
                return fp_const(r, ty.k)
            except Exception:
                pass
        if ty.k in PREC:
            r = dy_bin(op, a, b, ty.k)
            if r is not None: return r
        return fp_op(op, (a, b), ty.k)

    def icmp(self, pr, ty, a, b, st, inst):
        if isinstance(a, Agg):
            return Agg([self.icmp(pr, ty.e, x, y, st, inst) for x, y in zip(a.v, b.v)])
        if a is UNDEF or b is UNDEF:
            self.ob('use of an indeterminate value', st, FALSE, inst)
            return t.freshbool('undef')
        if isinstance(a, PIte):
            return or_(and_(a.c, self.icmp(pr, ty, a.a, b, st, inst)), and_(not_(a.c), self.icmp(pr, ty, a.b, b, st, inst)))
        if isinstance(b, PIte):
            return or_(and_(b.c, self.icmp(pr, ty, a, b.a, st, inst)), and_(not_(b.c), self.icmp(pr, ty, a, b.b, st, inst)))
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.o is b.o:
                x, y = a.off, b.off
                return {'eq': t.eq, 'ne': t.ne, 'ult': t.lt, 'ule': t.le, 'ugt': t.gt, 'uge': t.ge}[pr](x, y)
            if pr == 'eq': return FALSE
            if pr == 'ne': return TRUE
            raise Unsupported('pointer comparison')
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            p, q = (a, b) if isinstance(a, Ptr) else (b, a)
            if q.op == 'c' and q.val == 0 and p.o is not None and pr in ('eq', 'ne'):
                return t.boolc(pr == 'ne')
            raise Unsupported('pointer/int comparison')
        if a.sort == 'B':
            if pr == 'eq': return t.iff(a, b)
            if pr == 'ne': return not_(t.iff(a, b))
            a, b = ite(a, const(1), const(0)), ite(b, const(1), const(0))
            return {'ult': t.lt, 'ule': t.le, 'ugt': t.gt, 'uge': t.ge}[pr](a, b)
        if pr == 'eq': return t.eq(a, b)
        if pr == 'ne': return t.ne(a, b)
        if pr[0] == 'u':
            a, b = t.wu(ty.n, a), t.wu(ty.n, b)
        return {'lt': t.lt, 'le': t.le, 'gt': t.gt, 'ge': t.ge}[pr[1:]](a, b)

    def cast(self, op, sty, dty, v, st, inst):
        if isinstance(v, Agg) and sty.k == 'vec' and dty.k == 'vec':
            if op == 'bitcast': return self.vbitcast(sty, dty, v)
            return Agg([self.cast(op, sty.e, dty.e, x, st, inst) for x in v.v])
        if v is UNDEF: return UNDEF
        if op in ('ptrtoint', 'inttoptr', 'addrspacecast'):
            return v
        if op == 'bitcast':
            if sty.k == dty.k: return v
            if sty.k == 'vec' or dty.k == 'vec': return self.vbitcast(sty, dty, v)
            return fp_op('bitcast', (v,), repr(dty))
        if op == 'trunc':
            if isinstance(v, (Ptr, PIte)): raise Unsupported('trunc of pointer')
            if dty.n == 1: return t.ne(t.fmod(v, 2), 0)
            return t.ws(dty.n, v)
        if op == 'zext':
            if sty.n == 1: return ite(v, const(1), const(0))
            return t.wu(sty.n, v)
        if op == 'sext':
            if sty.n == 1: return ite(v, const(-1), const(0))
            return v
        if op in ('sitofp', 'uitofp'):
            if sty.n == 1: v = ite(v, const(1 if op == 'uitofp' else -1), const(0))
            if op == 'uitofp': v = t.wu(sty.n, v)
            if v.op == 'c' and abs(v.val) < (1 << 24): return fp_const(float(v.val), dty.k)
            r = dy(v, 0, dty.k) if dty.k in PREC else None
            return r if r is not None else fp_op('ofint', (v,), dty.k)
        if op in ('fptosi', 'fptoui'):
            if v.op == 'fc':
                return t.ws(dty.n, const(int(fp_val(v))))
            x = as_dy(v)
            if x is not None:
                m = t.scale(x[0], 1 << x[1]) if x[1] >= 0 else t.tdiv(x[0], const(1 << -x[1]))
                lo, hi = (-(1 << (dty.n - 1)), (1 << (dty.n - 1)) - 1) if op == 'fptosi' else (0, (1 << dty.n) - 1)
                self.ob('floating-point value fits the integer type', st, t.between(lo, m, hi), inst)
                return t.ws(dty.n, m)
            return t._mk('f:toint', (v,), (op, dty.n), -(1 << (dty.n - 1)), (1 << (dty.n - 1)) - 1, 'I')
        if op in ('fpext', 'fptrunc'):
            if v.op == 'fc' and (op == 'fpext' or dty.k == 'double'): return fp_const(fp_val(v), dty.k)
            x = as_dy(v)
            if x is not None and dty.k in PREC:
                r = dy(x[0], x[1], dty.k, op == 'fpext')
                if r is not None: return r
            return fp_op(op, (v,), dty.k)
        raise Unsupported('cast ' + op)

    def vbitcast(self, sty, dty, v):
        """between integer vectors / integers, little endian"""
        def elems(ty, v):
            if ty.k == 'vec':
                if ty.e.k != 'int': raise Unsupported('vector bitcast of %r' % ty)
                return ty.e.n, list(v.v)
            if ty.k != 'int': raise Unsupported('bitcast')
            return ty.n, [v]
        sn, se = elems(sty, v)
        dn = dty.e.n if dty.k == 'vec' else dty.n
        if dty.k == 'vec' and dty.e.k != 'int': raise Unsupported('vector bitcast to fp')
        if any(x is UNDEF for x in se): return self.undef(dty)
        total = sn * len(se)
        cnt = total // dn
        out = []
        for i in range(cnt):
            if dn == sn: out.append(se[i])
            elif dn < sn:
                r = sn // dn
                out.append(t.ws(dn, t.fdiv(t.wu(sn, se[i // r]), 1 << (dn * (i % r)))))
            else:
                r = dn // sn
                acc = const(0)
                for k in range(r): acc = t.add(acc, t.scale(t.wu(sn, se[i * r + k]), 1 << (sn * k)))
                out.append(t.ws(dn, acc))
        return Agg(out) if dty.k == 'vec' else out[0]

    # -- calls ---------------------------------------------------------------------------------
    def call(self, st, name, args, inst, atys=None, rty=None):
        """-> (list of (state, value), list of (state, exc))"""
        c = self.contracts.get(name)
        if c is not None:
            r = c(self, st, args, inst, name)
            if r is not None:
                self.used_contracts[name] = self.used_contracts.get(name, 0) + 1
                return r
        from . import rt
        r = rt.builtin(self, st, name, args, inst, rty, atys)
        if r is not None: return r
        f = self.m.funcs.get(name)
        if f is None:
            raise Unsupported('call of external function ' + demangle(name))
        self.depth += 1
        if self.depth > 120: raise Unsupported('recursion depth in ' + name)
        try:
            return self.run_function(f, st, args)
        finally:
            self.depth -= 1

    def run_function(self, f, st, args):
        self.m.body(f)
        self.used[f.name] = self.used.get(f.name, 0) + 1
        cfg = self.cfgs.get(f.name)
        if cfg is None: cfg = self.cfgs[f.name] = CFG(f)
        saved = st.env
        st.env = {}
        for (pty, nm, at), v in zip(f.params, args):
            st.env[nm] = v
        self.stack.append(f.name)
        try:
            fr = Frame(self, f, cfg)
            fr.region(None, [(None, st)])
        finally:
            self.stack.pop()
        rets, thr = fr.rets, fr.throws
        for s, v in rets: s.env = dict(saved)
        for s, v in thr: s.env = dict(saved)
        if not self.split:
            rets = self.merge_rets(rets)
            thr = self.merge_thr(thr)
        return rets, thr

    def merge_rets(self, rets):
        if len(rets) <= 1: return rets
        vs = []
        for s, v in rets:
            s = s.copy()
            s.env = dict(s.env)
            s.env['$ret'] = v
            vs.append(s)
        m = merge(vs)
        v = m.env.pop('$ret')
        return [(m, v)]

    def merge_thr(self, thr):
        by = {}
        for s, e in thr: by.setdefault(e, []).append(s)
        return [(merge(ss), e) for e, ss in by.items()]

    def check_feasible(self, g):
        if g is FALSE: return False
        if g is TRUE: return True
        if self.feasible is None: return True
        return self.feasible(and_(self.assume, g)) is not False


def o_size(o):
    if isinstance(o.size, int): return o.size
    if isinstance(o.size, t.T) and o.size.op == 'c': return o.size.val
    raise Unsupported('symbolic object size')


class Frame:
    def __init__(self, ex, f, cfg):
        self.ex, self.f, self.cfg = ex, f, cfg
        self.rets, self.throws = [], []

    def region(self, header, inits):
        """run the blocks of loop `header` (or the whole function); returns (next_iteration_states, exits) for a loop"""
        ex, cfg = self.ex, self.cfg
        body = cfg.loops[header] if header else None
        start = header or cfg.rpo[0]
        pend = {start: list(inits)}
        nxt, exits = [], []
        for b in cfg.rpo:
            if b not in pend: continue
            if body is not None and b not in body: continue
            inc = [(p, s) for p, s in pend.pop(b) if s.g is not FALSE]
            if not inc: continue
            if cfg.owner(b, header):
                outs = self.loop(b, inc)
            else:
                outs = []
                for s in self.enter(b, inc):
                    outs += self.block(b, s)
            for (src, dst, s) in outs:
                if header and dst == header: nxt.append((src, s))
                elif body is not None and dst not in body: exits.append((src, dst, s))
                else: pend.setdefault(dst, []).append((src, s))
        return nxt, exits

    def enter(self, b, inc):
        """evaluate phis per incoming edge, then merge"""
        ins = self.f.blocks[b]
        phis = [x for x in ins if x.op == 'phi']
        sts = []
        for p, s in inc:
            if phis:
                s = s.copy()
                new = {}
                for x in phis:
                    for v, l in x.a:
                        if l == p:
                            new[x.res] = self.ex.val(x.ty, v, s)
                            break
                    else:
                        raise Unsupported('phi without incoming edge')
                s.env.update(new)
            sts.append(s)
        if self.ex.split: return sts
        m = merge(sts)
        return [m] if m is not None else []

    def loop(self, h, inc):
        ex = self.ex
        if ex.loop_handler is not None:
            r = ex.loop_handler(self, h, inc)
            if r is not None: return r
        out = []
        cur = inc
        k = 0
        skip, wait = 0, 1
        while True:
            nxt, exits = self.region(h, cur)
            out += exits
            nxt = [(p, s) for p, s in nxt if s.g is not FALSE]
            k += 1
            if not nxt: break
            if ex.split:
                # feasibility is checked at branches in split mode
                cur = nxt
            else:
                g = or_(*[s.g for _, s in nxt])
                if skip == 0:
                    t0 = time.time()
                    if not ex.check_feasible(g): break
                    if time.time() - t0 > 0.2: wait = min(2 * wait, 64)   # expensive and so far fruitless: check less often
                    skip = wait - 1
                else:
                    skip -= 1
                cur = nxt
            if k > ex.unroll_max:
                raise Unsupported('loop in %s does not terminate within %d iterations' % (demangle(self.f.name), ex.unroll_max))
        key = (self.f.name, h)
        ex.loopstats[key] = max(ex.loopstats.get(key, 0), k)
        return out

    def block(self, b, st):
        ex, m = self.ex, self.ex.m
        ins = self.f.blocks[b]
        cur = [st]
        for x in ins:
            op = x.op
            if op == 'phi': continue
            if op in ('call', 'invoke'):
                nx, outs = [], []
                for s in cur:
                    n, o = self.do_call(b, x, s)
                    nx += n
                    outs += o
                if op == 'invoke':
                    return [(b, x.a[2], self.trim(s)) for s in nx] + outs
                assert not outs
                cur = nx
                if not cur: return []
                continue
            if op == 'br':
                res = []
                for s in cur:
                    if x.a[0] is None:
                        res.append((b, x.a[1], self.trim(s)))
                        continue
                    c = ex.val(IntTy(1), x.a[0], s)
                    if c is UNDEF:
                        ex.ob('branch on an indeterminate value', s, FALSE, x)
                        c = t.freshbool('undef')
                    res += self.branch(b, s, [(c, x.a[1]), (not_(c), x.a[2])])
                return res
            if op == 'switch':
                res = []
                for s in cur:
                    v = ex.val(x.ty, x.a[0], s)
                    cs, rest, by = [], [], {}
                    for n, l in x.a[2]:
                        c = t.eq(v, t.ws(x.ty.n, const(n)))
                        by[l] = or_(by[l], c) if l in by else c
                        rest.append(not_(c))
                    d = and_(*rest)
                    by[x.a[1]] = or_(by[x.a[1]], d) if x.a[1] in by else d
                    res += self.branch(b, s, [(c, l) for l, c in by.items()])
                return res
            if op == 'ret':
                for s in cur:
                    v = None if x.a is None else ex.val(x.ty, x.a, s)
                    self.rets.append((s, v))
                return []
            if op == 'unreachable':
                for s in cur: ex.ob('unreachable code reached', s, FALSE, x)
                return []
            if op == 'resume':
                for s in cur: self.throws.append((s, s.exc))
                return []
            for s in cur:
                self.step(x, s)
        raise Unsupported('block without terminator')

    def trim(self, s):
        live = self.cfg.live
        params = self.f.params
        pn = set(p[1] for p in params)
        s.env = {k: v for k, v in s.env.items() if k in live or k in pn or k[0] == '$'}
        return s

    def branch(self, b, s, alts):
        ex = self.ex
        res = []
        alts = [(c, l) for c, l in alts if c is not FALSE]
        self.trim(s)
        for i, (c, l) in enumerate(alts):
            n = s.copy() if i + 1 < len(alts) else s
            n.g = and_(s.g if n is not s else s.g, c)
            if n.g is FALSE: continue
            if ex.split and c is not TRUE and not ex.check_feasible(n.g): continue
            res.append((b, l, n))
        return res

    def step(self, x, s):
        ex, m, op = self.ex, self.ex.m, x.op
        E = s.env
        if op == 'alloca':
            n = 1
            if x.a is not None:
                nv = ex.val(x.a[0], x.a[1], s)
                if nv.op != 'c': raise Unsupported('variable-size alloca')
                n = nv.val
            o = Obj('alloca', x.res, m.size(x.ty) * n)
            s.mem[o.id] = {}
            s.own.add(o.id)
            E[x.res] = Ptr(o)
        elif op == 'load':
            E[x.res] = ex.load(s, x.ty, ex.val(PTR, x.a[0], s), x)
        elif op == 'store':
            v = ex.val(x.ty, x.a[0], s)
            ex.store(s, x.ty, ex.val(PTR, x.a[1], s), v, x)
        elif op == 'getelementptr':
            b = ex.val(PTR, x.a[0][1], s)
            E[x.res] = ex.gep(x.ty, b, [(a, ex.val(a, v, s)) for a, v in x.a[1]])
        elif op in ('icmp',):
            E[x.res] = ex.icmp(x.a[0], x.ty, ex.val(x.ty, x.a[1], s), ex.val(x.ty, x.a[2], s), s, x)
        elif op == 'fcmp':
            a, b = ex.val(x.ty, x.a[1], s), ex.val(x.ty, x.a[2], s)
            if a.op == 'fc' and b.op == 'fc':
                p, q = fp_val(a), fp_val(b)
                E[x.res] = t.boolc({'oeq': p == q, 'olt': p < q, 'ole': p <= q, 'ogt': p > q, 'oge': p >= q, 'une': p != q}[x.a[0]])
            elif as_dy(a) is not None and as_dy(b) is not None and x.a[0][1:] in ('eq', 'ne', 'lt', 'le', 'gt', 'ge'):
                (p, e1), (q, e2) = as_dy(a), as_dy(b)
                e = min(e1, e2)
                E[x.res] = {'eq': t.eq, 'ne': t.ne, 'lt': t.lt, 'le': t.le, 'gt': t.gt, 'ge': t.ge}[x.a[0][1:]](t.scale(p, 1 << (e1 - e)), t.scale(q, 1 << (e2 - e)))
            else:
                E[x.res] = t._mk('f:cmp', (a, b), x.a[0], None, None, 'B')
        elif op in ('trunc', 'zext', 'sext', 'ptrtoint', 'inttoptr', 'bitcast', 'addrspacecast', 'sitofp', 'uitofp', 'fptosi',
                    'fptoui', 'fpext', 'fptrunc'):
            v = ex.val(x.a[0], x.a[1], s)
            E[x.res] = ex.cast(op, x.a[0], x.ty, v, s, x)
        elif op == 'select':
            c = ex.val(x.a[0], x.a[1], s)
            a, b = ex.val(x.ty, x.a[2], s), ex.val(x.ty, x.a[3], s)
            if isinstance(c, Agg): E[x.res] = Agg([vmerge(p, q, r) for p, q, r in zip(c.v, a.v, b.v)])
            else: E[x.res] = vmerge(c, a, b)
        elif op == 'extractvalue':
            v = ex.val(x.ty, x.a[0], s)
            for i in x.a[1]: v = v.v[i]
            E[x.res] = v
        elif op == 'insertvalue':
            v = ex.val(x.ty, x.a[0], s)
            w = ex.val(x.a[1][0], x.a[1][1], s)
            if len(x.a[2]) != 1: raise Unsupported('nested insertvalue')
            l = list(v.v)
            l[x.a[2][0]] = w
            E[x.res] = Agg(l)
        elif op == 'extractelement':
            v = ex.val(x.ty, x.a[0], s)
            i = ex.val(x.a[1][0], x.a[1][1], s)
            if i.op != 'c': raise Unsupported('symbolic lane')
            E[x.res] = v.v[i.val]
        elif op == 'insertelement':
            v = ex.val(x.ty, x.a[0], s)
            w = ex.val(x.a[1][0], x.a[1][1], s)
            i = ex.val(x.a[2][0], x.a[2][1], s)
            if i.op != 'c': raise Unsupported('symbolic lane')
            l = list(v.v)
            l[i.val] = w
            E[x.res] = Agg(l)
        elif op == 'shufflevector':
            v, w = ex.val(x.ty, x.a[0], s), ex.val(x.ty, x.a[1], s)
            mk = ex.val(x.a[2][0], x.a[2][1], s)
            l = list(v.v) + list(w.v)
            E[x.res] = Agg([UNDEF if i is UNDEF else l[i.val] for i in mk.v])
        elif op == 'freeze':
            v = ex.val(x.ty, x.a[0], s)
            E[x.res] = ex.freshval(x.ty, 'freeze') if v is UNDEF else v
        elif op == 'fneg':
            v = ex.val(x.ty, x.a[0], s)
            E[x.res] = fp_const(-fp_val(v), x.ty.k) if v.op == 'fc' else dy(t.neg(v.args[0]), v.val[0], x.ty.k) if v.op == 'fdy' else fp_op('neg', (v,), x.ty.k)
        elif op == 'landingpad':
            self.landingpad(x, s)
        else:
            if x.a is None: raise Unsupported('instruction ' + op)
            a, b, fl = x.a
            E[x.res] = ex.binop(op, x.ty, ex.val(x.ty, a, s), ex.val(x.ty, b, s), fl, s, x)

    def landingpad(self, x, s):
        from . import rt
        cleanup, cl = x.a
        sel = 0
        for kind, v in cl:
            if kind == 'catch':
                if v[0] == 'null' or rt.exc_matches(s.exc, v[1]):
                    sel = rt.typeid(v[1] if v[0] != 'null' else None)
                    break
            else:
                sel = -1
                break
        else:
            sel = 0
        s.env[x.res] = Agg([Ptr(rt.EXC), const(sel)])

    def do_call(self, b, x, s):
        ex = self.ex
        callee, args, nrm, unw = x.a
        if callee == 'asm': raise Unsupported('inline asm')
        tgt = ex.val(PTR, callee, s)
        if not isinstance(tgt, Ptr) or tgt.o is None or tgt.o.kind != 'fn':
            raise Unsupported('indirect call')
        vals = []
        for at, av, aa in args:
            v = ex.val(at, av, s) if at.k != 'metadata' else None
            if 'byval' in aa:
                o = Obj('alloca', 'byval', ex.m.size(aa['byval']))
                s.mem[o.id] = {}
                s.own.add(o.id)
                ex.memcpy(s, Ptr(o), v, const(o.size), x)
                v = Ptr(o)
            vals.append(v)
        rets, thr = ex.call(s, tgt.o.fn, vals, x, [a[0] for a in args], x.ty)
        out, outs = [], []
        for st, v in rets:
            if x.res: st.env[x.res] = v
            out.append(st)
        for st, e in thr:
            st.exc = e
            if unw is None: self.throws.append((st, e))
            else: outs.append((b, unw, self.trim(st)))
        return out, outs


_dm = {}


def demangle(name):
    n = name.lstrip('@').strip('"')
    if n in _dm: return _dm[n]
    r = subprocess.run(['/usr/bin/llvm-cxxfilt-18', n], capture_output=True, text=True).stdout.strip()
    _dm[n] = r
    return r


def demangle_all(names):
    ns = [n.lstrip('@').strip('"') for n in names]
    todo = [n for n in ns if n not in _dm]
    if todo:
        r = subprocess.run(['/usr/bin/llvm-cxxfilt-18'], input='\n'.join(todo), capture_output=True, text=True).stdout.split('\n')
        for a, b in zip(todo, r): _dm[a] = b
    return {n: _dm[n] for n in ns}
