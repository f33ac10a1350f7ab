"""Entry points, specifications, verification driver, native search and replay."""
import atexit
import ctypes
import fcntl
import hashlib
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor, ProcessPoolExecutor
from . import term as t
from . import exec as X
from . import ir, smt, cgen, real, loops, stream
from .ir import Unsupported, IntTy
from .term import TRUE, FALSE, and_, or_, not_, ite

CLANG = '/usr/bin/clang++-18'
GXX = '/usr/bin/g++'
REPO = os.environ.get('VERIF_REPO', '/repo')
INC = ['-I' + REPO + '/include']
HARN = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'harness')
_work = []
EXHAUST_QUICK = {'f32'}   # 32-bit instances enumerated in the quick tier


def work():
    if not _work:
        d = tempfile.mkdtemp(prefix='eirinvc_')
        _work.append((d, os.getpid()))

        def rm():
            if os.getpid() == _work[0][1]: shutil.rmtree(d, ignore_errors=True)
        atexit.register(rm)
    return _work[0][0]


class BuildError(Exception):
    pass


def run(cmd, **k):
    return subprocess.run(cmd, capture_output=True, text=True, **k)


def compile_ll(src, flags=()):
    """mechanical extraction: clang's own lowering of the real headers, unoptimised, with debug locations"""
    d = work()
    h = hashlib.sha1(src.encode()).hexdigest()[:12]
    cpp, ll = os.path.join(d, h + '.cpp'), os.path.join(d, h + '.ll')
    open(cpp, 'w').write(src)
    cmd = [CLANG, '-std=c++20', '-O0', '-Xclang', '-disable-llvm-passes', '-fno-discard-value-names', '-gline-tables-only', '-S',
           '-emit-llvm', '-w', '-I' + HARN] + INC + list(flags) + [cpp, '-o', ll]
    r = run(cmd)
    if r.returncode: raise BuildError(r.stderr[:3000])
    return open(ll).read()


# ---- machine types ---------------------------------------------------------------------------
CT = {'i8': 'int8_t', 'u8': 'uint8_t', 'i16': 'int16_t', 'u16': 'uint16_t', 'i32': 'int32_t', 'u32': 'uint32_t', 'i64': 'int64_t',
      'u64': 'uint64_t', 'i128': '__int128', 'u128': 'unsigned __int128', 'bool': 'bool', 'int': 'int32_t'}


def bits(ty): return {'bool': 8, 'int': 32}.get(ty) or int(ty[1:])
def signed(ty): return ty[0] == 'i'
def rng(ty):
    if ty == 'bool': return 0, 1
    n = bits(ty)
    return (-(1 << (n - 1)), (1 << (n - 1)) - 1) if signed(ty) else (0, (1 << n) - 1)


class Inst:
    """one instantiation fixed_num<T,I,f,r>"""

    def __init__(self, name, T, Ity, f, r=False):
        self.name, self.T, self.I, self.f, self.r = name, T, Ity, f, r
        self.n = bits(T)
        self.sg = signed(T)
        self.min, self.max = rng(T)
        self.one = 1 << f
        self.In = bits(Ity)
        self.imin, self.imax = rng(Ity)

    def fits(self, x): return t.between(self.min, x, self.max)

    def using(self):
        return 'using %s = eirin::fixed_num<%s, %s, %d, %s>;' % (self.name, CT[self.T], CT[self.I], self.f, 'true' if self.r else 'false')

    def demangled(self):
        D = {'i8': 'signed char', 'i16': 'short', 'i32': 'int', 'i64': 'long', 'i128': '__int128', 'u8': 'unsigned char',
             'u16': 'unsigned short', 'u32': 'unsigned int', 'u64': 'unsigned long', 'u128': 'unsigned __int128'}
        return 'eirin::fixed_num<%s, %s, %du, %s>' % (D[self.T], D[self.I], self.f, 'true' if self.r else 'false')


INSTS = {}
for i in [Inst('f32', 'i32', 'i64', 16), Inst('f64', 'i64', 'i128', 32), Inst('f32_20', 'i32', 'i64', 20), Inst('f32_8', 'i32', 'i64', 8),
          Inst('f32_24', 'i32', 'i64', 24), Inst('f32_10', 'i32', 'i64', 10), Inst('f64_20', 'i64', 'i128', 20), Inst('f64_16', 'i64', 'i128', 16),
          Inst('f64_40', 'i64', 'i128', 40), Inst('f16_8', 'i16', 'i32', 8), Inst('f16_8w', 'i16', 'i64', 8), Inst('f8_4', 'i8', 'i16', 4),
          Inst('r32', 'i32', 'i64', 16, True), Inst('r64', 'i64', 'i128', 32, True), Inst('r16_8', 'i16', 'i32', 8, True),
          Inst('r32_20', 'i32', 'i64', 20, True), Inst('u32_16', 'u32', 'u64', 16), Inst('u16_8', 'u16', 'u32', 8),
          Inst('f32_1', 'i32', 'i64', 1), Inst('f32_30', 'i32', 'i64', 30), Inst('f64_62', 'i64', 'i128', 62)]:
    INSTS[i.name] = i


CARG = {'chars': 'const char* ', 'wchars': 'const wchar_t* ', 'stream': 'std::istream& ', 'wstream': 'std::wistream& ', 'ostream': 'std::ostream& ', 'sink': 'void* '}     # arguments that are not numbers


class Op:
    """One entry point with its contract.  code is the wrapper body; pre/post take (inst, values...) and return terms."""

    def __init__(self, name, args, ret, code, pre=None, post=None, outs=(), when=None, extra='', split=False, exhaust=None, perinst=True, budget=None, uses=(), cpost=(), real=None, bounds=None, cpre=None, loops=(), wall=None, strings=None, facts=None, ghosts=()):
        self.loops, self.wall = loops, wall
        self.strings, self.facts, self.ghosts = strings, facts, ghosts      # see specs/text.py
        self.text = any(k in args for k in ('chars', 'stream', 'sink')) if isinstance(args, str) else False
        self.bounds, self.cpre = bounds or {}, cpre
        self.uses, self.cpost, self.real = list(uses), list(cpost), real
        self.name, self.ret, self.code, self.pre, self.post = name, ret, code, pre, post
        self.args = [tuple(a.split(':')) for a in args.split()] if isinstance(args, str) else list(args)
        self.outs = [tuple(a.split(':')) for a in outs.split()] if isinstance(outs, str) else list(outs)
        self.when, self.extra, self.split, self.exhaust, self.perinst, self.budget = when, extra, split, exhaust, perinst, budget

    def sub(self, ty, inst): return {'T': inst.T, 'I': inst.I}.get(ty, ty) if inst else ty

    def sym(self, inst): return ('%s_%s' % (inst.name, self.name)) if inst else self.name

    def cpp(self, inst):
        ps = [CARG[ty] + n if ty in CARG else '%s %s' % (CT[self.sub(ty, inst)], n) for n, ty in self.args] + \
             ['%s* o_%s' % (CT[self.sub(ty, inst)], n) for n, ty in self.outs]
        pre = ''.join('%s& %s = *o_%s; ' % (CT[self.sub(ty, inst)], n, n) for n, ty in self.outs)
        body = self.code
        if inst:
            pre = 'using N = %s; typedef %s T; typedef %s I; ' % (inst.name, CT[inst.T], CT[inst.I]) + pre
            body = body.replace('$f', str(inst.f))
        return 'W %s %s(%s) { %s%s }' % (CT[self.sub(self.ret, inst)] if self.ret else 'void', self.sym(inst), ', '.join(ps), pre, body)


HEAD = '#include "inst.hpp"\nusing namespace eirin;\n'


class TU:
    def __init__(self, items, head=HEAD, flags=()):
        """items: list of (inst or None, Op)"""
        self.items = [(i, o) for i, o in items if o.when is None or o.when(i)]
        insts = {}
        for i, o in self.items:
            if i: insts[i.name] = i
        self.src = head + '\n'.join(i.using() for i in insts.values()) + '\n' + '\n'.join(o.cpp(i) for i, o in self.items) + '\n'
        self.flags = flags
        self._mod = None

    @property
    def mod(self):
        if self._mod is None:
            self._mod = ir.Module(compile_ll(self.src, self.flags))
        return self._mod


class Goal:
    """one obligation"""
    __slots__ = ('entry', 'label', 'where', 'term', 'kind', 'status', 'by', 'time', 'model', 'fn', 'src', 'parts')

    def __init__(s, entry, label, where, term, kind, fn=''):
        s.entry, s.label, s.where, s.term, s.kind, s.fn = entry, label, where, term, kind, fn
        s.status = s.by = s.model = s.src = s.parts = None
        s.time = 0.0


class EntryVC:
    """verification conditions of one entry point"""

    def __init__(self, op, inst):
        self.op, self.inst = op, inst
        self.sym = op.sym(inst)
        self.goals = []
        self.pre = TRUE
        self.unsupported = None
        self.invars, self.outvars = {}, {}
        self.posts = []
        self.ex = None

    def spec(self):
        """input/output variables, pre and posts as terms over them"""
        op, inst = self.op, self.inst
        V = {}
        for n, ty in op.args:
            ty = op.sub(ty, inst)
            if ty in CARG: continue
            lo, hi = op.bounds.get(n) or rng(ty)
            V[n] = t.var(n, lo, hi)
        self.invars = dict(V)
        for n, ty in op.outs:
            lo, hi = rng(op.sub(ty, inst))
            V['o_' + n] = self.outvars[n] = t.var('o_' + n, lo, hi)
        if op.ret:
            lo, hi = rng(op.sub(op.ret, inst))
            V['ret'] = self.outvars['ret'] = t.var('ret', lo, hi)
        self.ghostvars = {nm: t.var('final_' + nm[1:]) for nm in op.ghosts}
        iv = [self.invars[n] for n, ty in op.args if ty not in CARG]
        ov = ([V['ret']] if op.ret else []) + [V['o_' + n] for n, _ in op.outs] + list(self.ghostvars.values())
        self.pre = op.pre(inst, *iv) if op.pre else TRUE
        ps = op.post(inst, *(ov + iv)) if op.post else []
        if isinstance(ps, t.T): ps = [('result', ps)]
        self.posts = ps
        return self

    def generate(self, mod, contracts, quick):
        op, inst = self.op, self.inst
        ex = X.Executor(mod)
        self.ex = ex
        ex.contracts = contracts
        ex.feasible = quick.feasible if quick else None
        ex.split = op.split
        ex.assume = self.pre
        loops.attach(self, ex)
        st = X.State(TRUE)
        f = mod.funcs['@' + self.sym]
        args = []
        for n, ty in op.args:
            ty = op.sub(ty, inst)
            if ty == 'chars':
                args.append(X.Ptr(X.Obj('arg', n, op.strings(self).size, const=True, sym=lambda ex_, st_, off, size, ty_: self.op.strings(self).read(ex_, st_, off, size))))
                continue
            if ty == 'wchars':
                args.append(X.Ptr(X.Obj('arg', n, t.scale(op.strings(self).size, 4), const=True, sym=lambda ex_, st_, off, size, ty_: self.op.strings(self).read(ex_, st_, t.fdiv(off, 4), 1 if size == 4 else 0))))
                continue
            if ty in ('ostream', 'sink'):
                args.append(stream.make_out(self, n, st, *op.strings))
                continue
            if ty in ('stream', 'wstream'):
                str_ = op.strings(self)
                args.append(stream.make(self, n, st, (lambda p: t.wu(8, str_.chr(p))) if ty == 'stream' else str_.chr, str_.n))
                continue
            v = self.invars[n]
            if ty == 'bool': args.append(t.eq(v, 1))
            else: args.append(t.ws(bits(ty), v))
        outs = {}
        for n, ty in op.outs:
            o = X.Obj('arg', n, bits(op.sub(ty, inst)) // 8)
            lo, hi = rng('i%d' % bits(op.sub(ty, inst)))
            st.mem[o.id] = {0: (bits(op.sub(ty, inst)) // 8, t.var('init_' + n, lo, hi), TRUE)}
            outs[n] = o
            args.append(X.Ptr(o))
        rets, thr = ex.run_function(f, st, args)
        for s, e in thr:
            ex.stack.append(f.name)
            ex.ob('no exception escapes (%s)' % e, s, FALSE, None)
            ex.stack.pop()
        sub_list = []
        for s, v in rets:
            m = {}
            if op.ret:
                rty = op.sub(op.ret, inst)
                if isinstance(v, X.Agg): v = t.add(t.wu(64, v.v[0]), t.scale(v.v[1], 1 << 64))
                if rty == 'bool':
                    v = ite(v, t.const(1), t.const(0)) if v.sort == 'B' else v
                elif not signed(rty): v = t.wu(bits(rty), v)
                m[self.outvars['ret'].id] = v
            for n, ty in op.outs:
                ty = op.sub(ty, inst)
                cells = s.mem.get(outs[n].id, {})
                if 0 not in cells:
                    m[self.outvars[n].id] = self.outvars[n]   # never written: unconstrained
                    continue
                v2 = ex.load(s, IntTy(bits(ty)), X.Ptr(outs[n]))
                if not signed(ty): v2 = t.wu(bits(ty), v2)
                m[self.outvars[n].id] = v2
            for nm, v in self.ghostvars.items(): m[v.id] = ex.load(s, IntTy(stream.W), self.cells[nm], None, quiet=True)
            sub_list.append((s.g, m))
        self.results = sub_list
        if op.facts: ex.lemmas += op.facts(self)
        seen = set()
        for o in ex.obs:
            if o.cond.id in seen: continue
            seen.add(o.cond.id)
            self.goals.append(Goal(self, o.kind, o.where, o.cond, 'safety', X.demangle(o.fn)))
            self.goals[-1].parts = o.parts
        for lab, p in self.posts:
            for g, m in sub_list:
                c = t.implies(g, t.subst(p, m))
                self.goals.append(Goal(self, 'post: ' + lab, self.sym, c, 'post'))
                self.goals[-1].src = (p, g, m)
                self.goals[-1].parts = (g, t.subst(p, m))
        for lab, e in op.cpost: self.goals.append(Goal(self, 'post: ' + lab, self.sym, None, 'real'))
        return self

    def value(self, out='ret'):
        v = self.outvars[out]
        assert len(self.results) == 1
        return self.results[0][1][v.id]

    def prove_all(self, tmo):
        """discharge in order; later goals may assume earlier safety conditions"""
        pre = [self.pre] + self.ex.lemmas
        saf = [g for g in self.goals if g.kind == 'safety']
        post = [g for g in self.goals if g.kind == 'post']
        todo = []
        derived = [g for g in post if g.label[6:] in getattr(self.op.real, 'derived', ())]
        post = [g for g in post if g not in derived]
        for g in saf:
            if t.implies(self.pre, g.term) is TRUE: g.status, g.by = 'proved', 'syntactic'
            else: todo.append(g)
        if self.op.loops:
            ex = [g for g in self.goals if g.kind != 'real' and g.status != 'proved']
            q = smt.Quick(4000)
            for g in ex: self.local(g, q)
            todo = [g for g in todo if g.status != 'proved']
            if sum(g.status != 'proved' for g in ex) > 40:   # the annotation does not fit this code, or the code is wrong
                for g in [g for g in ex if g.status != 'proved'][:4] if self.op.text else []:
                    r = smt.prove(pre, g.term, tmo)
                    g.status, g.by, g.time, g.model = r.status, r.by, r.time, r.model
                return self
        if self.op.real is not None and len(self.invars) == 1 and self.op.real.applies(self):
            todo += [g for g in post if t.implies(self.pre, g.term) is not TRUE]
            t0 = time.time()
            parts = []
            for g in todo: parts += self.split_cases(g)
            n, at = real.prove_terms(self, parts) if parts else (0, None)
            self.boxmodel = None if at is None else {self.op.args[0][0]: at}
            if n is not None:
                for g in todo: g.status, g.by, g.time = 'proved', 'taylor models (%d boxes)' % n, (time.time() - t0) / len(todo)
            todo = [g for g in todo if g.status != 'proved' and g.kind == 'safety']
        if len(todo) > 1:
            r = smt.prove(pre, and_(*[g.term for g in todo]), min(tmo, 15))
            if r.status == 'proved':
                for g in todo: g.status, g.by, g.time = 'proved', r.by, r.time / len(todo)
                todo = []
        for g in todo:
            r = smt.prove(pre, g.term, tmo)
            g.status, g.by, g.time, g.model = r.status, r.by, r.time, r.model
        ass = pre + [g.term for g in saf if g.status == 'proved']
        for g in post:
            if g.status == 'proved': continue
            if t.implies(self.pre, g.term) is TRUE:
                g.status, g.by = 'proved', 'syntactic'
                continue
            if len(self.outvars) > 1 and g.src and self.general(g): continue
            r = smt.prove(pre, g.term, tmo if len(saf) == 0 else min(tmo, 6))
            if r.status != 'proved' and saf:
                r2 = smt.prove(ass, g.term, tmo)
                if r2.status != 'unknown' or r.status == 'unknown': r = r2
            g.status, g.by, g.time, g.model = r.status, r.by, r.time, r.model
        for g in self.goals:
            if g.kind == 'real':
                t0 = time.time()
                g.status = 'unknown'
                if op_real(self, g): g.status = 'proved'
                g.time = time.time() - t0
        for g in derived: self.op.real.derive(self, g)
        return self


    def local(self, g, q):
        """with invariants cutting the execution, most goals need only the hypotheses about their own variables"""
        if g.parts is None: return
        hyp, c = g.parts
        t0 = time.time()
        hs = self.ex.lemmas + (list(hyp.args) if hyp.op == 'and' else [hyp])
        if self.op.ghosts:
            ca = self.__dict__.setdefault('modless', {})
            if q.feasible(and_(self.pre, not_(t.modless(c, ca)), *[t.modless(h, ca) for h in hs])) is False:
                g.status, g.by, g.time = 'proved', 'z3 in process', time.time() - t0
                return
        vs = set(v.id for v in t.vars_of([c]))
        near = [h for h in hs if all(v.id in vs for v in t.vars_of([h]))]
        wide = [h for h in hs if any(v.id in vs for v in t.vars_of([h]))]
        AB = ('mul', 'tdiv', 'trem')
        for k, ab in ((near, AB), (near, ()), (wide, AB), (hs, AB), (wide, ()), (hs, ())):
            if k is wide and len(wide) == len(near) or k is hs and len(hs) == len(wide): continue
            if q.feasible(and_(self.pre, not_(c), *k), ab) is False:
                g.status, g.by = 'proved', 'z3 in process' + ('/abs' if ab else '')
                break
        g.time = time.time() - t0

    def general(self, g):
        """the goal with the output values replaced by arbitrary integers of their ranges"""
        p, grd, m = g.src
        outs = [m[v.id] for v in self.outvars.values() if m[v.id].args]
        gen = {o.id: t.fresh('any', o.lo, o.hi) for o in outs if not any(t.subst(o, {q.id: t.const(0)}) is not o for q in outs if q is not o)}
        if not gen: return False
        t0 = time.time()
        pre, c = t.subst(self.pre, gen), t.subst(t.implies(grd, t.subst(p, m)), gen)
        if smt.Quick(4000).feasible(and_(pre, not_(c), *quotients(c)), ('tdiv',)) is False: g.by = 'z3 in process/abs'
        else:
            r = smt.prove([pre], c, 4)
            if r.status != 'proved': return False
            g.by = r.by
        g.status, g.time = 'proved', time.time() - t0
        return True

    def split_cases(self, g):
        """the goal as one term per leaf of the returned value's branches; leaves whose case follows from the branch conditions alone,
        with the leaf itself replaced by an arbitrary integer, are discharged here"""
        if g.src is None or 'ret' not in self.outvars: return [g.term]
        p, grd, m = g.src
        rid = self.outvars['ret'].id
        leaves = {}

        def walk(x, path):
            if x.op == 'ite' and len(leaves) < 24:
                walk(x.args[1], and_(path, x.args[0]))
                walk(x.args[2], and_(path, not_(x.args[0])))
            else: leaves[x.id] = (x, or_(leaves[x.id][1], path) if x.id in leaves else path)
        walk(m[rid], TRUE)
        if len(leaves) < 3 or len(leaves) >= 24: return [g.term]
        gen = {x.id: t.fresh('leaf', x.lo, x.hi) for x, _ in leaves.values() if x.args}
        out = []
        for x, path in leaves.values():
            term = t.implies(and_(grd, path), t.subst(p, {**m, rid: x}))
            if t.implies(self.pre, term) is TRUE: continue
            m2 = dict(m)
            m2[rid] = gen.get(x.id, x)
            r = smt.prove([t.subst(self.pre, gen)], t.implies(t.subst(and_(grd, path), gen), t.subst(p, m2)), 4)
            if r.status != 'proved': out.append(term)
        return out


def quotients(c):
    """valid facts: |a / b| <= max |a| / d whenever |b| >= d, for the least d that keeps the quotient inside the integer type it is put in"""
    out, seen, st = [], set(), [c]
    while st:
        x = st.pop()
        if x.id in seen: continue
        seen.add(x.id)
        st.extend(x.args)
        if x.op != 'ws': continue
        y = x.args[0]
        if y.op != 'tdiv' or y.args[1].op == 'c' or y.args[0].lo is None or y.args[0].hi is None: continue
        a, b = y.args
        m = max(abs(a.lo), abs(a.hi))
        d = m // (1 << (x.val - 1)) + 1
        out.append(t.implies(or_(t.ge(b, d), t.le(b, -d)), and_(t.le(y, m // d), t.ge(y, -(m // d)))))
    return out


def op_real(vc, g):
    if isinstance(vc.op.real, (loops.Facts, real.Periodic)): return vc.op.real.prove(vc, g)
    if vc.op.real is None or not vc.op.real.applies(vc): return False
    return vc.op.real(vc, g)


# ---- native side -----------------------------------------------------------------------------
NATIVE_PRELUDE = r"""
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csignal>
#include <cstdint>
#include <random>
#include <unistd.h>
#include <fcntl.h>
#include <sys/time.h>
static volatile int ub_hit = 0;
extern "C" void __ubsan_on_report(void) { ub_hit = 1; }
static void put128(__int128 v) { char b[64]; int k = 63; b[k] = 0; bool n = v < 0; unsigned __int128 u = n ? -(unsigned __int128)v : v;
  do { b[--k] = '0' + (int)(u % 10); u /= 10; } while (u); if (n) b[--k] = '-'; fputs(b + k, stdout); }
static __int128 cur[8]; static int ncur; static const char* const* curname; static long cnt, acc, lastcnt = -1;
static void report(int code) { printf("FAIL %d", code); for (int i = 0; i < ncur; i++) { printf(" %s=", curname[i]); put128(cur[i]); } printf("\n"); fflush(stdout); }
static void onsig(int s) { if (s == SIGALRM) { if (cnt != lastcnt) { lastcnt = cnt; return; } report(1 << 28); _exit(1); } report((1 << 27) | s); _exit(1); }
static void setup() { int fd = open("/dev/null", O_WRONLY); dup2(fd, 2); for (int s : {SIGABRT, SIGFPE, SIGSEGV, SIGBUS, SIGILL}) signal(s, onsig); signal(SIGALRM, onsig);
  itimerval it{{4, 0}, {4, 0}}; setitimer(ITIMER_REAL, &it, 0); }
"""


def lit(v, ty):
    if bits(ty) > 64:
        return '(((%s)%dLL<<64)|(%s)%dULL)' % (CT[ty], (v >> 64), CT[ty], v & ((1 << 64) - 1))
    if v == -(1 << 63): return '(%s)(-%dLL-1)' % (CT[ty], (1 << 63) - 1)
    return '(%s)%d%s' % (CT[ty], v, 'ULL' if v >= 1 << 63 else 'LL')


def decode_fail(out, vc):
    op, inst = vc.op, vc.inst
    m = re.search(r'FAIL (-?\d+) ?(.*)', out)
    if not m: return None
    mask = int(m.group(1))
    inp = dict((k, int(v)) for k, v in (x.split('=') for x in m.group(2).split()))
    if mask & (1 << 30): fails = ['undefined behaviour (UBSan)']
    elif mask & (1 << 29): fails = ['exception escapes']
    elif mask & (1 << 28): fails = ['does not terminate']
    elif mask & (1 << 27): fails = ['crash, signal %d' % (mask & 255)]
    else:
        labs = [l for l, _ in vc.posts] + [l for l, _ in op.cpost]
        fails = ['post: ' + labs[i - 1] for i in range(1, len(labs) + 1) if mask & (1 << i)]
    return {'inputs': inp, 'failed': fails}


def native_source(tu, vc, models, budget, seed, exhaust=None):
    """C++ program evaluating pre and posts (the same terms the solver gets) around real calls"""
    op, inst = vc.op, vc.inst
    roots = [vc.pre] + [p for _, p in vc.posts]
    names = [n for n, _ in op.args] + (['ret'] if op.ret else []) + ['o_' + n for n, _ in op.outs]
    chk = cgen.emit('s', names, roots)
    pre_only = cgen.emit('p', [n for n, _ in op.args], [vc.pre])
    tys = [op.sub(ty, inst) for _, ty in op.args]
    decl, interesting = [], []
    f = inst.f if inst else 16
    base = [1 << k for k in range(0, 64)] + [3 << k for k in range(0, 62)] + [5 << f, 7 << f, 10 << f, 100 << f, int(3.14159265358979 * (1 << f)),
            int(6.28318530717958 * (1 << f)), int(1.5707963267949 * (1 << f)), (1 << f) // 3, (2 << f) // 3, (1 << f) // 10]
    for (n, _), ty in zip(op.args, tys):
        lo, hi = rng(ty)
        s = set()
        for b in [0, lo, hi] + base:
            for d in (-2, -1, 0, 1, 2):
                for sg in (1, -1):
                    v = sg * b + d
                    if lo <= v <= hi: s.add(v)
        interesting.append(sorted(s))
    an = [n for n, _ in op.args]
    for k, ty in enumerate(tys):
        decl.append('static const %s I%d[] = {%s};' % (CT[ty], k, ','.join(lit(v, ty) for v in interesting[k])))
    decl.append('static const char* const names_[] = {%s};' % ','.join('"%s"' % n for n in an + ['']))
    call = '%s(%s)' % (vc.sym, ', '.join(an + ['&o_' + n for n, _ in op.outs]))
    b = 'static int tryone(%s) {\n' % ', '.join('%s %s' % (CT[ty], n) for n, ty in zip(an, tys))
    for n, (lo, hi) in op.bounds.items(): b += '  if (%s < %s || %s > %s) return -1;\n' % (n, lit(lo, dict(zip(an, tys))[n]), n, lit(hi, dict(zip(an, tys))[n]))
    if op.cpre: b += '  if (!(%s)) return -1;\n' % op.cpre
    b += '  if (ns_p::chk(%s)) return -1;\n  acc++; ncur = %d;\n' % (', '.join('(ns_p::Z)%s' % n for n in an), len(an))
    for k, n in enumerate(an): b += '  cur[%d] = %s;\n' % (k, n)
    for n, ty in op.outs: b += '  %s o_%s = %s;\n' % (CT[op.sub(ty, inst)], n, 'init_' + n if ('init_' + n) in an else '0')
    if op.ret: b += '  %s ret;\n' % CT[op.sub(op.ret, inst)]
    b += '  ub_hit = 0;\n  try { %s%s; } catch (...) { return 1 << 29; }\n' % ('ret = ' if op.ret else '', call)
    b += '  if (ub_hit) return 1 << 30;\n  int bad_ = ns_s::chk(%s);\n' % ', '.join('(ns_s::Z)%s' % n for n in names)
    for k, (_, e) in enumerate(op.cpost): b += '  if (!(%s)) bad_ |= %d;\n' % (e, 1 << (1 + len(vc.posts) + k))
    b += '  return bad_;\n}\n'
    one = 'r = tryone(%s); cnt++; if (r > 0) { report(r); return 1; }' % ', '.join(an)
    m = 'int main(int argc, char** argv) { setup(); curname = names_; std::mt19937_64 g(%d); int r;\n' % seed
    for mo in models:
        if mo and all(n in mo for n in an):
            m += ' { ' + ' '.join('%s %s = %s;' % (CT[ty], n, lit(mo[n], ty)) for n, ty in zip(an, tys)) + one + ' }\n'
    if len(an) <= 2: m += ' ' + ' '.join('for (auto %s : I%d)' % (n, k) for k, n in enumerate(an)) + ' { ' + one + ' }\n'
    if exhaust:
        ty = tys[0]
        lo, hi = exhaust
        m += ' { long part = atol(argv[1]), parts = atol(argv[2]); long lo = %dLL, hi = %dLL; long w = (hi - lo) / parts + 1; long a0 = lo + part * w, a1 = a0 + w - 1; if (a1 > hi) a1 = hi;\n' % (lo, hi)
        m += '   for (long v = a0; v <= a1; v++) { %s %s = (%s)v; %s } }\n' % (CT[ty], an[0], CT[ty], one)
    else:
        draws = ''
        for k, (n, ty) in enumerate(zip(an, tys)):
            pick = 'I%d[(w >> 2) %% (sizeof(I%d)/sizeof(I%d[0]))]' % (k, k, k)
            draws += ('%s %s; { uint64_t w = g(); switch (w & 3) { case 0: %s = %s; break; case 1: %s = (%s)g(); break; case 2: %s = (%s)((long long)g() >> '
                      '((w >> 8) & 63)); break; default: %s = (%s)((unsigned __int128)%s + ((w>>40)&1023) - 512); } }\n') % (
                CT[ty], n, n, pick, n, CT[ty], n, CT[ty], n, CT[ty], pick)
            if ty == 'bool': draws += '%s = g() & 1;\n' % n
        m += ' for (long i = 0; i < %dL; i++) { %s %s }\n' % (budget, draws, one)
    m += ' printf("OK %ld %ld\\n", cnt, acc); return 0; }\n'
    if op.cpost or op.cpre:
        rt_ = 'double' if inst and inst.n <= 32 else 'long double'
        decl.append('#include <oracle.hpp>\ntypedef %s R; typedef %s T_; constexpr int F_ = %d;\n[[maybe_unused]] static constexpr R ULP = 1.0L / (1ULL << %d), PI = 3.14159265358979323846264338327950288L, MAXV = %d * ULP; constexpr __int128 MAXRAW = %dLL;\n'
                    'template <class Z_> static inline R V(Z_ x) { return (R)x * ULP; }\nstatic inline R AB(R x) { return x < 0 ? -x : x; }' % (rt_, CT[inst.T] if inst else 'int', f, f, inst.max if inst else 0, inst.max if inst else 0))
    return '\n'.join([tu.src, NATIVE_PRELUDE, chk, pre_only] + decl + [b, m])


def native_build(src, flags=(), ub=True, opt='-O1', trap=False):
    d = work()
    h = 's' + hashlib.sha1((src + repr(flags) + opt + str(trap)).encode()).hexdigest()[:14]
    cpp, exe = os.path.join(d, h + '.cpp'), os.path.join(d, h)
    if os.path.exists(exe): return exe
    open(cpp, 'w').write(src)
    san = ['-fsanitize=undefined', '-fno-sanitize=vptr,function', '-fsanitize-recover=all'] if ub else []
    if trap: san = ['-fsanitize=undefined', '-fno-sanitize=vptr,function', '-fsanitize-trap=undefined']
    r = run([CLANG, '-std=c++20', opt, '-w'] + san + ['-I' + HARN] + INC + list(flags) + [cpp, '-o', exe])
    if r.returncode: raise BuildError(r.stderr[:1500])
    return exe


def native_search(tu, vc, models=(), budget=300000, seed=1, time_s=60):
    """evaluate pre and posts natively on boundary/model/random inputs with UBSan on.
    returns ({'inputs','failed'} or None, info)"""
    try:
        src = native_source(tu, vc, models, budget, seed)
        exe = native_build(src, tu.flags)
    except Unsupported as e:
        return None, 'spec not executable: %s' % e
    except BuildError as e:
        return None, 'build: %s' % e
    try:
        p = subprocess.run([exe], capture_output=True, text=True, timeout=time_s)
    except subprocess.TimeoutExpired:
        return None, 'search timed out'
    r = decode_fail(p.stdout, vc)
    return r, p.stdout.strip()[:200]


def native_exhaust(tu, vc, lo, hi, time_s=300, parts=None):
    """complete enumeration of a unary entry point over [lo, hi]"""
    parts = parts or smt.NCPU
    try:
        exe = native_build(native_source(tu, vc, (), 0, 1, exhaust=(lo, hi)), tu.flags, opt='-O2', trap=True)
    except (Unsupported, BuildError) as e:
        return None, 'not possible: %s' % str(e)[:300]
    lk = open('/tmp/.eirinvc_exhaust.lock', 'w')
    fcntl.flock(lk, fcntl.LOCK_EX)
    ps = [subprocess.Popen([exe, str(k), str(parts)], stdout=subprocess.PIPE, text=True) for k in range(parts)]
    dl = time.time() + time_s
    outs, late = [], False
    for p in ps:
        try: outs.append(p.communicate(timeout=max(0.1, dl - time.time()))[0])
        except subprocess.TimeoutExpired:
            p.kill()
            p.communicate()
            late = True
    lk.close()
    for o in outs:
        r = decode_fail(o, vc)
        if r: return r, 'exhaustive'
    if late: return None, 'exhaustive run timed out'
    n = sum(int(o.split()[2]) for o in outs if o.startswith('OK'))
    return None, 'complete %d' % n


def replay_source(tu, vc, inp):
    """self-contained replay: prints the outputs of the real code on the failing input"""
    op, inst = vc.op, vc.inst
    tys = [op.sub(ty, inst) for _, ty in op.args]
    s = tu.src + NATIVE_PRELUDE + 'int main() {\n'
    for (n, _), ty in zip(op.args, tys): s += '  %s %s = %s;\n' % (CT[ty], n, lit(inp[n], ty))
    for n, ty in op.outs: s += '  %s o_%s = 0;\n' % (CT[op.sub(ty, inst)], n)
    s += '  %s%s(%s);\n' % ('auto ret = ' if op.ret else '', vc.sym, ', '.join([n for n, _ in op.args] + ['&o_' + n for n, _ in op.outs]))
    if op.ret: s += '  printf("ret="); put128(ret); printf("\\n");\n'
    for n, _ in op.outs: s += '  printf("%s="); put128(o_%s); printf("\\n");\n' % (n, n)
    return s + '}\n'
