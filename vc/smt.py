"""Lowering of terms to SMT-LIB (integer and bit-vector encodings) and a solver portfolio."""
import os
import re
import signal
import subprocess
import tempfile
import threading
import time
from concurrent.futures import ThreadPoolExecutor
from . import term as t
from .ir import Unsupported

Z3N, Z3, CVC5 = '/usr/local/bin/z3-new', '/usr/bin/z3', None
for p in ('/usr/local/bin/cvc5', '/usr/bin/cvc5', '/opt/veriftools/bin/cvc5'):
    if os.path.exists(p):
        CVC5 = p
        break
if not os.path.exists(Z3N): Z3N = Z3
if not os.path.exists(Z3):
    Z3 = '/usr/local/bin/z3'
NCPU = os.cpu_count() or 4
SLOTS = threading.Semaphore(NCPU)
STATS = {'calls': 0, 'time': 0.0, 'by': {}}


def topo(roots):
    order, seen = [], set()
    st = [(r, False) for r in reversed(roots)]
    while st:
        x, done = st.pop()
        if done:
            order.append(x)
            continue
        if x.id in seen: continue
        seen.add(x.id)
        st.append((x, True))
        for y in x.args:
            if y.id not in seen: st.append((y, False))
    return order


def num(n): return str(n) if n >= 0 else '(- %d)' % -n


def sym(x):
    n = x.val[0] if x.op == 'v' else x.val
    return '|%s|' % n


class IntEnc:
    """SMT Int encoding. abstract: ops to replace by fresh variables (sound for proving only)."""

    def __init__(self, abstract=(), lemmas=True):
        self.abstract = set(abstract)
        self.decl, self.defs, self.asserts = [], [], []
        self.exact = True
        self.lemmas = lemmas

    def run(self, roots):
        N = {}
        fns = {}
        for x in topo(roots):
            a = [N[y.id] for y in x.args]
            op = x.op
            e = None
            if op == 'c': N[x.id] = num(x.val); continue
            if op == 'b': N[x.id] = 'true' if x.val else 'false'; continue
            if op == 'v':
                s = sym(x)
                self.decl.append('(declare-const %s Int)' % s)
                if x.lo is not None: self.asserts.append('(>= %s %s)' % (s, num(x.lo)))
                if x.hi is not None: self.asserts.append('(<= %s %s)' % (s, num(x.hi)))
                N[x.id] = s
                continue
            if op == 'bv':
                self.decl.append('(declare-const %s Bool)' % sym(x))
                N[x.id] = sym(x)
                continue
            if op in self.abstract:
                s = 'abs%d' % x.id
                self.decl.append('(declare-const %s Int)' % s)
                if x.lo is not None: self.asserts.append('(>= %s %s)' % (s, num(x.lo)))
                if x.hi is not None: self.asserts.append('(<= %s %s)' % (s, num(x.hi)))
                self.exact = False
                if op in ('tdiv', 'trem') and x.args[1].op == 'c' : pass
                N[x.id] = s
                continue
            if op == 'lin':
                ps = ['(* %s %s)' % (num(k), u) if k != 1 else u for k, u in zip(x.val[0], a)]
                if x.val[1]: ps.append(num(x.val[1]))
                e = ps[0] if len(ps) == 1 else '(+ %s)' % ' '.join(ps)
            elif op == 'mul': e = '(* %s)' % ' '.join(a)
            elif op == 'fdiv': e = '(div %s %d)' % (a[0], x.val)
            elif op == 'fmod': e = '(mod %s %d)' % (a[0], x.val)
            elif op in ('tdiv', 'trem'):
                p, q = a
                if x.args[1].op == 'c' and x.args[1].val > 0:
                    dv = '(ite (>= %s 0) (div %s %s) (- (div (- %s) %s)))' % (p, p, q, p, q)
                else:
                    dv = ('(ite (= %s 0) 0 (ite (>= %s 0) (ite (> %s 0) (div %s %s) (- (div %s (- %s)))) '
                          '(ite (> %s 0) (- (div (- %s) %s)) (div (- %s) (- %s)))))' % (q, p, q, p, q, p, q, q, p, q, p, q))
                if op == 'tdiv': e = dv
                else: e = '(ite (= %s 0) 0 (- %s (* %s %s)))' % (q, p, q, dv)
            elif op == 'ws': e = '(- (mod (+ %s %d) %d) %d)' % (a[0], 1 << (x.val - 1), 1 << x.val, 1 << (x.val - 1))
            elif op == 'wu': e = '(mod %s %d)' % (a[0], 1 << x.val)
            elif op == 'ite': e = '(ite %s %s %s)' % tuple(a)
            elif op == 'not': e = '(not %s)' % a[0]
            elif op == 'and': e = '(and %s)' % ' '.join(a)
            elif op == 'or': e = '(or %s)' % ' '.join(a)
            elif op == 'le0':
                e = self.cmp('<=', x.args[0], a[0], N)
            elif op == 'eq0':
                e = self.cmp('=', x.args[0], a[0], N)
            elif op in ('app', 'papp'):
                fn = x.val[0] if op == 'app' else x.val
                s = '|%s|' % fn
                if fn not in fns:
                    fns[fn] = 1
                    self.decl.append('(declare-fun %s (%s) %s)' % (s, ' '.join(['Int'] * len(a)), 'Int' if op == 'app' else 'Bool'))
                e = '(%s %s)' % (s, ' '.join(a)) if a else s
            else:
                raise Unsupported('Int encoding of ' + op)
            nm = 't%d' % x.id
            self.defs.append('(define-fun %s () %s %s)' % (nm, 'Bool' if x.sort == 'B' else 'Int', e))
            N[x.id] = nm
            if op == 'app' and self.lemmas:
                if x.lo is not None: self.asserts.append('(>= %s %s)' % (nm, num(x.lo)))
                if x.hi is not None: self.asserts.append('(<= %s %s)' % (nm, num(x.hi)))
        self.N = N
        return [N[r.id] for r in roots]

    def cmp(self, o, x, s, N):
        if x.op == 'lin' and x.val[1]:
            ps = ['(* %s %s)' % (num(k), N[u.id]) if k != 1 else N[u.id] for k, u in zip(x.val[0], x.args)]
            l = ps[0] if len(ps) == 1 else '(+ %s)' % ' '.join(ps)
            return '(%s %s %s)' % (o, l, num(-x.val[1]))
        return '(%s %s 0)' % (o, s)

    def text(self, roots, logic=None):
        rs = self.run(roots)
        return '\n'.join((['(set-logic %s)' % logic] if logic else []) + self.decl + self.defs
                         + ['(assert %s)' % x for x in self.asserts + rs])


def width(x):
    if x.lo is None or x.hi is None: raise Unsupported('unbounded term in bit-vector encoding')
    return max(t._bits(x.lo), t._bits(x.hi)) + 1


def bvc(n, w): return '(_ bv%d %d)' % (n % (1 << w), w)


def resize(s, w, to):
    if w == to: return s
    if w < to: return '((_ sign_extend %d) %s)' % (to - w, s)
    return '((_ extract %d 0) %s)' % (to - 1, s)


class BVEnc:
    def __init__(self, abstract=()):
        self.abstract = set(abstract)
        self.decl, self.defs, self.asserts = [], [], []
        self.exact = True

    def run(self, roots):
        N, W = {}, {}
        for x in topo(roots):
            op = x.op
            if op == 'b': N[x.id] = 'true' if x.val else 'false'; continue
            if op == 'bv':
                self.decl.append('(declare-const %s Bool)' % sym(x))
                N[x.id] = sym(x)
                continue
            w = None
            if x.sort == 'I':
                w = W[x.id] = width(x)
            if op == 'c': N[x.id] = bvc(x.val, w); continue
            R = lambda y, to: resize(N[y.id], W[y.id], to)
            if op == 'v' or op in self.abstract:
                s = sym(x) if op == 'v' else 'abs%d' % x.id
                if op != 'v': self.exact = False
                self.decl.append('(declare-const %s (_ BitVec %d))' % (s, w))
                if x.lo > -(1 << (w - 1)): self.asserts.append('(bvsge %s %s)' % (s, bvc(x.lo, w)))
                if x.hi < (1 << (w - 1)) - 1: self.asserts.append('(bvsle %s %s)' % (s, bvc(x.hi, w)))
                N[x.id] = s
                continue
            if op == 'lin':
                ps = [R(u, w) if k == 1 else '(bvmul %s %s)' % (bvc(k, w), R(u, w)) if (abs(k) & (abs(k) - 1)) else
                      ('(bvneg %s)' % self.shl(R(u, w), abs(k).bit_length() - 1, w) if k < 0 else self.shl(R(u, w), k.bit_length() - 1, w))
                      for k, u in zip(x.val[0], x.args)]
                if x.val[1]: ps.append(bvc(x.val[1], w))
                e = ps[0]
                for q in ps[1:]: e = '(bvadd %s %s)' % (e, q)
            elif op == 'mul':
                e = R(x.args[0], w)
                for y in x.args[1:]: e = '(bvmul %s %s)' % (e, R(y, w))
            elif op == 'fdiv':
                y, d = x.args[0], x.val
                if d & (d - 1) == 0:
                    k = d.bit_length() - 1
                    wy = W[y.id]
                    if k >= wy: k = wy - 1
                    e = resize('((_ extract %d %d) %s)' % (wy - 1, k, N[y.id]), wy - k, w)
                else:
                    W2 = max(W[y.id], width(t.const(d))) + 1
                    yy, dd = R(y, W2), bvc(d, W2)
                    if y.lo >= 0: e = resize('(bvudiv %s %s)' % (yy, dd), W2, w)
                    else:
                        e = resize('(ite (bvsge %s %s) (bvudiv %s %s) (bvnot (bvudiv (bvnot %s) %s)))' % (yy, bvc(0, W2), yy, dd, yy, dd), W2, w)
            elif op == 'fmod':
                y, d = x.args[0], x.val
                if d & (d - 1) == 0:
                    k = d.bit_length() - 1
                    s = R(y, k)
                    e = resize('(concat #b0 %s)' % s, k + 1, w)
                else:
                    W2 = max(W[y.id], width(t.const(d))) + 1
                    e = resize('(bvsmod %s %s)' % (R(y, W2), bvc(d, W2)), W2, w)
            elif op in ('tdiv', 'trem'):
                p, q = x.args
                W2 = max(W[p.id], W[q.id], w) + 1
                z = bvc(0, W2)
                e = resize('(ite (= %s %s) %s (%s %s %s))' % (R(q, W2), z, z, 'bvsdiv' if op == 'tdiv' else 'bvsrem', R(p, W2), R(q, W2)), W2, w)
            elif op == 'ws': e = resize(R(x.args[0], x.val), x.val, w)
            elif op == 'wu': e = resize('(concat #b0 %s)' % R(x.args[0], x.val), x.val + 1, w)
            elif op in ('band', 'bor', 'bxor'):
                e = '(%s %s %s)' % ({'band': 'bvand', 'bor': 'bvor', 'bxor': 'bvxor'}[op], R(x.args[0], w), R(x.args[1], w))
                W2 = max(w, W[x.args[0].id], W[x.args[1].id])
                e = resize('(%s %s %s)' % ({'band': 'bvand', 'bor': 'bvor', 'bxor': 'bvxor'}[op], R(x.args[0], W2), R(x.args[1], W2)), W2, w)
            elif op == 'ite': e = '(ite %s %s %s)' % (N[x.args[0].id], R(x.args[1], w), R(x.args[2], w))
            elif op == 'not': e = '(not %s)' % N[x.args[0].id]
            elif op in ('and', 'or'): e = '(%s %s)' % (op, ' '.join(N[y.id] for y in x.args))
            elif op in ('le0', 'eq0'):
                y = x.args[0]
                o = 'bvsle' if op == 'le0' else '='
                e = '(%s %s %s)' % (o, N[y.id], bvc(0, W[y.id]))
            else:
                raise Unsupported('BV encoding of ' + op)
            nm = 't%d' % x.id
            self.defs.append('(define-fun %s () %s %s)' % (nm, 'Bool' if x.sort == 'B' else '(_ BitVec %d)' % w, e))
            N[x.id] = nm
        return [N[r.id] for r in roots]

    def shl(self, s, k, w):
        if k == 0: return s
        return '(bvshl %s %s)' % (s, bvc(k, w))

    def text(self, roots, logic=None):
        rs = self.run(roots)
        return '\n'.join((['(set-logic %s)' % logic] if logic else []) + self.decl + self.defs
                         + ['(assert %s)' % x for x in self.asserts + rs])


def _cmd(solver, tmo):
    if solver == 'cvc5': return [CVC5, '--lang=smt2', '--tlimit=%d' % int(tmo * 1000), '--produce-models']
    if solver == 'cvc5-nl': return [CVC5, '--lang=smt2', '--tlimit=%d' % int(tmo * 1000), '--produce-models', '--nl-ext-tplanes']
    return [Z3N if solver == 'z3n' else Z3, '-smt2', '-T:%d' % max(1, int(tmo + 0.99))]


class Run:
    """one solver process"""

    def __init__(self, solver, text, names, tmo):
        self.solver = solver
        q = text + '\n(check-sat)\n' + ('(get-value (%s))\n' % ' '.join(names) if names else '')
        pre = '(set-option :produce-models true)\n' if solver[0] == 'z' else ''
        self.f = tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False)
        self.f.write(pre + q)
        self.f.close()
        self.t0 = time.time()
        self.tmo = tmo
        self.p = subprocess.Popen(_cmd(solver, tmo) + [self.f.name], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                                  preexec_fn=_lim)

    def finish(self):
        try:
            out = self.p.communicate(timeout=self.tmo + 5)[0]
        except subprocess.TimeoutExpired:
            self.kill()
            out = 'timeout'
        STATS['calls'] += 1
        STATS['time'] += time.time() - self.t0
        try: os.unlink(self.f.name)
        except OSError: pass
        r = out.strip().split('\n')[0].strip() if out.strip() else 'unknown'
        if r not in ('sat', 'unsat'): r = 'unknown'
        return r, out

    def kill(self):
        try:
            self.p.kill()
        except Exception:
            pass


def _lim():
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))


def parse_model(out, names):
    m = {}
    for n in names:
        e = re.escape(n)
        r = re.search(r'\(%s\s+(?:(-?\d+)|\(-\s*(\d+)\)|#b([01]+)|#x([0-9a-f]+)|(true|false)|\(_ bv(\d+) (\d+)\))\s*\)' % e, out)
        if not r and n[0] == '|':
            r = re.search(r'\(%s\s+(?:(-?\d+)|\(-\s*(\d+)\)|#b([01]+)|#x([0-9a-f]+)|(true|false)|\(_ bv(\d+) (\d+)\))\s*\)' % re.escape(n.strip('|')), out)
        if not r: continue
        g = r.groups()
        if g[0] is not None: v = int(g[0])
        elif g[1] is not None: v = -int(g[1])
        elif g[2] is not None:
            v = int(g[2], 2)
            if g[2][0] == '1': v -= 1 << len(g[2])
        elif g[3] is not None:
            v = int(g[3], 16)
            if int(g[3][0], 16) >= 8: v -= 1 << (4 * len(g[3]))
        elif g[4] is not None: v = g[4] == 'true'
        else:
            v = int(g[5])
            if v >> (int(g[6]) - 1): v -= 1 << int(g[6])
        m[n.strip('|')] = v
    return m


class Result:
    def __init__(self, status, by=None, model=None, time=0.0):
        self.status, self.by, self.model, self.time = status, by, model, time

    def __repr__(self): return 'Result(%s,%s)' % (self.status, self.by)


def has_op(roots, ops):
    return any(x.op in ops for x in topo(roots))


def solve(roots, tmo=20, strategies=None):
    """satisfiability of the conjunction of roots: 'unsat' | 'sat' (with model) | 'unknown'"""
    roots = [r for r in roots if r is not t.TRUE]
    if any(r is t.FALSE for r in roots): return Result('unsat', 'syntactic')
    if not roots: return Result('sat', 'syntactic', {})
    vs = t.vars_of(roots)
    names = [sym(v) for v in vs]
    nonlin = any(x.op == 'mul' or (x.op in ('tdiv', 'trem') and x.args[1].op != 'c') for x in topo(roots))
    bitw = has_op(roots, ('band', 'bor', 'bxor'))
    unb = any(x.sort == 'I' and (x.lo is None or x.hi is None) for x in topo(roots))
    t0 = time.time()
    stages = strategies
    if stages is None:
        stages = []
        if nonlin:
            if not unb or True: stages.append([('z3n', 'int', 1), ('z3n', 'bv', 1), ('cvc5', 'int', 1)])
            stages.append([('z3n', 'int', 0), ('z3n', 'bv', 0), ('cvc5', 'bv', 0), ('cvc5', 'int', 0), ('z3', 'int', 0)])
        elif bitw:
            stages.append([('z3n', 'bv', 0), ('cvc5', 'bv', 0), ('z3', 'bv', 0)])
        else:
            stages.append([('z3n', 'int', 0), ('z3n', 'bv', 0), ('cvc5', 'int', 0), ('cvc5', 'bv', 0)])
    last = None
    for si, stage in enumerate(stages):
        runs = []
        tm = tmo if si == len(stages) - 1 else min(tmo, 8)
        enc_cache = {}
        for (sv, enc, ab) in stage:
            if sv.startswith('cvc5') and CVC5 is None: continue
            key = (enc, ab)
            if key not in enc_cache:
                try:
                    A = ('mul', 'tdiv', 'trem') if ab else ()
                    e = IntEnc(A) if enc == 'int' else BVEnc(A)
                    enc_cache[key] = (e, e.text(roots, 'ALL' if enc == 'int' else 'QF_BV'))
                except Unsupported:
                    enc_cache[key] = None
            ec = enc_cache[key]
            if ec is None: continue
            runs.append((sv, enc, ab, ec))
        if not runs: continue
        r = _race(runs, names, tm)
        if r.status in ('unsat', 'sat'):
            r.time = time.time() - t0
            return r
    return Result('unknown', None, None, time.time() - t0)


def _race(runs, names, tmo):
    res = []
    ev = threading.Event()
    procs = []
    lock = threading.Lock()

    def work(item):
        sv, enc, ab, (e, text) = item
        if ev.is_set(): return
        with SLOTS:
            if ev.is_set(): return
            r = Run(sv, text, names if e.exact else [], tmo)
            with lock: procs.append(r)
            if ev.is_set(): r.kill()
            st, out = r.finish()
        if st == 'unsat' or (st == 'sat' and e.exact):
            with lock:
                if not ev.is_set():
                    by = '%s/%s%s' % (sv, enc, '/abs' if ab else '')
                    STATS['by'][by] = STATS['by'].get(by, 0) + 1
                    res.append(Result(st, by, parse_model(out, names) if st == 'sat' else None))
                    ev.set()
                    for q in procs:
                        if q is not r: q.kill()
    ths = [threading.Thread(target=work, args=(x,)) for x in runs]
    for x in ths: x.start()
    for x in ths: x.join()
    return res[0] if res else Result('unknown')


def prove(assumptions, goal, tmo=20, strategies=None):
    """valid?  -> Result with status 'proved' | 'refuted' (model) | 'unknown'"""
    if goal is t.TRUE: return Result('proved', 'syntactic')
    r = solve(list(assumptions) + [t.not_(goal)], tmo, strategies)
    r.status = {'unsat': 'proved', 'sat': 'refuted'}.get(r.status, 'unknown')
    return r


# ---- quick in-process feasibility (used for loop exits and path pruning) -----------------------
class Quick:
    def __init__(self, tmo_ms=700):
        import z3
        self.z3 = z3
        self.tmo = tmo_ms
        self.cache = {}
        self.time = 0.0
        self.calls = 0

    def feasible(self, g, abstract=()):
        """False when g is certainly unsatisfiable, True/None otherwise"""
        key = (g.id, bool(abstract))
        if key in self.cache: return self.cache[key]
        t0 = time.time()
        self.calls += 1
        r = None
        try:
            e = IntEnc(abstract)
            try:
                txt = e.text([g])
            except Unsupported:
                e = BVEnc(abstract)
                txt = e.text([g])
            s = self.z3.Solver()
            s.set('timeout', self.tmo)
            s.from_string(txt)
            c = s.check()
            r = False if c == self.z3.unsat else (True if c == self.z3.sat else None)
        except Unsupported:
            r = None
        self.time += time.time() - t0
        self.cache[key] = r
        return r
