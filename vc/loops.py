"""Loop annotations: invariants on the loops of the real code, attached by function and by the names of its locals."""
from . import term as t, exec as X
from .term import TRUE, FALSE, and_
from .ir import IntTy, Unsupported, PTR


class Mismatch(Unsupported):
    """the loop is not the one the annotation was written for; the entry falls back to its stand-in"""


class Point:
    """what an annotation sees at a loop head: c instance, I inputs, n loop ordinal, it iteration, call ordinal of this loop's activation,
    V locals, G ghosts, prev the point before (its values are the arbitrary ones assumed there), log earlier points by (call, it)"""

    def __init__(p, **k): p.__dict__.update(k)

    def __getattr__(p, x):
        if x in p.__dict__.get('V', ()): return p.V[x]
        if x in p.__dict__.get('G', ()): return p.G[x]
        raise AttributeError(x)


    def use(p, name, fn, *args):
        """instance of the lemma fn, which becomes an obligation of its own over arbitrary integers; args: (term, lo, hi) or plain constants"""
        done = p.vc.__dict__.setdefault('lemmas_used', {})
        gen = [t.fresh('any', a[1], a[2]) if isinstance(a, tuple) else a for a in args]
        key = (name,) + tuple((a[1], a[2]) if isinstance(a, tuple) else a for a in args)
        if key not in done:
            done[key] = fn(*gen)
            p.vc.ex.obs.append(X.Ob('lemma: ' + name, 'specs', done[key], '', (TRUE, done[key])))
        return t.implies(and_(*[t.between(a[1], a[0], a[2]) for a in args if isinstance(a, tuple)]), fn(*[a[0] if isinstance(a, tuple) else a for a in args]))


class Cut:
    """Invariant checked and assumed at the head of every iteration of an unrolled loop: the listed locals are forgotten
    there and replaced by arbitrary values in their stated ranges that satisfy the invariant.
    vars: name -> (bits, signed, lo, hi) or a function of the instance giving that; reads: name -> (bits, signed), kept;
    keys: the reads that must be concrete (a symbolic one is split into its values);
    inv(point) -> [(label, term)] or None; mult(point) -> name -> k: multiples of k;
    ghosts: name -> (lo, hi); lemmas(point) -> facts about the ghosts of this point (mathematics, not code);
    defs: name -> (bits, signed, fn(instance, inputs, earlier defs) -> term, lo, hi): locals that keep a value known on entry, checked there and
    then named by a constant of that range equal to the term (by the term itself when lo is None);
    body(point) -> facts assumed in the iteration that starts here: instances of lemmas from point.use, each proved once in general"""

    def __init__(self, fn, vars, reads, inv, mult=None, ghosts=None, lemmas=None, keys=(), join=None, at=None, body=None, defs=None):
        self.body, self.defs = body, defs
        self.fn, self.vars, self.reads, self.inv, self.mult, self.ghosts, self.lemmas = fn, vars, reads, inv, mult, ghosts, lemmas
        self.keys, self.join, self.at_ = keys, join, at

    def decl(self, vc, what):
        d = getattr(self, what)
        return (d(vc.inst) if callable(d) else d) or {}

    def at(self, vc, frame, h):
        if self.fn not in X.demangle(frame.f.name): return False
        order = list(frame.f.blocks)
        heads = sorted(frame.cfg.loops, key=order.index)   # in source order
        n = heads.index(h)
        if self.at_ is not None and n not in self.at_: return False
        names = set('%' + x for d in ('vars', 'reads') for x in self.decl(vc, d) if x[0] != '@')
        have = set(x.res for ins in frame.f.blocks.values() for x in ins if x.op == 'alloca')
        if not names <= have: raise Mismatch('loop in %s lacks the locals %s' % (X.demangle(frame.f.name), ', '.join(sorted(names - have))))
        if any(x.op == 'phi' for x in frame.f.blocks[h]): raise Mismatch('loop head with phis')
        self.n = n
        return True

    def get(self, ex, s, nm, d):
        v = ex.load(s, IntTy(d[0]), s.env['%' + nm], None, quiet=True)
        if not isinstance(v, t.T): raise Mismatch('local %s is not an integer here' % nm)
        return v if d[1] else t.wu(d[0], v)

    def run(self, vc, frame, h, inc):
        ex = frame.ex
        R = self.decl(vc, 'reads')
        pend = {}

        def add(p, s):
            vals = [()]
            alts = [(s, ())]
            for nm in self.keys:
                nxt = []
                for s1, key in alts:
                    v = self.get(ex, s1, nm, R[nm])
                    if v.op == 'c':
                        nxt.append((s1, key + (v.val,)))
                        continue
                    if v.lo is None or v.hi is None or v.hi - v.lo > 300: raise Mismatch('local %s takes too many values' % nm)
                    for k in range(v.lo, v.hi + 1):
                        g = and_(s1.g, t.eq(v, k))
                        if g is FALSE: continue
                        s2 = s1.copy()
                        s2.g = g
                        ex.store(s2, IntTy(R[nm][0]), s2.env['%' + nm], t.ws(R[nm][0], t.const(k)))
                        nxt.append((s2, key + (k,)))
                alts = nxt
            for s1, key in alts: pend.setdefault(key, []).append((p, s1))
        D, facts = {}, []
        for nm, (b, sg, fn, lo, hi) in self.decl(vc, 'defs').items():
            d = fn(vc.inst, vc.invars, {k: x[0] for k, x in D.items()})
            D[nm] = (d if lo is None else t.fresh(nm, lo, hi), d)
            if lo is not None: facts.append(t.eq(D[nm][0], d))
        def known(p, s):
            s = s.copy()
            for nm, (b, sg, fn, lo, hi) in self.decl(vc, 'defs').items():
                v, d = self.get(ex, s, nm, (b, sg)), D[nm][1]
                if lo is not None: ex.ob('loop invariant: %s in range' % nm, s, t.between(lo, d, hi), frame.f.blocks[h][0])
                s1 = s.copy()
                s1.g = and_(s.g, *facts)
                ex.ob('loop invariant: %s known' % nm, s1, t.eq(v, d), frame.f.blocks[h][0])
                ex.store(s, IntTy(b), s.env['%' + nm], t.ws(b, D[nm][0]))
            s.g = and_(s.g, *facts)
            return s
        for p, s in inc: add(p, known(p, s))
        feas, ex.feasible = ex.feasible, None    # infeasible branches only cost obligations
        self.log = vc.__dict__.setdefault('cuts', {})
        call = vc.__dict__.setdefault('calls', {}).setdefault((self, self.n), 0)
        vc.calls[(self, self.n)] += 1
        try:
            out, k = [], 0
            if self.join:
                prev = None
                while pend:
                    key = self.join(pend)
                    nxt, exits, prev = self.once(vc, frame, h, pend.pop(key), k, prev, call)
                    out += exits
                    for p, s in nxt: add(p, s)
                    k += 1
                    if k > 400: raise Mismatch('loop not finished after %d iterations' % k)
                return out
            groups, pend0 = list(pend.values()), pend
            for g in groups:
                cur, k, prev = g, 0, None
                while cur:
                    nxt, exits, prev = self.once(vc, frame, h, cur, k, prev, call)
                    out += exits
                    cur = nxt
                    k += 1
                    if k > 400: raise Mismatch('loop not finished after %d iterations' % k)
            return out
        finally: ex.feasible = feas

    def once(self, vc, frame, h, cur, k, prev, call):
        ex = frame.ex
        vs, rs, gs = self.decl(vc, 'vars'), self.decl(vc, 'reads'), self.decl(vc, 'ghosts')

        def point(V, G, R): return Point(c=vc.inst, I=vc.invars, n=self.n, it=k, call=call, V={**R, **V}, G=G, prev=prev, log=self.log, vc=vc)
        for p, s in cur:
            R = {nm: self.get(ex, s, nm, d) for nm, d in rs.items()}
            V = {nm: self.get(ex, s, nm, d) for nm, d in vs.items()}
            G = {nm: t.fresh('ghost_' + nm, lo, hi) for nm, (lo, hi) in gs.items()}
            pt = point(V, G, R)
            inv = self.inv(pt)
            if inv is None: raise Mismatch('no invariant for loop %d, iteration %d' % (self.n, k))
            s1 = s.copy()
            if self.lemmas: s1.g = and_(s1.g, *self.lemmas(pt))
            for nm, m in (self.mult(pt) if self.mult else {}).items(): inv = [('%s multiple of %d' % (nm, m), t.eq(t.fmod(V[nm], m), 0))] + inv
            for nm, d in vs.items(): inv = [('%s in range' % nm, t.between(d[2], V[nm], d[3]))] + inv
            for lab, c in inv: ex.ob('loop invariant: ' + lab, s1, c, frame.f.blocks[h][0])
        s = X.merge([s for _, s in cur])
        s = s.copy()
        R = {nm: self.get(ex, s, nm, d) for nm, d in rs.items()}
        mul = self.mult(pt) if self.mult else {}
        W = {}
        for nm, d in vs.items():
            m = mul.get(nm, 1)
            W[nm] = t.scale(t.fresh(nm, -(-d[2] // m), d[3] // m), m)
            ex.store(s, IntTy(d[0]), s.env['%' + nm], t.ws(d[0], W[nm]))
        G = {nm: t.fresh('ghost_' + nm, lo, hi) for nm, (lo, hi) in gs.items()}
        pt = point(W, G, R)
        s.g = and_(s.g, *[c for _, c in self.inv(pt)])
        if self.body: s.g = and_(s.g, *self.body(pt))
        self.log[(self.n, call, k)] = pt
        nxt, exits = frame.region(h, [(cur[0][0], s)])
        return [(p, s) for p, s in nxt if s.g is not FALSE], exits, pt


def same(a, b): return a is b or isinstance(a, X.Ptr) and isinstance(b, X.Ptr) and a.o is b.o and a.off is b.off


class Each(Cut):
    """Inductive invariant of a loop of any number of iterations: checked on entry and at every back edge, assumed of arbitrary values of the listed
    locals at the head of one arbitrary iteration.  keys: reads with few possible values, each (concrete) value being a head state of its own.
    A pointer local is listed as ('ptr', lo, hi), its value here being the offset.  Other memory the body writes is forgotten (reading it before it is
    written again is an obligation that cannot be discharged)."""

    def getp(self, ex, s, nm, d):
        if nm[0] == '@': return ex.load(s, IntTy(d[0]), self.cells[nm], None, quiet=True)
        if d[0] != 'ptr': return self.get(ex, s, nm, d)
        v = ex.load(s, PTR, s.env['%' + nm], None, quiet=True)
        if not isinstance(v, X.Ptr) or v.o is None: raise Mismatch('local %s is not one pointer here' % nm)
        return v.off

    def run(self, vc, frame, h, inc):
        ex = frame.ex
        self.cells = getattr(vc, 'cells', {})
        if not ex.split: raise Mismatch('inductive invariants need split states')
        vs, rs = self.decl(vc, 'vars'), self.decl(vc, 'reads')
        feas, ex.feasible = ex.feasible, None
        out = []
        try:
            if self.join and len(inc) > 1: return self.one(vc, frame, h, inc[0][0], self.common([s for _, s in inc], ex.forgotten), vs, rs, [s for _, s in inc])
            for p, s0 in inc: out += self.one(vc, frame, h, p, s0, vs, rs, [s0])
            return out
        finally: ex.feasible = feas

    def common(self, ss, forgotten):
        """what all the states that reach the loop agree on; how each got there is forgotten"""
        n = ss[0].copy()
        n.g = TRUE
        n.mem = {}
        for o in ss[0].mem:
            cs = [s.mem.get(o, {}) for s in ss]
            n.mem[o] = {k: c for k, c in cs[0].items() if all(x is c0 or k in x and x[k][0] == c[0] and x[k][1] is c[1] and x[k][2] is c[2] for x in cs[1:] for c0 in [cs[0]])}
            if any(set(x) != set(n.mem[o]) for x in cs): forgotten.add(o)
        n.env = {k: v for k, v in ss[0].env.items() if all(k in s.env and same(s.env[k], v) for s in ss[1:])}
        return n

    def one(self, vc, frame, h, src, s0, vs, rs, starts):
        ex = frame.ex
        keep = len(ex.obs)
        forget = set()
        mine = set()
        for nm in list(vs) + list(self.keys):
            for q, _ in ex.leaves(self.cells[nm] if nm[0] == '@' else s0.env['%' + nm]): mine.add(q.o.id)

        def point(s, V, key): return Point(c=vc.inst, I=vc.invars, n=self.n, vc=vc, entry=E, V={**{nm: self.getp(ex, s, nm, d) for nm, d in rs.items()}, **V}, G={}, S=vc.op.strings(vc) if callable(vc.op.strings) else None)

        def key(s):
            k = ()
            for nm in self.keys:
                v = self.getp(ex, s, nm, rs[nm])
                if v.op != 'c': raise Mismatch('local %s is not a known number here' % nm)
                k += (v.val,)
            return k

        def check(s, what):
            V = {nm: self.getp(ex, s, nm, d) for nm, d in vs.items()}
            pt = point(s, V, key(s))
            s1 = s
            for nm, d in vs.items(): ex.ob('loop invariant (%s): %s in range' % (what, nm), s1, t.between(d[-2], V[nm], d[-1]), frame.f.blocks[h][0])
            for lab, c in self.inv(pt): ex.ob('loop invariant (%s): %s' % (what, lab), s1, c, frame.f.blocks[h][0])
        E = None
        E = Point(V={nm: self.getp(ex, starts[0], nm, d) for nm, d in vs.items()}, G={})
        while True:
            del ex.obs[keep:]
            for s1 in starts: check(s1, 'on entry')
            todo, seen, exits, grown = [key(s1) for s1 in starts], set(), [], False
            while todo:
                k = todo.pop(0)
                if k in seen: continue
                seen.add(k)
                if len(seen) > 120: raise Mismatch('too many head states')
                s = s0.copy()
                for o in forget: s.mem[o] = {}
                for nm, v in zip(self.keys, k): ex.store(s, IntTy(rs[nm][0]), self.cells[nm] if nm[0] == '@' else s.env['%' + nm], t.ws(rs[nm][0], t.const(v)))
                W = {}
                for nm, d in vs.items():
                    W[nm] = t.fresh(nm, d[-2], d[-1])
                    q = self.cells[nm] if nm[0] == '@' else s.env['%' + nm]
                    if d[0] == 'ptr': ex.store(s, PTR, q, X.Ptr(ex.load(s0, PTR, q, None, quiet=True).o, W[nm]))
                    else: ex.store(s, IntTy(d[0]), q, t.ws(d[0], W[nm]))
                pt = point(s, W, k)
                s.g = and_(s.g, *[c for _, c in self.inv(pt)])
                if self.body: s.g = and_(s.g, *self.body(pt))
                nxt, ex1 = frame.region(h, [(src, s.copy())])
                exits += ex1
                for _, s1 in nxt:
                    if s1.g is FALSE: continue
                    for o, cells in s.mem.items():
                        if o in mine or o in forget: continue
                        now = s1.mem.get(o)
                        if now is cells or now is not None and set(now) == set(cells) and all(now[x][1] is cells[x][1] and now[x][0] == cells[x][0] for x in cells): continue
                        forget.add(o)
                        ex.forgotten.add(o)
                        grown = True
                    check(s1, 'kept')
                    todo.append(key(s1))
            if not grown: return exits


class Facts:
    """goals about ghosts: label -> fn(vc, result) -> term, linear in integers once the ghosts are named"""

    def __init__(self, goals): self.goals = goals

    def applies(self, vc): return False     # not for the Taylor models

    def prove(self, vc, g):
        from . import smt
        q = smt.Quick(20000)
        for grd, m in vc.results:
            c = self.goals[g.label[len('post: '):]](vc, m[vc.outvars['ret'].id])
            if c is None: return False
            hs = [vc.pre, grd] + vc.ex.lemmas
            if q.feasible(and_(*hs, t.not_(c)), ('mul', 'tdiv', 'trem')) is not False and q.feasible(and_(*hs, t.not_(c))) is not False: return False
        g.by = 'z3 in process'
        return True


def attach(vc, ex):
    anns = vc.op.loops
    if not anns: return

    def handler(frame, h, inc):
        for a in anns:
            if a.at(vc, frame, h): return a.run(vc, frame, h, inc)
        return None
    ex.loop_handler = handler
    if ex.feasible:
        full, iv = ex.feasible, set(v.id for v in vc.invars.values())

        def feas(g):
            """pruning on the inputs alone: conditions on values forgotten at a cut are left out"""
            hs = list(g.args) if g.op == 'and' else [g]
            return full(and_(*[h for h in hs if all(v.id in iv for v in t.vars_of([h]))]))
        ex.feasible = feas
