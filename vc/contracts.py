"""Callee contracts: a caller is checked against the callee's contract; the contract itself is an Op proved in the same run."""
import re
from . import term as t, exec as X
from .term import TRUE, and_, not_
from .ir import IntTy

REG = {}


class Contract:
    """name: key; pattern: start of the demangled callee name with %T for the template argument list of the instance;
    args: one letter per parameter, v = fixed_num by value, r = fixed_num by reference (this included), i = integer;
    op: the entry (wrapper) that proves it; fn: result as a function of the raw arguments (else op.post is assumed of a fresh result);
    throws: (condition, exception type) raised instead of returning"""

    def __init__(self, name, pattern, args, op, fn=None, pre=None, throws=None, when=None, rng=None, facts=None):
        self.facts = facts    # (executor, instance, result, arguments) -> what else the proof of the contract establishes (ghosts)
        self.rng = rng or (lambda c: (c.min, c.max))
        self.name, self.pattern, self.args, self.op, self.fn, self.pre, self.throws, self.when = name, pattern, args, op, fn, pre, throws, when
        REG[name] = self

    def find(self, mod, inst):
        """mangled names of the callee in this module"""
        tl = inst.demangled()[len('eirin::fixed_num'):]
        pat = self.pattern.replace('%D', tl[1:-1].split(',')[0]).replace('%T', tl).replace('%A', tl[1:-1]).replace('%N', inst.demangled())
        out = []
        for m in mod.funcs:
            d = X.demangle(m)
            if d.startswith(pat): out.append(m)
        return [] if pat.endswith(', ') and len(out) > 1 else out   # further template arguments: only when they are always the same

    def handler(self, inst):
        n = inst.n

        def h(ex, st, args, ins, name):
            if len(args) != len(self.args): return None
            vals = []
            for k, a in zip(self.args, args):
                v = ex.load(st, IntTy(n), a, ins) if k == 'r' else a
                if not isinstance(v, t.T): return None
                if not inst.sg and k in 'vr': v = t.wu(n, v)
                vals.append(v)
            pre = self.pre or self.op.pre
            if pre: ex.ob('requires of %s' % self.name, st, pre(inst, *vals), ins)
            thr = []
            if self.throws:
                c, ty = self.throws(inst, *vals)
                s2 = st.copy()
                s2.g = and_(st.g, c)
                st.g = and_(st.g, not_(c))
                if s2.g is not t.FALSE: thr = [(s2, ty)]
                raise NotImplementedError
            if self.fn: r = self.fn(inst, *vals)
            else:
                r = t.fresh('r_' + self.name, *self.rng(inst))
                ps = self.op.post(inst, r, *vals)
                if isinstance(ps, t.T): ps = [('', ps)]
                for _, p in ps: ex.lemmas.append(t.implies(pre(inst, *vals) if pre else TRUE, p))
            if self.facts: ex.lemmas += self.facts(ex, inst, r, *vals)
            if not inst.sg: r = t.ws(n, r)
            return [(st, r)], []
        return h
