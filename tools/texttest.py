#!/usr/bin/env python3
"""Evaluates the facts assumed about the ghosts of specs/text.py on concrete random texts (not used by the checks).  usage: python3-vt tools/texttest.py [texts]"""
import os, random, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vc import lib, term as t
from specs import text
R = random.Random(7)
n_facts = 0


def num(x): return int(x) if x.isdigit() else 0


for _ in range(int(sys.argv[1]) if len(sys.argv) > 1 else 3000):
    w = ''.join(R.choice('0123456789' if R.random() < .93 else '-.x') for _ in range(R.randint(0, 30)))
    if w and R.random() < .6: w = w[:R.randint(0, min(6, len(w)))] + '.' + w
    if R.random() < .4: w = '-' + w
    n = len(w)
    for c in (lib.INSTS['f32'], lib.INSTS['f64'], lib.INSTS['f16_8']):
        s = text.Str(c, t.const(n))
        b = 1 if w[:1] == '-' else 0
        E = b
        while E < n and w[E].isdigit(): E += 1
        dot = E < n and w[E] == '.'
        E2 = E + 1
        while E2 < n and w[E2].isdigit(): E2 += 1
        fr = w[E + 1:E2] if dot else ''
        env = {'ghost_E': E, 'ghost_E2': E2, 'ghost_Phi': int(fr) * c.one // 10 ** len(fr) if fr else 0}
        fn = {'chr': lambda i: ord(w[i]) if 0 <= i < n else R.randint(-128, 127), 'D': lambda i: num(w[b:i]), 'N': lambda i: num(w[E + 1:i])}

        def ok(x):
            global n_facts
            n_facts += 1
            if not t.evaluate(x, env, fn): sys.exit('false: %s for %r %s' % (t.show(x), w, env))
        for x in s.facts(): ok(x)
        for p in range(n + 2):
            for x in s.at_int(t.const(p)): ok(x)
            for j in range(0, 36):
                for x in s.at_frac(t.const(p), j): ok(x)
        if t.evaluate(s.wf, env, fn) != (E == n or dot and E2 == n): sys.exit('wf: %r' % w)
        if n:       # the text up to the first occurrence of its last character
            u = text.Until(c, t.const(n - 1))
            m = w.index(w[-1])
            x = w[:m]
            b, E = x[:1] == '-', 0
            E = int(b)
            while E < m and x[E].isdigit(): E += 1
            E2 = E + 1
            while E2 < m and x[E2].isdigit(): E2 += 1
            fr2 = x[E + 1:E2]
            env2 = {'ghost_E': E, 'ghost_E2': E2, 'ghost_m': m, 'ghost_Phi': num(fr2) * c.one // 10 ** len(fr2) if fr2 else 0}
            fn2 = {'chr': fn['chr'], 'D': lambda i, b=int(b): num(x[b:i]), 'N': lambda i, E=E: num(x[E + 1:i])}
            for y in u.facts() + [z for p in range(m + 2) for z in u.at_int(t.const(p))] + [z for p in range(m + 2) for j in range(36) for z in u.at_frac(t.const(p), j)]:
                n_facts += 1
                if not t.evaluate(y, env2, fn2): sys.exit('false: %s for %r %s' % (t.show(y), x, env2))
            b = 1 if w[:1] == '-' else 0
            E = env['ghost_E']
        v = (int(w[b:E] or 0) * 10 ** len(fr) + int(fr or 0)) * c.one // 10 ** len(fr)
        if t.evaluate(s.value, env, fn) != v: sys.exit('value: %r' % w)
print('ok', n_facts)
