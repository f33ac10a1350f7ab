#!/usr/bin/env python3
"""Self-test of the executor (not used by the checks): the result terms it derives from clang's IR against the compiled code on random inputs.
usage: python3-vt tools/difftest.py Cxx [tests per entry] [seed]"""
import sys, os, random, importlib, ctypes, signal
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(50000)
from vc import lib, smt, term as t, loops
from vc.lib import TU, EntryVC, BuildError
prop = sys.argv[1]
N = int(sys.argv[2]) if len(sys.argv) > 2 else 300
R = random.Random(int(sys.argv[3]) if len(sys.argv) > 3 else 1)
mod = importlib.import_module('specs.' + prop)
INTS = sorted(set(mod.INSTS)) if hasattr(mod, 'INSTS') else []
tot = [0, 0, 0, 0]


def ct(ty): return {8: (ctypes.c_int8, ctypes.c_uint8), 16: (ctypes.c_int16, ctypes.c_uint16), 32: (ctypes.c_int32, ctypes.c_uint32), 64: (ctypes.c_int64, ctypes.c_uint64)}[lib.bits(ty)][0 if lib.signed(ty) else 1]


def pick(lo, hi, one):
    k = R.random()
    if k < .15: return R.choice([lo, hi, lo + 1, hi - 1, max(lo, 0), max(lo, -1), max(lo, min(hi, 1))])
    if k < .5:
        b = R.randint(0, max(hi.bit_length(), 1))
        v = R.randint(0, 1 << b)
        return max(lo, min(hi, v if lo == 0 or R.random() < .5 else -v))
    if k < .7: return max(lo, min(hi, R.randint(-40, 40) * one + R.randint(-2, 2)))
    return R.randint(lo, hi)


for name in INTS or [None]:
    I = lib.INSTS[name] if name else None
    ops = [o for o in mod.OPS if not o.text and (I is not None) == o.perinst and (o.when is None or o.when(I)) and not o.loops and all(lib.bits(o.sub(ty, I)) <= 64 for _, ty in o.args + o.outs + ([('ret', o.ret)] if o.ret else []))]
    if not ops: continue
    tu = TU([(I, o) for o in ops], head=getattr(mod, 'HEAD', None) or lib.HEAD, flags=getattr(mod, 'FLAGS', ()))
    cpp = os.path.join(lib.work(), 'd.cpp'); so = os.path.join(lib.work(), 'd_%s.so' % name)
    open(cpp, 'w').write(tu.src)
    r = lib.run([lib.CLANG, '-std=c++20', '-O1', '-fwrapv', '-fPIC', '-shared', '-w', '-I' + lib.HARN] + lib.INC + list(tu.flags) + [cpp, '-o', so])
    if r.returncode: print(r.stderr[:500]); sys.exit(1)
    dll = ctypes.CDLL(so)
    for op in ops:
        vc = EntryVC(op, I).spec()
        signal.alarm(0)
        def tick(*a): raise TimeoutError
        signal.signal(signal.SIGALRM, tick)
        signal.alarm(60)
        try: vc.generate(tu.mod, {}, smt.Quick())
        except (Exception,) as e:
            print(' skip', vc.sym, type(e).__name__, str(e)[:80]); tot[2] += 1
            signal.alarm(0); continue
        signal.alarm(0)
        fn = getattr(dll, vc.sym)
        fn.restype = ct(op.sub(op.ret, I)) if op.ret else None
        ats = [ct(op.sub(ty, I)) for _, ty in op.args]
        fn.argtypes = ats + [ctypes.c_void_p] * len(op.outs)
        one = I.one if I else 1
        tot[0] += 1
        done = 0
        for _ in range(N * 5):
            if done >= N: break
            env = {v.val[0]: pick(v.lo, v.hi, one) for v in vc.invars.values()}
            if R.random() < .1: env = {k: max(vc.invars[k].lo, min(vc.invars[k].hi, list(env.values())[0])) for k in env}
            try:
                if not t.evaluate(vc.pre, env): continue
                rs = [(g, m) for g, m in vc.results if t.evaluate(g, env)]
                saf = all(t.evaluate(g.term, env) for g in vc.goals if g.kind == 'safety')
            except (KeyError, TypeError): break
            if not saf: continue          # undefined behaviour or an escaping exception: nothing to compare
            if len(rs) != 1: print('RESULTS', vc.sym, env, len(rs)); tot[3] += 1; break
            m = rs[0][1]
            outs = [ct(op.sub(ty, I))() for _, ty in op.outs]
            for o in outs: ctypes.memset(ctypes.byref(o), 0x55, ctypes.sizeof(o))
            ret = fn(*([env[n] for n, _ in op.args] + [ctypes.byref(o) for o in outs]))
            got = {n: o.value for (n, _), o in zip(op.outs, outs)}
            if op.ret: got['ret'] = int(ret)
            bad = False
            for k, ov in vc.outvars.items():
                x = m.get(ov.id)
                if x is None or x is ov: continue
                try: w = t.evaluate(x, env)
                except (KeyError, TypeError): continue
                w = int(w)
                if w != got[k]: print('DIFFERS', vc.sym, env, k, 'term', w, 'real', got[k]); bad = True
            done += 1
            if bad: tot[3] += 1; break
        tot[1] += done
print(prop, 'entries %d runs %d skipped %d differing %d' % tuple(tot))
sys.exit(1 if tot[3] else 0)
