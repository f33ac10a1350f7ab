"""Check driver: runs the jobs of one property, decides the verdict, writes evidence and replay files."""
import importlib
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback
from . import contracts, lib, smt, exec as X, term as t, rt
from .ir import Unsupported
from .lib import EntryVC, TU, INSTS, native_search, native_exhaust, replay_source, BuildError

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Timeout(Exception):
    pass


def limit(sec):
    def h(*a): raise Timeout()
    signal.signal(signal.SIGALRM, h)
    signal.alarm(int(sec))


class Rec(dict):
    """record of one entry: obligations and how each was decided"""


def vacuity(vc):
    """a concrete input satisfying the precondition (evaluated), or solver-found"""
    if not vc.invars: return True
    r = smt.solve([vc.pre], 5)
    return r.status == 'sat'


def op_record(tu, op, inst, quick, tmo, wall, seed, tier, contracts=None):
    vc = EntryVC(op, inst).spec()
    t0 = time.time()
    rec = {'entry': vc.sym, 'goals': [], 'status': None, 'violation': None, 'bounded': None, 'notes': [], 'pre_sat': None}
    und = None
    rt.USED.clear()
    try:
        limit(min(wall, op.wall) if op.wall else wall)
        vc.generate(tu.mod, contracts or {}, quick)
        rec['gen_s'] = time.time() - t0
        vc.prove_all(tmo)
    except Unsupported as e: und = 'outside the verifier: %s' % e
    except Timeout: und = 'time limit'
    except BuildError as e: raise
    except RecursionError: und = 'recursion limit'
    except Exception as e: und = 'verifier error: %s' % (''.join(traceback.format_exception_only(type(e), e)).strip()[:200])
    finally:
        signal.alarm(0)
    rec['external'] = dict(rt.USED)
    fns = sorted(set(X.demangle(f) for f in (vc.ex.used if vc.ex else ())))
    rec['functions'] = [f for f in fns if 'eirin::' in f]
    for g in vc.goals:
        rec['goals'].append({'label': g.label, 'where': g.where, 'fn': g.fn, 'status': g.status or 'open', 'by': g.by, 'time': round(g.time, 3)})
    bad = [g for g in vc.goals if g.status != 'proved']
    rec['models'] = [str(g.model) for g in bad if g.model][:3]
    if und is None and vc.goals and not bad:
        rec['status'] = 'proved'
        rec['pre_sat'] = vacuity(vc)
        if not rec['pre_sat']: rec['notes'].append('precondition not shown satisfiable')
        if tier != 'thorough' or op.text:
            rec['wall'] = time.time() - t0
            return rec
    else:
        rec['status'] = 'undischarged'
        if und is None and not vc.goals: und = 'no obligations'
        rec['notes'].append(und or 'open: ' + '; '.join('%s [%s] @ %s' % (g.label, g.status, g.where) for g in bad[:4]))
    if op.text:         # inputs are texts of any length; the harness of the property searches them
        ref = ['%s [%s] @ %s in %s' % (g.label, g.status, g.where, g.fn) for g in bad if g.status == 'refuted']
        if ref: rec['violation'] = {'inputs': None, 'failed': ref[:8], 'obligation': ref[:8], 'solver': rec['models'], 'source': ''}
        rec['wall'] = time.time() - t0
        return rec
    # try to refute natively (verifier models first); also the bounded stand-in when undischarged
    models = [g.model for g in bad if g.model]
    if getattr(vc, 'boxmodel', None): models.append(vc.boxmodel)
    f, info = native_search(tu, vc, models, budget=op.budget or (2000000 if tier == 'thorough' else 400000), seed=seed)
    rec['bounded'] = info
    if f is None and rec['status'] != 'proved' and len(op.args) == 1 and op.exhaust:
        r = lib.rng(op.sub(op.args[0][1], inst))
        if callable(op.exhaust): r = op.exhaust(inst)
        if r and (tier == 'thorough' or inst is None or r[1] - r[0] < 1 << 24 or inst.name in lib.EXHAUST_QUICK):
            f, info = native_exhaust(tu, vc, r[0], r[1], time_s=2400 if tier == 'thorough' else 240)
            rec['bounded'] = info
            if info.startswith('complete'): rec['status'] = 'enumerated'
    if f:
        rec['status'] = 'refuted'
        g = [g for g in bad if g.model] or bad
        rec['violation'] = {'inputs': {k: str(v) for k, v in f['inputs'].items()}, 'failed': f['failed'],
                            'obligation': ['%s @ %s in %s' % (x.label, x.where, x.fn) for x in bad[:6]],
                            'solver': [str(x.model) for x in g[:2]], 'source': replay_source(tu, vc, f['inputs'])}
    rec['wall'] = time.time() - t0
    return rec


def run_ops(task):
    modname, inst, names, tmo, wall, seed, tier, head, flags = task
    mod = importlib.import_module('specs.' + modname)
    I = INSTS[inst] if inst else None
    ops = [o for o in mod.OPS if o.name in names and (I is not None) == o.perinst and (o.when is None or o.when(I))]
    out = []
    need, order = set(), []

    def want(n):
        if n in need: return
        need.add(n)
        for m in contracts.REG[n].op.uses: want(m)
        order.append(n)
    if I is not None:
        for o in ops:
            for n in o.uses: want(n)
    provs = [contracts.REG[n] for n in order if contracts.REG[n].when is None or contracts.REG[n].when(I)]
    try:
        tu = TU([(I, o) for o in ops] + [(I, c.op) for c in provs if c.op not in ops], head=head or lib.HEAD, flags=flags)
        tu.mod
    except BuildError as e:
        return [{'entry': '%s/%s' % (modname, inst), 'status': 'error', 'notes': ['build: ' + str(e)[:1500]], 'goals': [], 'violation': None, 'functions': [], 'external': {}}]
    q = smt.Quick()
    have = {}
    done = {}

    def cmap(o):
        m = {}
        for n in o.uses:
            if n in have: m.update(have[n])
        return m
    for c in provs:
        r = op_record(tu, c.op, I, q, tmo, wall, seed, tier, cmap(c.op))
        r['callee'] = c.name
        done[c.op.name] = r
        if r['status'] == 'proved' or r['status'] == 'enumerated' and not c.facts:
            if r['status'] == 'enumerated': r['notes'].append('callee contract established by complete enumeration; callers are proved against it')
            h = c.handler(I)
            have[c.name] = {m: h for m in c.find(tu.mod, I)}
        else: r['notes'].append('callee contract not proved: callers inline the body')
        out.append(r)
    for o in ops:
        if o.name in done: continue
        out.append(op_record(tu, o, I, q, tmo, wall, seed, tier, cmap(o)))
    return out


def call_custom(a):
    modname, fname, args, tier, seed = a
    mod = importlib.import_module('specs.' + modname)
    try:
        return getattr(mod, fname)(*args, tier=tier, seed=seed)
    except BuildError as e:
        return [{'entry': '%s/%s' % (modname, fname), 'status': 'error', 'notes': ['build: ' + str(e)[:1500]], 'goals': [], 'violation': None, 'functions': [], 'external': {}}]
    except Exception as e:
        return [{'entry': '%s/%s%r' % (modname, fname, args), 'status': 'undischarged', 'notes': ['verifier error: ' + traceback.format_exc()[-800:]], 'goals': [],
                 'violation': None, 'functions': [], 'external': {}}]


def known_findings(prop):
    p = os.path.join(VERIF, 'known_findings.jsonl')
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('{'):
                d = json.loads(l)
                if d.get('property') == prop and d.get('state') == 'open': out.append(d)
    return out


def baseline(prop):
    """entries whose every obligation is discharged on the delivered tree (committed, never written by a check)"""
    p = os.path.join(VERIF, 'baseline', prop + '.json')
    return set(json.load(open(p))) if os.path.exists(p) else set()


def write_baseline(prop, recs):
    os.makedirs(os.path.join(VERIF, 'baseline'), exist_ok=True)
    json.dump(sorted(set(r['entry'] for r in recs if r['status'] == 'proved')), open(os.path.join(VERIF, 'baseline', prop + '.json'), 'w'), indent=0)


def main(prop, tier, seed):
    t0 = time.time()
    sys.path.insert(0, VERIF)
    mod = importlib.import_module('specs.' + prop)
    tasks = []
    ops = getattr(mod, 'OPS', [])
    tmo = getattr(mod, 'TMO', 20) * (4 if tier == 'thorough' else 1)
    wall = getattr(mod, 'WALL', 120) * (3 if tier == 'thorough' else 1)
    groups = getattr(mod, 'GROUP', 4)
    jobs = []
    insts = list(mod.INSTS) + (list(getattr(mod, 'INSTS_THOROUGH', [])) if tier == 'thorough' else [])
    for i in insts:
        sel = [o for o in ops if o.perinst and (o.when is None or o.when(INSTS[i]))]
        for k in range(0, len(sel), groups):
            jobs.append((run_ops, (prop, i, [o.name for o in sel[k:k + groups]], tmo, wall, seed, tier, getattr(mod, 'HEAD', None), getattr(mod, 'FLAGS', ()))))
    sel = [o for o in ops if not o.perinst]
    for k in range(0, len(sel), groups):
        jobs.append((run_ops, (prop, None, [o.name for o in sel[k:k + groups]], tmo, wall, seed, tier, getattr(mod, 'HEAD', None), getattr(mod, 'FLAGS', ()))))
    for c in (mod.custom(tier) if hasattr(mod, 'custom') else []):
        jobs.insert(0, (call_custom, (prop, c[0], c[1:], tier, seed)))
    recs = []
    ctx = mp.get_context('fork')
    with ctx.Pool(min(smt.NCPU, max(1, len(jobs)))) as pool:
        rs = [pool.apply_async(f, (a,)) for f, a in jobs]
        for r in rs: recs += r.get()
    if os.environ.get('VERIF_WRITE_BASELINE') == '1': write_baseline(prop, recs)
    return finish(prop, tier, seed, mod, recs, t0)


def finish(prop, tier, seed, mod, recs, t0):
    known = known_findings(prop)
    viols, hits = [], []
    base = baseline(prop)
    for r in recs:
        # an obligation that is discharged on the delivered tree and is not any more fails, failing input or not
        if not r.get('violation') and r['entry'] in base and r['status'] not in ('proved', 'enumerated', 'error'):
            bad = ['%s [%s] @ %s in %s' % (g['label'], g['status'], g['where'], g['fn']) for g in r['goals'] if g['status'] != 'proved'][:8]
            r['violation'] = {'inputs': None, 'failed': bad or r['notes'], 'obligation': bad or r['notes'], 'solver': r.get('models'), 'source': ''}
    for r in recs:
        if r.get('violation'):
            k = [d for d in known if d['entry'] == r['entry'] and (d.get('inputs') is None or d['inputs'] == r['violation']['inputs'])]
            (hits if k else viols).append((r, k))
    errs = [r for r in recs if r['status'] == 'error']
    goals = [(r, g) for r in recs for g in r['goals']]
    disch = [g for r, g in goals if g['status'] == 'proved']
    by = {}
    st = 0.0
    for g in disch: by[g['by'] or '?'] = by.get(g['by'] or '?', 0) + 1
    for r, g in goals: st += g['time']
    fns = sorted(set(f for r in recs for f in r.get('functions', [])))
    ext = sorted(set(k for r in recs for k in r.get('external', {})))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    nrep = 0
    lines = []
    for r, _ in viols:
        p = os.path.join(VERIF, 'evidence', '%s.replay.%d.txt' % (prop, nrep))
        nrep += 1
        v = r['violation']
        open(p, 'w').write('property %s\nentry %s\ninputs %s\nfails %s\nobligations %s\nsolver %s\n\nReplay: compile the program below with  clang++ -std=c++20 '
                           '-I/verif/harness -I/repo/include  and run it.\n----\n%s\n' % (
                               prop, r['entry'], json.dumps(v.get('inputs')), v['failed'], json.dumps(v.get('obligation'), indent=1), v.get('solver'), v.get('source', '')))
        lines.append((p, r))
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': getattr(mod, 'LEVEL', 'proof'), 'wall_s': round(time.time() - t0, 2), 'violations': len(viols),
          'coverage': {
              'obligations': len(goals), 'discharged': len(disch), 'checker_cmd': 'python3-vt /verif/check.py %s' % prop,
              'trusted_base': getattr(mod, 'TRUSTED', []) + TRUSTED,
              'entries_under_contract': len(recs), 'entries_proved': sum(r['status'] == 'proved' for r in recs),
              'entries_enumerated_completely': [r['entry'] for r in recs if r['status'] == 'enumerated'],
              'entries_bounded_only': [{'entry': r['entry'], 'why': r['notes'], 'bounded': r.get('bounded')} for r in recs if r['status'] in ('undischarged', 'bounded')],
              'functions_under_contract': fns, 'discharged_by': by, 'solver_s': round(st, 2),
              'slowest': sorted(((g['time'], r['entry'], g['label']) for r, g in goals), reverse=True)[:5],
              'entries': [{'entry': r['entry'], 'status': r['status'], 'obligations': len(r['goals']), 'wall': round(r.get('wall', 0), 2),
                           'pre_satisfiable': r.get('pre_sat'), 'notes': r.get('notes')} for r in recs],
          },
          'assumptions': ASSUME + getattr(mod, 'ASSUME', []) + ['external, assumed: ' + e for e in ext]}
    json.dump(ev, open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w'), indent=1)
    for r, k in hits:
        print('KNOWN-FINDING: property=%s %s' % (prop, k[0]['what']))
    np = sum(r['status'] == 'proved' for r in recs)
    print('%s %s: %d entries, %d proved, %d enumerated, %d bounded/undischarged; %d/%d obligations discharged; %.1f s' % (
        prop, tier, len(recs), np, sum(r['status'] == 'enumerated' for r in recs), sum(r['status'] in ('undischarged', 'bounded') for r in recs), len(disch), len(goals), time.time() - t0))
    und = [r for r in recs if r['status'] in ('undischarged', 'bounded', 'error') and not r.get('violation')]
    if len(und) > 12: print('  (%d more undischarged entries in the evidence file)' % (len(und) - 12))
    for r in und[:12]: print('  undischarged %s: %s [%s]' % (r['entry'], '; '.join(r['notes'])[:300], r.get('bounded')))
    for p, r in lines:
        print('  %s fails %s on %s' % (r['entry'], r['violation']['failed'], r['violation'].get('inputs')))
        print('VIOLATION property=%s replay=%s%s' % (prop, p, '' if r['violation'].get('inputs') is not None else ' no-failing-input-found'))
    sys.stdout.flush()
    if viols: return 1
    if errs or not recs or not (goals or any(r['status'] in ('enumerated', 'bounded') for r in recs)): return 2
    return 0


TRUSTED = ['clang 18 front end (C++ to unoptimised LLVM IR, x86-64)', 'this verifier (/verif/vc: IR parser, executor, term simplifier, SMT encodings)',
           'z3 4.8.12 / z3-new / cvc5 1.1.2 (unsat answers)']
ASSUME = ['LLVM IR semantics as implemented in /verif/vc/exec.py', 'sizes and calling convention of x86-64 Linux; proofs are per listed template instantiation']
