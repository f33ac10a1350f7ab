"""Bounded stand-ins: native harness programs (exact big-integer oracles, ASan and UBSan) built from /repo's headers.
Never counted as proved; every record is labelled bounded and states how many cases ran."""
import os
import re
import subprocess
import hashlib
from . import lib


def build(src, flags=(), opt='-O1'):
    p = os.path.join(lib.HARN, src)
    d = lib.work()
    exe = os.path.join(d, 'h' + hashlib.sha1((src + repr(flags) + opt).encode()).hexdigest()[:12])
    if os.path.exists(exe): return exe
    r = lib.run([lib.CLANG, '-std=c++20', opt, '-w', '-g1', '-fsanitize=address,undefined', '-fno-sanitize=vptr,function', '-fno-sanitize-recover=all', '-I' + lib.HARN] + lib.INC
                + list(flags) + [p, '-o', exe])
    if r.returncode: raise lib.BuildError(r.stderr[:2500])
    return exe


def record(entry, src, args, tier, seed, flags=(), time_s=None, bound=''):
    """one bounded record; the program prints  OK <cases>  or  FAIL <what> | <input>"""
    time_s = time_s or (1500 if tier == 'thorough' else 200)
    exe = build(src, flags)
    cmd = [exe] + [str(a) for a in args] + [tier, str(seed)]
    env = dict(os.environ, ASAN_OPTIONS='abort_on_error=0:detect_leaks=1:allocator_may_return_null=1', UBSAN_OPTIONS='print_stacktrace=0')
    rec = {'entry': entry, 'status': 'bounded', 'goals': [], 'violation': None, 'notes': ['bounded: ' + bound] if bound else ['bounded'], 'functions': [], 'external': {}, 'bounded': None}
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=time_s, env=env, errors='replace')
    except subprocess.TimeoutExpired as e:
        out = e.stdout.decode(errors='replace') if isinstance(e.stdout, bytes) else (e.stdout or '')
        last = [l for l in out.splitlines() if l.startswith('AT ')]
        rec['status'] = 'undischarged'
        rec['notes'].append('harness timed out after %d s' % time_s)
        return rec
    ok = re.search(r'^OK (\d+)', p.stdout, re.M)
    if p.returncode == 0 and ok:
        rec['bounded'] = '%s cases' % ok.group(1)
        return rec
    m = re.search(r'^FAIL (.*?) \| (.*)$', p.stdout, re.M)
    at = re.search(r'^AT (.*)$', p.stdout, re.M)
    what = m.group(1) if m else 'crash or sanitizer report: ' + (re.search(r'(runtime error|ERROR: \w+Sanitizer): ?[^\n]*', p.stderr) or [p.stderr[-300:]])[0]
    inp = m.group(2) if m else (at.group(1) if at else 'see output')
    rec['status'] = 'refuted'
    rec['violation'] = {'inputs': {'input': inp}, 'failed': [what], 'obligation': ['%s (bounded check %s)' % (entry, src)], 'solver': None,
                        'source': 'run: %s\nwith source /verif/harness/%s\n\nstdout:\n%s\nstderr:\n%s\n' % (' '.join(cmd), src, p.stdout[-2000:], p.stderr[-3000:])}
    return rec
