from specs.common import *
PROP = 'C21'
INSTS = []
HEAD = '''#include "inst.hpp"
#include <eirin/random.hpp>
using namespace eirin;
typedef permuted_congruential_engine<uint32_t, 0x12345u, 0x9E3779B1u, 0x7u, 0x85EBCA6Bu, 0xC2B2AE35u> pcg_alt;
template <class E> static inline E at(typename E::result_type s, uint64_t n) { E e(s); e.discard(n); return e; }
'''
ENG = [('pcg32', 'pcg2014', 'u32'), ('pcg64', 'pcg2014_64', 'u64'), ('pcgalt', 'pcg_alt', 'u32')]
is1 = lambda lab: lambda c, r, *a: [(lab, eq(r, 1))]
OPS = []


def op(n, args, ret, code, pre, post):
    for nm, ty, u in ENG:
        w = rng(u)[1] + 1
        OPS.append(Op('%s_%s' % (nm, n), args.replace('U', u), ret.replace('U', u), code.replace('E', ty), pre, (lambda w: lambda c, *a: post(w, *a))(w), perinst=False))


def holds(n, args, code, lab): op(n, args, 'bool', code, None, lambda w, r, *a: [(lab, eq(r, 1))])


A = 'E a = at<E>(s, n); '
holds('discard0', 's:U n:u64', A + 'E b = at<E>(s, n); b.discard(0); return a == b && a() == b();', 'discard(0) changes nothing')
holds('discard_step', 's:U m:u64 n:u64', 'E a = at<E>(s, m), b = a; a.discard(n); a(); b.discard(n + 1); return a == b && a() == b() && a() == b();', 'discard(n + 1) is discard(n) and one call')
holds('discard1', 's:U n:u64', A + 'E b(a); a(); b.discard(1); return a == b && a() == b();', 'discard(1) is one call')
holds('discard_add', 's:U m:u64 n:u64', 'E a(s), b(s); a.discard(m); a.discard(n); b.discard(m + n); return a == b && a() == b();', 'discards add up')
holds('pure', 's:U n:u64 s2:U n2:u64', A + 'E b(a), c = at<E>(s2, n2); auto x = a(); c(); auto y = b(); auto x2 = a(); c.seed(s); auto y2 = b(); return x == y && x2 == y2 && a == b;', 'copies produce the same outputs whatever other engines do')
holds('pure_start', 's:U n:u64', 'E a(s); a.discard(n); auto x = a(); E b(s); b.discard(n); auto y = b(); return x == y;', 'output is a function of seed and position')
holds('seed', 's:U n:u64 s2:U', A + 'a.seed(s2); E b(s2); return a == b && a() == b() && a() == b();', 'seeding restarts the sequence')
holds('seed_default', 's:U n:u64', A + 'a.seed(); E b, c(E::default_seed); return a == b && a == c && a() == b();', 'default seed')
holds('copy', 's:U n:u64 s2:U n2:u64', A + 'E b = at<E>(s2, n2); b = a; bool q = a == b; auto x = b(); return q && !(a == b) && x == a() && a == b;', 'assignment copies the position')
op('equal', 's:U m:u64 s2:U n:u64', 'bool', 'return at<E>(s, m) == at<E>(s2, n);', None,
   lambda w, r, s, m, s2, n: [('equal exactly for equal seed and position', iff(eq(r, 1), and_(eq(s, s2), eq(fmod(m, w), fmod(n, w)))))])
op('unequal', 's:U m:u64 s2:U n:u64', 'bool', 'return at<E>(s, m) != at<E>(s2, n);', None,
   lambda w, r, s, m, s2, n: [('negation of equality', iff(eq(r, 0), and_(eq(s, s2), eq(fmod(m, w), fmod(n, w)))))])
op('range', 's:U n:u64', 'bool', A + 'auto v = a(); return v >= E::min() && v <= E::max() && E::min() == 0 && E::max() == (decltype(v))-1;', None, lambda w, r, *a: [('within min and max', eq(r, 1))])
holds('seed_seq', 's:U n:u64 x:u32 y:u32', 'std::seed_seq q{x, y}; ' + A + 'a.seed(q); E b; b.seed(q); bool e = a == b; auto v = a(), w = b(); return e && v == w;', 'seeding from a seed sequence restarts the sequence')
GROUP = 13
