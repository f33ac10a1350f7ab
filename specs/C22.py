from specs.common import *
PROP = 'C22'
INSTS = ['f32', 'f64', 'f16_8', 'u32_16', 'f32_24', 'f64_16', 'r32']
HEAD = '''#include "inst.hpp"
#include <eirin/random.hpp>
using namespace eirin;
// an arbitrary underlying distribution: records the parameters it is handed and returns an arbitrary draw
template <class V> struct AnyDist {
  typedef V result_type;
  struct param_type { V a_, b_; explicit param_type(V a = 0, V b = 0) : a_(a), b_(b) {} };
  param_type p_;
  explicit AnyDist(V a = 0, V b = 0) : p_(a, b) {}
  template <class G> V operator()(G& g) { return (*this)(g, p_); }
  template <class G> V operator()(G& g, const param_type& p) { g.a = p.a_; g.b = p.b_; g.calls++; return g.draw; }
};
template <class V> struct Gen { V draw, a, b; int calls = 0; Gen(V d) : draw(d), a(0), b(0) {} };
template <class V> struct GenAd { Gen<V> g; GenAd(V d) : g(d) {} Gen<V>& __underlying_engine() { return g; } };
// an arbitrary underlying engine: state and output are arbitrary functions of what it was told
template <class U> struct AnyEng {
  typedef U result_type;
  static constexpr U default_seed = 77;
  U s, n;
  AnyEng(U s_ = default_seed) : s(s_), n(0) {}
  U operator()() { U r = s ^ (n << 3); n++; return r; }
  void seed(U x = default_seed) { s = x; n = 0; }
  void seed(std::seed_seq&) {}
  void discard(unsigned long long z) { n += (U)z; }
  static constexpr U min() { return 0; } static constexpr U max() { return (U)-1; }
  friend bool operator==(const AnyEng& a, const AnyEng& b) { return a.s == b.s && a.n == b.n; }
};
'''
TMO = 20
OPS = []
le_ = lambda c, a, b, *r: le(a, b)
for nm, D, G in [('idist', 'fixed_int_distribution_adapter<N, AnyDist<T>>', 'Gen<T> g(d); auto& k = g;'), ('fdist', 'fixed_distribution_adapter<N, AnyDist<T>>', 'GenAd<T> g(d); auto& k = g.g;')]:
    D = 'typedef %s D; typedef typename D::param_type P; ' % D
    OPS += [
        Op(nm + '_draw', 'a:T b:T d:T', 'T', D + G + ' D u(mk<N>(a), mk<N>(b)); T r = u(g).internal_value(); x = k.a; y = k.b; z = k.calls; return r;', le_,
           lambda c, r, x, y, z, a, b, d: [('result is the draw', eq(r, d)), ('drawn from the stored range', and_(eq(x, a), eq(y, b))), ('one draw', eq(z, 1))], outs='x:T y:T z:i32'),
        Op(nm + '_draw_param', 'a:T b:T e:T h:T d:T', 'T', D + G + ' D u(mk<N>(a), mk<N>(b)); T r = u(g, P(mk<N>(e), mk<N>(h))).internal_value(); x = k.a; y = k.b; z = k.calls; '
           'if (u.a().internal_value() != a || u.b().internal_value() != b) z = 99; return r;', lambda c, a, b, e, h, d: and_(le(a, b), le(e, h)),
           lambda c, r, x, y, z, a, b, e, h, d: [('result is the draw', eq(r, d)), ('drawn from the passed range', and_(eq(x, e), eq(y, h))), ('one draw, stored range kept', eq(z, 1))], outs='x:T y:T z:i32'),
        Op(nm + '_draw_twice', 'a:T b:T e:T h:T d:T', 'T', D + G + ' D u(mk<N>(a), mk<N>(b)); u(g, P(mk<N>(e), mk<N>(h))); u.reset(); T r = u(g).internal_value(); x = k.a; y = k.b; return r;', lambda c, a, b, e, h, d: and_(le(a, b), le(e, h)),
           lambda c, r, x, y, a, b, e, h, d: [('result is the draw', eq(r, d)), ('a passed range does not stick', and_(eq(x, a), eq(y, b)))], outs='x:T y:T'),
        Op(nm + '_set_param', 'a:T b:T e:T h:T d:T', 'T', D + G + ' D u(mk<N>(a), mk<N>(b)); u.param(P(mk<N>(e), mk<N>(h))); T r = u(g).internal_value(); x = k.a; y = k.b; '
           'z = u.a().internal_value() == e && u.b().internal_value() == h && u.min().internal_value() == e && u.max().internal_value() == h && u.param() == P(mk<N>(e), mk<N>(h)); return r;', lambda c, a, b, e, h, d: and_(le(a, b), le(e, h)),
           lambda c, r, x, y, z, a, b, e, h, d: [('result is the draw', eq(r, d)), ('drawn from the new range', and_(eq(x, e), eq(y, h))), ('reported unchanged', eq(z, 1))], outs='x:T y:T z:i32'),
        Op(nm + '_get_param', 'a:T b:T', 'bool', D + 'const D u(mk<N>(a), mk<N>(b)); D v(u.param()); auto p = u.param(); return u.a().internal_value() == a && u.b().internal_value() == b && u.min().internal_value() == a && u.max().internal_value() == b '
           '&& p.a().internal_value() == a && p.b().internal_value() == b && v.a().internal_value() == a && v.b().internal_value() == b && v.param() == p && !(v.param() != p);', le_,
           lambda c, r, a, b: [('stored parameters reported unchanged', eq(r, 1))]),
        Op(nm + '_from_param', 'a:T b:T d:T', 'T', D + G + ' D u(P(mk<N>(a), mk<N>(b))); T r = u(g).internal_value(); x = k.a; y = k.b; return r;', le_,
           lambda c, r, x, y, a, b, d: [('result is the draw', eq(r, d)), ('drawn from the constructed range', and_(eq(x, a), eq(y, b)))], outs='x:T y:T'),
        Op(nm + '_default', 'd:T', 'T', D + G + ' D u; T r = u(g).internal_value(); x = k.a; y = k.b; P p; if (p.a().internal_value() != x || p.b().internal_value() != y) x = y; return r;', None,
           lambda c, r, x, y, d: [('result is the draw', eq(r, d)), ('whole range by default', and_(eq(x, c.min), eq(y, c.max)))], outs='x:T y:T'),
        Op(nm + '_param_eq', 'a:T b:T e:T h:T', 'bool', D + 'P p(mk<N>(a), mk<N>(b)), q(mk<N>(e), mk<N>(h)); bool r = p == q; return (p != q) == r ? !r : r;', lambda c, a, b, e, h: and_(le(a, b), le(e, h)),
           lambda c, r, a, b, e, h: [('equal exactly for equal bounds', iff(eq(r, 1), and_(eq(a, e), eq(b, h))))]),
    ]
for nm, E in [('any', 'AnyEng<std::make_unsigned_t<T>>'), ('any64', 'AnyEng<uint64_t>'), ('pcg', 'pcg2014_64')]:
    A = 'typedef %s E; typedef typename E::result_type U; typedef fixed_random_engine_adapter<N, E> A; ' % E
    OPS += [
        Op(nm + '_eng_out', 's:u64 n:u64', 'bool', A + 'A a; E e((U)s); a.seed((U)s); e.discard(n); a.discard(n); T x = a().internal_value(), y = (T)e(), x2 = a().internal_value(), y2 = (T)e(); return x == y && x2 == y2 && a.__underlying_engine() == e;', None,
           lambda c, r, s, n: [('output, seeding and discarding are the underlying engine\'s', eq(r, 1))]),
        Op(nm + '_eng_eq', 's:u64 n:u64 s2:u64 m:u64', 'bool', A + 'A a, b; a.seed((U)s); b.seed((U)s2); a.discard(n); b.discard(m); E e((U)s), f((U)s2); e.discard(n); f.discard(m); return (a == b) == (e == f) && (a != b) == !(e == f);', None,
           lambda c, r, s, n, s2, m: [('equality is the underlying engine\'s', eq(r, 1))]),
        Op(nm + '_eng_default', 's:u64', 'bool', A + 'A a; a.seed((U)s); a(); A b; E e; return b.__underlying_engine() == e && b().internal_value() == (T)e() && A::min().internal_value() == std::numeric_limits<N>::min().internal_value() && A::max().internal_value() == std::numeric_limits<N>::max().internal_value();', None,
           lambda c, r, s: [('fresh adapters start from the default engine', eq(r, 1))]),
        Op(nm + '_eng_seed0', 's:u64', 'bool', A + 'A a; a.seed((U)s); a(); a.seed(); E e; e.seed(); return a.__underlying_engine() == e;', None,
           lambda c, r, s: [('default seed', eq(r, 1))]),
    ]
GROUP = 16
