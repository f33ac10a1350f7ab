"""Assumed contracts of the input-stream functions of the standard library, over a ghost stream: the characters still to be read (specs/text.Str), how many
have been taken, and the state bits.  Exceptions of the stream are assumed off, as by default (operator>> is noexcept)."""
from . import term as t, exec as X, rt
from .term import and_, const
from .ir import IntTy, PTR, Unsupported
POS, BITS = 4096, 4104
BAD, EOF, FAIL = 1, 2, 4


def make(vc, name, st, chars, n):
    """stream argument: an object whose virtual base is found through its vtable, as compiled code does"""
    o, v = X.Obj('arg', name, 1 << 13), X.Obj('arg', name + '.vtable', 24, const=True)
    st.mem[v.id] = {0: (8, const(16), t.TRUE)}
    st.mem[o.id] = {0: (8, X.Ptr(v, 24), t.TRUE), POS: (8, const(0), t.TRUE), BITS: (4, vc.invars['st'], t.TRUE)}
    o.ghost = (chars, n)
    vc.cells = {'@pos': X.Ptr(o, POS), '@bits': X.Ptr(o, BITS)}
    return X.Ptr(o)


def of(p):
    if not isinstance(p, X.Ptr) or p.o is None or not isinstance(p.o.ghost, tuple): raise Unsupported('not the stream argument')
    return p.o


def get(ex, st, o): return ex.load(st, IntTy(64), X.Ptr(o, POS), None, quiet=True), ex.load(st, IntTy(32), X.Ptr(o, BITS), None, quiet=True)


def alts(ex, st, o, pos, bits, take):
    chars, n = o.ghost
    out = []
    for cond, fn in ((t.ne(bits, 0), lambda s: setbits(ex, s, o, bits, FAIL)), (and_(t.eq(bits, 0), t.eq(pos, n)), lambda s: setbits(ex, s, o, bits, EOF | (FAIL if take else 0))), (and_(t.eq(bits, 0), t.ne(pos, n)), None)):
        s = st.copy()
        s.g = and_(st.g, cond)
        if s.g is t.FALSE: continue
        if fn:
            fn(s)
            out.append((s, const(-1)))
            continue
        ch = chars(pos)
        if take: ex.store(s, IntTy(64), X.Ptr(o, POS), t.add(pos, 1))
        out.append((s, ch))
    return out, []


def setbits(ex, s, o, bits, new):
    for k in (1, 2, 4):
        if new & k: bits = t.ite(t.eq(t.fmod(t.fdiv(bits, k), 2), 1), bits, t.add(bits, k))
    ex.store(s, IntTy(32), X.Ptr(o, BITS), bits)


@rt.ext('std::istream::peek()', 'std::basic_istream<wchar_t, std::char_traits<wchar_t>>::peek()', 'std::basic_istream<wchar_t, std::char_traits<wchar_t> >::peek()')
def _peek(ex, st, args, inst):
    o = of(args[0])
    return alts(ex, st, o, *get(ex, st, o), False)


@rt.ext('std::istream::get()', 'std::basic_istream<wchar_t, std::char_traits<wchar_t>>::get()', 'std::basic_istream<wchar_t, std::char_traits<wchar_t> >::get()')
def _get(ex, st, args, inst):
    o = of(args[0])
    return alts(ex, st, o, *get(ex, st, o), True)


def names(f): return ['std::basic_ios<%s, std::char_traits<%s>%s>::%s' % (c, c, sp, f) for c in ('char', 'wchar_t') for sp in ('', ' ')]


@rt.ext(*names('good() const'))
def _good(ex, st, args, inst): return [(st, t.eq(get(ex, st, of(args[0]))[1], 0))], []


@rt.ext(*names('fail() const'))
def _fail(ex, st, args, inst): return [(st, t.ne(t.band(get(ex, st, of(args[0]))[1], const(BAD | FAIL)), 0))], []


@rt.ext(*names('eof() const'))
def _eof(ex, st, args, inst): return [(st, t.ne(t.band(get(ex, st, of(args[0]))[1], const(EOF)), 0))], []


@rt.ext(*names('operator bool() const'))
def _bool(ex, st, args, inst): return [(st, t.not_(_fail(ex, st, args, inst)[0][0][1]))], []


@rt.ext(*names('rdstate() const'))
def _rdstate(ex, st, args, inst): return [(st, get(ex, st, of(args[0]))[1])], []


@rt.ext(*names('setstate(std::_Ios_Iostate)'))
def _setstate(ex, st, args, inst):
    o = of(args[0])
    if args[1].op != 'c' or not 0 <= args[1].val < 8: raise Unsupported('setstate of a computed state')
    setbits(ex, st, o, get(ex, st, o)[1], args[1].val)
    return [(st, None)], []


@rt.ext('eirin_ghost_pos')
def _pos(ex, st, args, inst): return [(st, get(ex, st, of(args[0]))[0])], []


# ---- output: characters written are judged one by one by the grammar  -? digits ( . digits )?  and read back as a number (ghosts)
GH = 8192
CELLS = ['phase', 'neg', 'int', 'lead', 'frac', 'nd', 'last']      # phase 0 nothing yet, 1 after the sign, 2 integer digits, 3 after the point, 4 fraction digits
W = 4096


def flags_term(known):
    """format flags: known bits (bit -> 0 or 1), all others arbitrary"""
    r, k = const(0), 0
    while k < 31:
        if k in known:
            r, k = t.add(r, known[k] << k), k + 1
            continue
        j = k
        while j < 31 and j not in known: j += 1
        r, k = t.add(r, t.scale(t.fresh('flags', 0, (1 << (j - k)) - 1), 1 << k)), j
    return r


def make_out(vc, name, st, base, upper, flags):
    o, v = X.Obj('arg', name, 1 << 14), X.Obj('arg', name + '.vtable', 24, const=True)
    st.mem[v.id] = {0: (8, const(16), t.TRUE)}
    st.mem[o.id] = {0: (8, X.Ptr(v, 24), t.TRUE), 16 + 24: (4, flags_term(flags), t.TRUE)}        # ios_base::_M_flags of this libstdc++
    for k in range(len(CELLS)): st.mem[o.id][GH + W // 8 * k] = (W // 8, const(0), t.TRUE)
    o.ghost = ('out', base, upper)
    vc.cells = {'@' + c: X.Ptr(o, GH + W // 8 * k) for k, c in enumerate(CELLS)}
    return X.Ptr(o)


def emit(ex, st, o, ch, inst):
    _, base, upper = o.ghost
    P = {c: X.Ptr(o, GH + W // 8 * k) for k, c in enumerate(CELLS)}
    g = {c: ex.load(st, IntTy(W), p, None, quiet=True) for c, p in P.items()}

    def put(c, v): ex.store(st, IntTy(W), P[c], v)
    if g['phase'].op != 'c': raise Unsupported('output position not known')
    ph = g['phase'].val
    if ch.op == 'c' and ch.val == 45:
        ex.ob('the sign comes first', st, t.boolc(ph == 0), inst)
        put('neg', const(1))
        put('phase', const(1))
        return
    if ch.op == 'c' and ch.val == 46:
        ex.ob('the point follows the integer digits', st, t.boolc(ph == 2), inst)
        put('phase', const(3))
        return
    if base <= 10:
        d = t.sub(ch, 48)
        ok = t.between(0, d, base - 1)
    else:
        a = 65 if upper else 97
        d = t.ite(t.le(ch, 57), t.sub(ch, 48), t.sub(ch, a - 10))
        ok = t.or_(t.between(48, ch, 57), t.between(a, ch, a + base - 11))
    ex.ob('the character is a digit of the base', st, ok, inst)
    if ph < 3:
        ex.ob('no leading zero', st, t.eq(g['lead'], 0), inst)
        put('int', t.add(t.scale(g['int'], base), d))
        if ph < 2: put('lead', t.ite(t.eq(d, 0), const(1), const(0)))
        put('phase', const(2))
    else:
        put('frac', t.add(t.scale(g['frac'], base), d))
        put('nd', t.add(g['nd'], 1))
        put('last', d)
        put('phase', const(4))


def out_of(p):
    if not isinstance(p, X.Ptr) or p.o is None or not isinstance(p.o.ghost, tuple) or p.o.ghost[0] != 'out': raise Unsupported('not the stream argument')
    return p.o


@rt.ext('std::basic_ostream<char, std::char_traits<char> >& std::operator<<<std::char_traits<char> >(std::basic_ostream<char, std::char_traits<char> >&, char)',
        'std::basic_ostream<char, std::char_traits<char>>& std::operator<<<std::char_traits<char>>(std::basic_ostream<char, std::char_traits<char>>&, char)')
def _put(ex, st, args, inst):
    emit(ex, st, out_of(args[0]), args[1], inst)
    return [(st, args[0])], []


@rt.ext('std::ostream::put(char)')
def _put2(ex, st, args, inst): return _put(ex, st, args, inst)


@rt.ext('std::ostream::flush()')
def _flush(ex, st, args, inst): return [(st, args[0])], []


@rt.ext('eirin_emit')
def _emit(ex, st, args, inst):
    emit(ex, st, out_of(args[0]), args[1], inst)
    return [(st, None)], []
