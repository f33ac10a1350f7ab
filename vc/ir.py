"""Parser for the textual LLVM 18 IR that clang++ -O0 -Xclang -disable-llvm-passes emits (opaque pointers)."""
import re
import struct as _struct

TOK = re.compile(r'''
   (?P<str>c?"(?:[^"\\]|\\.)*")
 | (?P<loc>%(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))
 | (?P<glob>@(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))
 | (?P<meta>!(?:[-a-zA-Z$._0-9]+)?)
 | (?P<attr>\#[0-9]+)
 | (?P<num>0x[KLMHR]?[0-9A-Fa-f]+|-?[0-9]+\.[0-9]*(?:[eE][-+]?[0-9]+)?|-?[0-9]+)
 | (?P<dots>\.\.\.)
 | (?P<id>[a-zA-Z$._][-a-zA-Z$._0-9]*)
 | (?P<p>[(){}\[\]<>,=*:|])
''', re.X)


def lex(s):
    out = []
    i, n = 0, len(s)
    while i < n:
        ch = s[i]
        if ch in ' \t\n':
            i += 1
            continue
        if ch == ';':
            break
        m = TOK.match(s, i)
        if not m:
            raise Unsupported('lex: ' + s[i:i + 40] + ' in ' + s[:80])
        out.append(m.group(0))
        i = m.end()
    return out


class Unsupported(Exception):
    """The construct is outside the verifier's reach (never a verdict about the code)."""


class Ty:
    __slots__ = ('k', 'n', 'e', 'name')

    def __init__(s, k, n=None, e=None, name=None):
        s.k, s.n, s.e, s.name = k, n, e, name

    def __repr__(s):
        if s.k == 'int': return 'i%d' % s.n
        if s.k in ('arr', 'vec'): return '[%d x %r]' % (s.n, s.e)
        if s.k == 'struct': return '{%s}' % ', '.join(map(repr, s.e))
        if s.k == 'named': return s.name
        return s.k


PTR, VOID, LABEL, META = Ty('ptr'), Ty('void'), Ty('label'), Ty('metadata')
_ints = {}


def IntTy(n):
    if n not in _ints:
        _ints[n] = Ty('int', n)
    return _ints[n]


FP = {'float': 4, 'double': 8, 'x86_fp80': 16, 'half': 2, 'fp128': 16}

PARAM_ATTRS = set('''noundef signext zeroext inreg noalias nocapture nonnull readonly readnone writeonly returned nofree
 immarg swiftself nest noext noreturn mustprogress nounwind allocalign allocptr dead_on_unwind writable'''.split())
PARAM_ATTRS_ARG = {'align', 'dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'byref', 'elementtype', 'inalloca',
                   'range', 'preallocated', 'nofpclass', 'initializes'}
FASTMATH = {'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'}


class Inst:
    __slots__ = ('op', 'res', 'ty', 'a', 'dbg', 'text')

    def __init__(s, op, res=None, ty=None, a=None, dbg=None, text=''):
        s.op, s.res, s.ty, s.a, s.dbg, s.text = op, res, ty, a, dbg, text


class Func:
    def __init__(s, name):
        s.name = name
        s.params = []      # (Ty, name, attrs)
        s.ret = None
        s.blocks = {}
        s.order = []
        s.dbg = None
        s.nounwind = False


class P:
    """token cursor"""

    def __init__(s, toks, mod):
        s.t, s.i, s.m = toks, 0, mod

    def pk(s, k=0):
        j = s.i + k
        return s.t[j] if j < len(s.t) else None

    def nx(s):
        x = s.t[s.i]
        s.i += 1
        return x

    def eat(s, x):
        if s.pk() == x:
            s.i += 1
            return True
        return False

    def need(s, x):
        if s.pk() != x:
            raise Unsupported('parse: expected %s got %s in %s' % (x, s.pk(), ' '.join(s.t)[:200]))
        s.i += 1

    def ty(s):
        t = s._ty0()
        # function type suffix  "ret (args...)"
        if s.pk() == '(' and t.k != 'func':
            d = 0
            while True:
                x = s.nx()
                if x == '(': d += 1
                if x == ')':
                    d -= 1
                    if d == 0: break
            return Ty('func', None, t)
        return t

    def _ty0(s):
        x = s.nx()
        if re.fullmatch(r'i[0-9]+', x): return IntTy(int(x[1:]))
        if x == 'ptr':
            if s.pk() == 'addrspace':
                s.i += 4
            return PTR
        if x == 'void': return VOID
        if x in FP: return Ty(x)
        if x == 'label': return LABEL
        if x == 'metadata': return META
        if x == 'token': return Ty('token')
        if x[0] == '%': return Ty('named', name=x)
        if x == '[':
            n = int(s.nx())
            s.need('x')
            e = s.ty()
            s.need(']')
            return Ty('arr', n, e)
        if x == '<':
            if s.pk() == '{':
                s.i += 1
                es = s._tylist('}')
                s.need('>')
                return Ty('struct', 1, es)
            n = int(s.nx())
            s.need('x')
            e = s.ty()
            s.need('>')
            return Ty('vec', n, e)
        if x == '{':
            return Ty('struct', 0, s._tylist('}'))
        raise Unsupported('type token ' + x + ' in ' + ' '.join(s.t)[:160])

    def _tylist(s, end):
        es = []
        while s.pk() != end:
            es.append(s.ty())
            s.eat(',')
        s.need(end)
        return es

    def attrs(s):
        a = {}
        while True:
            x = s.pk()
            if x in PARAM_ATTRS:
                a[x] = True
                s.i += 1
            elif x in PARAM_ATTRS_ARG:
                s.i += 1
                if s.pk() == '(':
                    d = 0
                    st = s.i
                    while True:
                        y = s.nx()
                        if y == '(': d += 1
                        if y == ')':
                            d -= 1
                            if d == 0: break
                    if x in ('sret', 'byval'):
                        a[x] = P(s.t[st + 1:s.i - 1], s.m).ty()
                    else:
                        a[x] = True
                else:
                    s.nx()
                    a[x] = True
            elif x and x[0] == '"':
                s.i += 1
                if s.eat('='): s.i += 1
            elif x and x[0] == '#':
                s.i += 1
            else:
                return a

    def const_or_val(s, ty):
        """value of the given type: ('loc',name) | ('int',n) | ('glob',name) | ('null',) | ('undef',) | ('agg',[(ty,v)])
        | ('str',bytes) | ('zero',) | ('fp',float) | ('cexpr',op,...)"""
        x = s.nx()
        if x[0] == '%': return ('loc', x)
        if x[0] == '@': return ('glob', x)
        if x == 'true': return ('int', 1)
        if x == 'false': return ('int', 0)
        if x == 'null': return ('null',)
        if x in ('undef', 'poison'): return ('undef',)
        if x == 'zeroinitializer': return ('zero',)
        if x == 'none': return ('none',)
        if x[0] == '!' or x == 'metadata': return ('meta', x)
        if ty.k in FP:
            if x.startswith('0x'):
                if ty.k in ('float', 'double'):
                    return ('fp', _struct.unpack('>d', bytes.fromhex(x[2:].rjust(16, '0')))[0])
                return ('fpx', x)
            return ('fp', float(x))
        if re.fullmatch(r'-?[0-9]+', x): return ('int', int(x))
        if x[0] == 'c' and x[1:2] == '"':
            return ('str', unesc(x[2:-1]))
        if x == '[' or x == '{':
            end = ']' if x == '[' else '}'
            vs = []
            while s.pk() != end:
                t = s.ty()
                vs.append((t, s.const_or_val(t)))
                s.eat(',')
            s.need(end)
            return ('agg', vs)
        if x == '<':
            packed = s.eat('{')
            end = '}' if packed else '>'
            vs = []
            while s.pk() != end:
                t = s.ty()
                vs.append((t, s.const_or_val(t)))
                s.eat(',')
            s.need(end)
            if packed: s.need('>')
            return ('agg', vs)
        if x == 'getelementptr':
            s.eat('inbounds')
            if s.pk() == 'inrange':
                s.i += 1
                d = 0
            s.need('(')
            t = s.ty()
            s.need(',')
            ops = []
            while s.pk() != ')':
                s.eat('inrange')
                tt = s.ty()
                ops.append((tt, s.const_or_val(tt)))
                s.eat(',')
            s.need(')')
            return ('cexpr', 'gep', t, ops)
        if x in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext', 'addrspacecast'):
            s.need('(')
            t = s.ty()
            v = s.const_or_val(t)
            s.need('to')
            t2 = s.ty()
            s.need(')')
            return ('cexpr', 'cast', x, t, v, t2)
        if x in ('add', 'sub', 'mul', 'shl', 'xor'):
            while s.pk() in ('nsw', 'nuw'): s.i += 1
            s.need('(')
            t = s.ty()
            a = s.const_or_val(t)
            s.need(',')
            t2 = s.ty()
            b = s.const_or_val(t2)
            s.need(')')
            return ('cexpr', 'bin', x, t, a, b)
        if x in ('dso_local_equivalent', 'no_cfi'):
            return s.const_or_val(ty)
        raise Unsupported('const ' + x + ' in ' + ' '.join(s.t)[:160])

    def tyval(s):
        t = s.ty()
        s.attrs()
        return t, s.const_or_val(t)


def unesc(x):
    out = bytearray()
    i = 0
    while i < len(x):
        if x[i] == '\\':
            if x[i + 1] == '\\':
                out.append(92)
                i += 2
            else:
                out.append(int(x[i + 1:i + 3], 16))
                i += 3
        else:
            out += x[i].encode('utf-8')
            i += 1
    return bytes(out)


class Module:
    def __init__(self, text):
        self.types = {}
        self.globals = {}     # name -> (ty, init or None, is_const)
        self.funcs = {}
        self.decls = {}
        self.dbg = {}
        self.attrs = {}
        self._parse(text)
        self._sz = {}

    # -- layout ---------------------------------------------------------------------------
    def align(self, t):
        if t.k == 'int':
            if t.n <= 8: return 1
            if t.n <= 16: return 2
            if t.n <= 32: return 4
            if t.n <= 64: return 8
            return 16
        if t.k == 'ptr': return 8
        if t.k in FP: return {'float': 4, 'double': 8}.get(t.k, 16)
        if t.k == 'arr': return self.align(t.e)
        if t.k == 'vec': return self.size(t)
        if t.k == 'named': return self.align(self.types[t.name])
        if t.k == 'struct':
            return 1 if t.n else max([self.align(e) for e in t.e] or [1])
        raise Unsupported('align of %r' % t)

    def size(self, t):
        if t.k == 'int':
            b = (t.n + 7) // 8
            a = self.align(t)
            return (b + a - 1) // a * a
        if t.k == 'ptr': return 8
        if t.k in FP: return FP[t.k]
        if t.k == 'arr': return t.n * self.size(t.e)
        if t.k == 'vec': return t.n * self.size(t.e)
        if t.k == 'named': return self.size(self.types[t.name])
        if t.k == 'struct':
            o = 0
            for e in t.e:
                if not t.n:
                    a = self.align(e)
                    o = (o + a - 1) // a * a
                o += self.size(e)
            if not t.n:
                a = self.align(t)
                o = (o + a - 1) // a * a
            return o
        raise Unsupported('size of %r' % t)

    def res(self, t):
        while t.k == 'named': t = self.types[t.name]
        return t

    def field(self, t, i):
        o = 0
        for j, e in enumerate(t.e):
            if not t.n:
                a = self.align(e)
                o = (o + a - 1) // a * a
            if j == i: return o, e
            o += self.size(e)
        raise Unsupported('field')

    # -- parsing --------------------------------------------------------------------------
    def _parse(self, text):
        lines = text.split('\n')
        i, n = 0, len(lines)
        while i < n:
            l = lines[i]
            if l.startswith('%'):
                m = re.match(r'(%(?:"[^"]*"|\S+)) = type (.*)$', l)
                if m:
                    if m.group(2) == 'opaque':
                        self.types[m.group(1)] = Ty('struct', 0, [])
                    else:
                        self.types[m.group(1)] = P(lex(m.group(2)), self).ty()
            elif l.startswith('@'):
                self._global(l)
            elif l.startswith('declare'):
                self._decl(l)
            elif l.startswith('define'):
                j = i + 1
                while lines[j] != '}': j += 1
                f = self._header(l)
                f._lines = lines[i + 1:j]
                self.funcs[f.name] = f
                i = j
            elif l.startswith('!') and ' = ' in l:
                m = re.match(r'!(\d+) = (?:distinct )?(.*)$', l)
                if m: self.dbg[m.group(1)] = m.group(2)
            elif l.startswith('attributes #'):
                m = re.match(r'attributes (#\d+) = \{(.*)\}', l)
                self.attrs[m.group(1)] = m.group(2)
            i += 1
        for f in self.funcs.values():
            f.nounwind = any('nounwind' in self.attrs.get(a, '').split() for a in f.fattrs)

    def _global(self, l):
        m = re.match(r'(@(?:"[^"]*"|[-a-zA-Z$._0-9]+)) = (.*)$', l)
        name, rest = m.group(1), m.group(2)
        if ' alias ' in ' ' + rest or rest.startswith('alias'):
            mm = re.search(r'alias .*?, ptr (@\S+)', rest)
            if mm: self.globals[name] = ('alias', mm.group(1).rstrip(','), None)
            return
        mm = re.search(r'\b(constant|global)\b ', rest)
        if not mm: return
        pre = rest[:mm.start()]
        isc = mm.group(1) == 'constant'
        p = P(lex(rest[mm.end():]), self)
        t = p.ty()
        init = None
        ext = 'external' in pre.split()
        if not ext and p.pk() not in (None, ','):
            try:
                init = p.const_or_val(t)
            except Unsupported:
                init = ('unsupported',)
        self.globals[name] = (t, init, isc)

    def _sig(self, l):
        """parse '... @name(params) attrs' -> (retty, name, params, vararg, trailing)"""
        toks = lex(l)
        gi = next(k for k, x in enumerate(toks) if x[0] == '@' and k + 1 < len(toks) and toks[k + 1] == '(')
        name = toks[gi]
        # return type = last complete type before the name
        pre = toks[1:gi]
        SK = set('''dso_local linkonce_odr internal weak_odr private available_externally local_unnamed_addr external hidden
            protected default fastcc ccc weak linkonce common appending extern_weak dllimport dllexport'''.split())
        p = P(pre, self)
        while p.pk() in SK: p.i += 1
        p.attrs()
        ret = p.ty()
        p = P(toks, self)
        p.i = gi + 2
        params, va = [], False
        while p.pk() != ')':
            if p.eat('...'):
                va = True
                continue
            t = p.ty()
            a = p.attrs()
            nm = None
            if p.pk() and p.pk()[0] == '%': nm = p.nx()
            params.append((t, nm, a))
            p.eat(',')
        return ret, name, params, va, toks[p.i + 1:]

    def _decl(self, l):
        ret, name, params, va, tail = self._sig(l)
        self.decls[name] = (ret, params)

    def _header(self, l):
        ret, name, params, va, tail = self._sig(l)
        f = Func(name)
        f.ret = ret
        f.params = [(t, nm if nm else '%%%d' % k, a) for k, (t, nm, a) in enumerate(params)]
        f.fattrs = [x for x in tail if x[0] == '#']
        m = re.search(r'!dbg !(\d+)', l)
        f.dbg = m.group(1) if m else None
        return f

    def body(self, f):
        if f.blocks: return f
        lines = f._lines
        # implicit entry label: numbering follows the unnamed params
        cur = None
        i, n = 0, len(lines)
        while i < n:
            l = lines[i]
            i += 1
            if not l.strip(): continue
            if not l.startswith(' '):
                m = re.match(r'("(?:[^"]*)"|[-a-zA-Z$._0-9]+):', l)
                if m:
                    cur = '%' + m.group(1)
                    f.blocks[cur] = []
                    f.order.append(cur)
                    continue
                if l.startswith(';') or l.startswith('  ;'): continue
                raise Unsupported('line ' + l)
            if cur is None:
                k = sum(1 for (t, nm, a) in f.params if re.fullmatch(r'%\d+', nm))
                cur = '%%%d' % k
                f.blocks[cur] = []
                f.order.append(cur)
            s = l.strip()
            if s.startswith(';'): continue
            if s.startswith('switch') or ' = switch' in s:
                while not s.rstrip().split(', !')[0].rstrip().endswith(']'):
                    s += ' ' + lines[i].strip()
                    i += 1
            elif re.match(r'(%\S+ = )?invoke ', s):
                while ' unwind label ' not in s:
                    s += ' ' + lines[i].strip()
                    i += 1
            elif ' = landingpad ' in s:
                while i < n and lines[i].startswith('          '):
                    s += ' ' + lines[i].strip()
                    i += 1
            f.blocks[cur].append(self._inst(s))
        return f

    def loc(self, d):
        """debug location -> 'file:line' """
        if d is None: return '?'
        s = self.dbg.get(d, '')
        m = re.search(r'line: (\d+)', s)
        line = m.group(1) if m else '?'
        m = re.search(r'scope: !(\d+)', s)
        k = 0
        while m and k < 30:
            k += 1
            t = self.dbg.get(m.group(1), '')
            mf = re.search(r'file: !(\d+)', t)
            if mf:
                fn = re.search(r'filename: "([^"]*)"', self.dbg.get(mf.group(1), ''))
                return '%s:%s' % ((fn.group(1).split('/include/')[-1] if fn else '?'), line)
            m = re.search(r'scope: !(\d+)', t)
        return '?:' + line

    def _inst(self, s):
        m = re.search(r', !dbg !(\d+)', s)
        dbg = m.group(1) if m else None
        if ', !' in s:
            s = re.sub(r'(, ![-a-zA-Z._]+ !\d+)+\s*$', '', s)
        p = P(lex(s), self)
        res = None
        if p.pk()[0] == '%' and p.pk(1) == '=':
            res = p.nx()
            p.i += 1
        op = p.nx()
        I = lambda ty, a: Inst(op, res, ty, a, dbg, s)
        if op in ('tail', 'musttail', 'notail'):
            op = p.nx()
        if op == 'ret':
            t = p.ty()
            return I(t, None if t.k == 'void' else p.const_or_val(t))
        if op == 'br':
            if p.pk() == 'label':
                p.i += 1
                return I(None, (None, p.nx()))
            t = p.ty()
            c = p.const_or_val(t)
            p.need(',')
            p.need('label')
            a = p.nx()
            p.need(',')
            p.need('label')
            return I(None, (c, a, p.nx()))
        if op == 'switch':
            t = p.ty()
            v = p.const_or_val(t)
            p.need(',')
            p.need('label')
            d = p.nx()
            p.need('[')
            cs = []
            while p.pk() != ']':
                t2 = p.ty()
                c = p.const_or_val(t2)
                p.need(',')
                p.need('label')
                cs.append((c[1], p.nx()))
            return I(t, (v, d, cs))
        if op == 'unreachable': return I(None, None)
        if op == 'alloca':
            t = p.ty()
            cnt = None
            if p.eat(','):
                if p.pk() != 'align':
                    ct = p.ty()
                    cnt = (ct, p.const_or_val(ct))
            return I(t, cnt)
        if op == 'load':
            p.eat('atomic')
            vol = p.eat('volatile')
            t = p.ty()
            p.need(',')
            return I(t, (p.tyval()[1], vol))
        if op == 'store':
            p.eat('atomic')
            vol = p.eat('volatile')
            t, v = p.tyval()
            p.need(',')
            return I(t, (v, p.tyval()[1], vol))
        if op == 'getelementptr':
            inb = p.eat('inbounds')
            while p.pk() in ('nuw', 'nusw'): p.i += 1
            t = p.ty()
            p.need(',')
            b = p.tyval()
            idx = []
            while p.eat(','):
                idx.append(p.tyval())
            return I(t, (b, idx, inb))
        if op in ('add', 'sub', 'mul', 'shl', 'udiv', 'sdiv', 'lshr', 'ashr', 'urem', 'srem', 'and', 'or', 'xor',
                  'fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            fl = set()
            while p.pk() in ('nsw', 'nuw', 'exact', 'disjoint') or p.pk() in FASTMATH: fl.add(p.nx())
            t = p.ty()
            a = p.const_or_val(t)
            p.need(',')
            return I(t, (a, p.const_or_val(t), fl))
        if op == 'fneg':
            while p.pk() in FASTMATH: p.i += 1
            t = p.ty()
            return I(t, (p.const_or_val(t),))
        if op in ('icmp', 'fcmp'):
            while p.pk() in FASTMATH: p.i += 1
            pr = p.nx()
            t = p.ty()
            a = p.const_or_val(t)
            p.need(',')
            return I(t, (pr, a, p.const_or_val(t)))
        if op in ('trunc', 'zext', 'sext', 'fptosi', 'fptoui', 'sitofp', 'uitofp', 'fpext', 'fptrunc', 'ptrtoint', 'inttoptr',
                  'bitcast', 'addrspacecast'):
            while p.pk() in ('nneg', 'nsw', 'nuw'): p.i += 1
            t = p.ty()
            v = p.const_or_val(t)
            p.need('to')
            return I(p.ty(), (t, v))
        if op == 'select':
            while p.pk() in FASTMATH: p.i += 1
            tc, c = p.tyval()
            p.need(',')
            t, a = p.tyval()
            p.need(',')
            t2, b = p.tyval()
            return I(t, (tc, c, a, b))
        if op == 'phi':
            while p.pk() in FASTMATH: p.i += 1
            t = p.ty()
            inc = []
            while p.pk() == '[':
                p.i += 1
                v = p.const_or_val(t)
                p.need(',')
                inc.append((v, p.nx()))
                p.need(']')
                p.eat(',')
            return I(t, inc)
        if op in ('call', 'invoke'):
            while p.pk() in FASTMATH or p.pk() in ('fastcc', 'ccc', 'cc'): p.i += 1
            p.attrs()
            t = p.ty()
            rt = t.e if t.k == 'func' else t
            callee = p.const_or_val(PTR) if p.pk() != 'asm' else ('asm',)
            if callee[0] == 'asm':
                return Inst(op, res, rt, ('asm', [], None, None), dbg, s)
            p.need('(')
            args = []
            while p.pk() != ')':
                at = p.ty()
                at_attr = p.attrs()
                args.append((at, p.const_or_val(at), at_attr))
                p.eat(',')
            p.need(')')
            nrm = unw = None
            at = p.attrs()
            if op == 'invoke':
                while p.pk() != 'to': p.i += 1
                p.need('to')
                p.need('label')
                nrm = p.nx()
                p.need('unwind')
                p.need('label')
                unw = p.nx()
            return Inst(op, res, rt, (callee, args, nrm, unw), dbg, s)
        if op == 'landingpad':
            t = p.ty()
            cl, cleanup = [], False
            while p.pk() is not None:
                if p.eat('cleanup'): cleanup = True
                elif p.eat('catch'):
                    cl.append(('catch', p.tyval()[1]))
                elif p.eat('filter'):
                    cl.append(('filter', p.tyval()[1]))
                else:
                    break
            return I(t, (cleanup, cl))
        if op == 'resume': return I(None, p.tyval())
        if op == 'extractvalue':
            v = p.tyval()
            idx = []
            while p.eat(','): idx.append(int(p.nx()))
            return I(v[0], (v[1], idx))
        if op == 'insertvalue':
            v = p.tyval()
            p.need(',')
            w = p.tyval()
            idx = []
            while p.eat(','): idx.append(int(p.nx()))
            return I(v[0], (v[1], w, idx))
        if op == 'extractelement':
            v = p.tyval()
            p.need(',')
            return I(v[0], (v[1], p.tyval()))
        if op == 'insertelement':
            v = p.tyval()
            p.need(',')
            w = p.tyval()
            p.need(',')
            return I(v[0], (v[1], w, p.tyval()))
        if op == 'shufflevector':
            v = p.tyval()
            p.need(',')
            w = p.tyval()
            p.need(',')
            return I(v[0], (v[1], w[1], p.tyval()))
        if op == 'freeze':
            t, v = p.tyval()
            return I(t, (v,))
        if op == 'va_arg' or op == 'fence' or op == 'cmpxchg' or op == 'atomicrmw':
            return I(None, None)
        raise Unsupported('inst ' + op + ': ' + s[:120])
