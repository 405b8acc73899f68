"""Parser for the subset of textual LLVM IR that clang-18 -O0 emits for C.

Nothing is dropped silently: an instruction or operand the parser does not know
raises Unsupported when (and only when) it would have to be executed.
"""
import re


class Unsupported(Exception):
    """The annotation or the engine does not fit the code (never a violation)."""


# ---------------------------------------------------------------- tokenizer
TOK = re.compile(r'''
    \s+ |
    (?P<str>c?"(?:[^"\\]|\\.)*") |
    (?P<loc>%(?:"[^"]*"|[-a-zA-Z$._0-9]+)) |
    (?P<glob>@(?:"[^"]*"|[-a-zA-Z$._0-9]+)) |
    (?P<meta>![-a-zA-Z$._0-9]*) |
    (?P<attr>\#[0-9]+) |
    (?P<num>-?[0-9]+(?:\.[0-9]+(?:e[-+]?[0-9]+)?)?(?![-a-zA-Z$._0-9]) | 0x[A-Za-z0-9]+) |
    (?P<word>[-a-zA-Z$._0-9]+) |
    (?P<punct>\.\.\.|[()\[\]{}<>,=*:|])
''', re.X)


def tokenize(s):
    out = []
    pos = 0
    n = len(s)
    while pos < n:
        if s[pos] == ';':
            break
        m = TOK.match(s, pos)
        if not m:
            raise Unsupported('token at: ' + s[pos:pos + 40])
        pos = m.end()
        if m.lastgroup:
            out.append((m.lastgroup, m.group(m.lastgroup)))
    return out


class Int:
    __slots__ = ('n',)

    def __init__(self, n): self.n = n
    def __repr__(self): return 'i%d' % self.n


class Ptr:
    def __repr__(self): return 'ptr'


class Void:
    def __repr__(self): return 'void'


class Float:
    def __init__(self, n): self.n = n
    def __repr__(self): return 'f%d' % self.n


class Arr:
    def __init__(self, n, t): self.n, self.t = n, t
    def __repr__(self): return '[%d x %r]' % (self.n, self.t)


class Struct:
    def __init__(self, name=None, elems=None, packed=False):
        self.name, self.elems, self.packed = name, elems, packed
    def __repr__(self): return self.name or '{%r}' % (self.elems,)


class Other:
    def __init__(self, s): self.s = s
    def __repr__(self): return self.s


PTR, VOID = Ptr(), Void()

PARAM_ATTRS = {'noundef', 'signext', 'zeroext', 'nonnull', 'nocapture', 'readonly', 'writeonly',
               'noalias', 'dead_on_unwind', 'writable', 'returned', 'immarg', 'inreg', 'readnone', 'nofree', 'allocptr', 'allocalign',
               'noreturn', 'dso_local', 'internal', 'local_unnamed_addr', 'unnamed_addr', 'hidden',
               'linkonce_odr', 'weak', 'external', 'nonlazybind', 'mustprogress', 'private', 'constant',
               'global', 'thread_local', 'common', 'nest', 'swiftself', 'noreturn', 'fastcc', 'ccc',
               'linkonce', 'protected', 'available_externally', 'extern_weak', 'nounwind', 'mustprogress',
               'comdat', 'personality'}


class Instr:
    __slots__ = ('op', 'res', 'ty', 'args', 'x', 'line', 'text')

    def __init__(self, op, res=None, ty=None, args=None, x=None, line=None, text=''):
        self.op, self.res, self.ty, self.args, self.x = op, res, ty, args or [], x
        self.line, self.text = line, text

    def __repr__(self): return self.text


class Function:
    def __init__(self, name, ret, params):
        self.name, self.ret, self.params = name, ret, params
        self.blocks = {}
        self.order = []
        self.varargs = False


class P:
    """Token stream."""

    def __init__(self, toks, mod):
        self.t, self.i, self.mod = toks, 0, mod

    def peek(self, k=0):
        j = self.i + k
        return self.t[j][1] if j < len(self.t) else None

    def kind(self, k=0):
        j = self.i + k
        return self.t[j][0] if j < len(self.t) else None

    def next(self):
        v = self.t[self.i][1]
        self.i += 1
        return v

    def accept(self, v):
        if self.peek() == v:
            self.i += 1
            return True
        return False

    def expect(self, v):
        if not self.accept(v):
            raise Unsupported('expected %r got %r in %r' % (v, self.peek(), [x[1] for x in self.t]))

    def skip_attrs(self):
        while True:
            p = self.peek()
            if p in PARAM_ATTRS or self.kind() == 'attr':
                self.i += 1
            elif p in ('align', 'dereferenceable', 'dereferenceable_or_null', 'allocsize', 'memory', 'range'):
                self.i += 1
                if self.peek() == '(':
                    self.parens()
                else:
                    self.i += 1
            elif p in ('byval', 'sret', 'elementtype', 'byref'):
                self.i += 1
                self.parens()
            else:
                return

    def parens(self):
        self.expect('(')
        d = 1
        while d:
            v = self.next()
            d += (v == '(') - (v == ')')

    def type(self):
        p = self.next()
        if p == 'void':
            t = VOID
        elif p == 'ptr':
            t = PTR
        elif p == 'float':
            t = Float(32)
        elif p == 'double':
            t = Float(64)
        elif p in ('x86_fp80', 'half', 'fp128'):
            t = Float(80)
        elif p in ('metadata', 'label', 'token'):
            t = Other(p)
        elif p == '[':
            n = int(self.next())
            self.expect('x')
            e = self.type()
            self.expect(']')
            t = Arr(n, e)
        elif p == '{' or (p == '<' and self.peek() == '{'):
            packed = p == '<'
            if packed:
                self.expect('{')
            el = []
            while not self.accept('}'):
                el.append(self.type())
                self.accept(',')
            if packed:
                self.expect('>')
            t = Struct(None, el, packed)
        elif p == '<':
            raise Unsupported('vector type')
        elif p.startswith('%'):
            t = Struct(p[1:].strip('"'))
        elif re.match(r'i[0-9]+$', p):
            t = Int(int(p[1:]))
        elif p == 'opaque':
            t = Other('opaque')
        else:
            raise Unsupported('type ' + p)
        # function type suffix "ptr (..)" or "void (..., ...)"
        if self.peek() == '(' and not isinstance(t, Ptr) is None:
            pass
        return t

    def value(self, ty):
        """Parse a value of type ty -> ('loc',name)|('int',n)|('glob',name)|('null',)|('undef',)|
        ('cexpr', op, ...)"""
        k, p = self.t[self.i]
        self.i += 1
        if k == 'loc':
            return ('loc', p[1:].strip('"'))
        if k == 'glob':
            return ('glob', p[1:].strip('"'))
        if k == 'num':
            if isinstance(ty, Float) or '.' in p or p.startswith('0x'):
                return ('float', p)
            return ('int', int(p))
        if p == 'true':
            return ('int', 1)
        if p == 'false':
            return ('int', 0)
        if p in ('null', 'zeroinitializer'):
            return ('int', 0) if not isinstance(ty, (Struct, Arr)) else ('zero',)
        if p in ('undef', 'poison'):
            return ('undef',)
        if p == 'none':
            return ('undef',)
        if p == 'getelementptr':
            self.accept('inbounds')
            self.expect('(')
            sty = self.type()
            self.expect(',')
            ops = []
            while True:
                self.skip_attrs()
                t = self.type()
                ops.append((t, self.value(t)))
                if not self.accept(','):
                    break
            self.expect(')')
            return ('cgep', sty, ops)
        if p in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext'):
            self.expect('(')
            t = self.type()
            v = self.value(t)
            self.expect('to')
            t2 = self.type()
            self.expect(')')
            return ('ccast', p, t, v, t2)
        if p in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr'):
            while self.peek() in ('nsw', 'nuw'):
                self.i += 1
            self.expect('(')
            t = self.type()
            a = self.value(t)
            self.expect(',')
            t2 = self.type()
            b = self.value(t2)
            self.expect(')')
            return ('cbin', p, t, a, b)
        if p == '[' or p == '{' or k == 'str' or p == '<':
            return ('aggr',)
        raise Unsupported('value %r' % p)


def strip_tail(s):
    """Remove metadata attachments."""
    i = s.find(', !dbg ')
    line = None
    if i >= 0:
        m = re.search(r', !dbg !(\d+)', s)
        line = int(m.group(1))
        s = s[:i]
    i = s.find(', !llvm.loop')
    if i >= 0:
        s = s[:i]
    i = s.find(', !srcloc')
    if i >= 0:
        s = s[:i]
    s = re.sub(r', !(?:tbaa|heapallocsite|nosanitize|prof) !\d+', '', s)
    s = re.sub(r', !nosanitize !\d+', '', s)
    return s, line


class Module:
    def __init__(self, text):
        self.structs = {}
        self.globals = {}
        self.funcs = {}
        self.decls = {}
        self.md = {}
        self.strings = {}
        self._dw = None
        self.parse(text)

    # ------------------------------------------------------------ parsing
    def parse(self, text):
        lines = text.split('\n')
        i = 0
        n = len(lines)
        while i < n:
            s = lines[i]
            i += 1
            if not s or s[0] == ';':
                continue
            if s[0] == '%':
                m = re.match(r'%("?)([^"]*?)\1 = type (.*)$', s)
                body = m.group(3)
                p = P(tokenize(body), self)
                t = p.type()
                if isinstance(t, Struct):
                    self.structs[m.group(2)] = t
                continue
            if s[0] == '@':
                self.parse_global(s)
                continue
            if s.startswith('define'):
                f = self.parse_header(s)
                if 'local_unnamed' in s:
                    pass
                cur = None
                while True:
                    s = lines[i]
                    i += 1
                    if s == '}':
                        break
                    if not s.strip() or s.lstrip().startswith(';'):
                        continue
                    m = re.match(r'("[^"]*"|[-a-zA-Z$._0-9]+):', s)
                    if m and not s.startswith(' '):
                        cur = m.group(1).strip('"')
                        f.blocks[cur] = []
                        f.order.append(cur)
                        continue
                    if cur is None:
                        cur = 'entry0'
                        f.blocks[cur] = []
                        f.order.append(cur)
                    # switch spans several lines
                    if re.match(r'\s+switch ', s):
                        while ']' not in s:
                            s += ' ' + lines[i].strip()
                            i += 1
                    f.blocks[cur].append(s.strip())
                self.funcs[f.name] = f
                continue
            if s.startswith('declare'):
                m = re.search(r'@("?)([^"(]*)\1\(', s)
                self.decls[m.group(2)] = s
                continue
            if s[0] == '!':
                m = re.match(r'!(\d+) = (?:distinct )?(.*)$', s)
                if m:
                    self.md[int(m.group(1))] = m.group(2)
        for f in self.funcs.values():
            for b in f.order:
                f.blocks[b] = [x for x in (self.parse_instr(l) for l in f.blocks[b]) if x is not None]

    def parse_global(self, s):
        m = re.match(r'@("?)([^"]*?)\1 = (.*)$', s)
        name, rest = m.group(2), m.group(3)
        tls = 'thread_local' in rest.split('{')[0].split('[')[0]
        m2 = re.match(r'.*?\b(global|constant) (.*)$', rest)
        if not m2:
            return
        const = m2.group(1) == 'constant'
        body, _ = strip_tail(m2.group(2))
        try:
            toks = tokenize(body)
            p = P(toks, self)
            ty = p.type()
            init = None
            if p.i < len(toks) and p.peek() != ',':
                k, v = toks[p.i]
                if k == 'str':
                    self.strings[name] = v
                init = p.value(ty)
        except Unsupported:
            ty, init = Other('?'), None
        al = re.search(r', align (\d+)', body)
        self.globals[name] = (ty, init, const, tls, int(al.group(1)) if al else 1)

    def parse_header(self, s):
        m = re.search(r'@("?)([^"(]*)\1\(', s)
        name = m.group(2)
        pre = s[len('define'):m.start()]
        p = P(tokenize(pre), self)
        p.skip_attrs()
        ret = p.type()
        # params
        d, j = 1, m.end()
        st = j
        while d:
            c = s[j]
            d += (c == '(') - (c == ')')
            j += 1
        toks = tokenize(s[st:j - 1])
        q = P(toks, self)
        params = []
        f = Function(name, ret, params)
        while q.i < len(toks):
            if q.peek() == '...':
                f.varargs = True
                break
            t = q.type()
            q.skip_attrs()
            if q.kind() == 'loc':
                params.append((t, q.next()[1:].strip('"')))
            else:
                params.append((t, str(len(params))))
            if not q.accept(','):
                break
        return f

    def parse_instr(self, s):
        raw = s
        s, dbg = strip_tail(s)
        if 'call void @llvm.dbg.' in s or s.startswith('#dbg'):
            return None
        try:
            return self._parse_instr(s, dbg, raw)
        except Unsupported as e:
            return Instr('unsupported', x=str(e), line=dbg, text=raw)

    def _parse_instr(self, s, dbg, raw):
        p = P(tokenize(s), self)
        res = None
        if p.kind() == 'loc' and p.peek(1) == '=':
            res = p.next()[1:].strip('"')
            p.next()
        op = p.next()
        if op in ('tail', 'musttail', 'notail'):
            op = p.next()
        I = lambda **k: Instr(op, res, line=dbg, text=raw, **k)
        if op == 'alloca':
            t = p.type()
            x = None
            if p.accept(','):
                if p.peek() != 'align':
                    ct = p.type()
                    x = (ct, p.value(ct))
            return I(ty=t, x=x)
        if op == 'load':
            atomic = p.accept('atomic')
            p.accept('volatile')
            t = p.type()
            p.expect(',')
            pt = p.type()
            return I(ty=t, args=[p.value(pt)], x=atomic)
        if op == 'store':
            atomic = p.accept('atomic')
            p.accept('volatile')
            t = p.type()
            v = p.value(t)
            p.expect(',')
            pt = p.type()
            a = p.value(pt)
            return I(ty=t, args=[v, a], x=atomic)
        if op == 'getelementptr':
            p.accept('inbounds')
            t = p.type()
            p.expect(',')
            ops = []
            while True:
                ot = p.type()
                ops.append((ot, p.value(ot)))
                if not p.accept(','):
                    break
            return I(ty=t, args=ops)
        if op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'):
            fl = set()
            while p.peek() in ('nsw', 'nuw', 'exact', 'disjoint'):
                fl.add(p.next())
            t = p.type()
            a = p.value(t)
            p.expect(',')
            b = p.value(t)
            return I(ty=t, args=[a, b], x=fl)
        if op in ('icmp', 'fcmp'):
            pred = p.next()
            t = p.type()
            a = p.value(t)
            p.expect(',')
            b = p.value(t)
            return I(ty=t, args=[a, b], x=pred)
        if op in ('zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast', 'fptoui', 'fptosi', 'uitofp',
                  'sitofp', 'fpext', 'fptrunc'):
            while p.peek() in ('nneg', 'nuw', 'nsw'):
                p.next()
            t = p.type()
            v = p.value(t)
            p.expect('to')
            t2 = p.type()
            return I(ty=t, args=[v], x=t2)
        if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem', 'fneg'):
            t = p.type()
            return I(ty=t)
        if op == 'br':
            if p.peek() == 'label':
                p.next()
                return I(args=[p.next()[1:].strip('"')])
            t = p.type()
            v = p.value(t)
            p.expect(',')
            p.expect('label')
            a = p.next()[1:].strip('"')
            p.expect(',')
            p.expect('label')
            b = p.next()[1:].strip('"')
            return I(x=v, args=[a, b])
        if op == 'switch':
            t = p.type()
            v = p.value(t)
            p.expect(',')
            p.expect('label')
            d = p.next()[1:].strip('"')
            p.expect('[')
            cases = []
            while not p.accept(']'):
                ct = p.type()
                c = p.value(ct)
                p.expect(',')
                p.expect('label')
                cases.append((c, p.next()[1:].strip('"')))
            return I(ty=t, x=(v, d, cases))
        if op == 'ret':
            t = p.type()
            if isinstance(t, Void):
                return I(ty=t)
            return I(ty=t, args=[p.value(t)])
        if op == 'unreachable':
            return I()
        if op == 'select':
            ct = p.type()
            c = p.value(ct)
            p.expect(',')
            t = p.type()
            a = p.value(t)
            p.expect(',')
            t2 = p.type()
            b = p.value(t2)
            return I(ty=t, args=[c, a, b])
        if op == 'phi':
            t = p.type()
            inc = []
            while True:
                p.expect('[')
                v = p.value(t)
                p.expect(',')
                l = p.next()[1:].strip('"')
                p.expect(']')
                inc.append((v, l))
                if not p.accept(','):
                    break
            return I(ty=t, args=inc)
        if op == 'call':
            p.skip_attrs()
            t = p.type()
            if p.peek() == '(':
                p.parens()     # explicit function type (varargs)
            k = p.kind()
            if p.peek() == 'asm':
                return I(ty=t, x=('asm', raw))
            callee = p.value(PTR)
            p.expect('(')
            args = []
            while not p.accept(')'):
                at = p.type()
                p.skip_attrs()
                if isinstance(at, Other):
                    # metadata argument
                    d = 0
                    while not (d == 0 and p.peek() in (',', ')')):
                        v = p.next()
                        d += (v == '(') - (v == ')')
                    args.append((at, ('undef',)))
                else:
                    args.append((at, p.value(at)))
                p.accept(',')
            return I(ty=t, x=callee, args=args)
        if op == 'cmpxchg':
            weak = p.accept('weak')
            p.accept('volatile')
            pt = p.type()
            a = p.value(pt)
            p.expect(',')
            t = p.type()
            e = p.value(t)
            p.expect(',')
            t2 = p.type()
            nv = p.value(t2)
            return I(ty=t, args=[a, e, nv], x=weak)
        if op == 'atomicrmw':
            p.accept('volatile')
            o = p.next()
            pt = p.type()
            a = p.value(pt)
            p.expect(',')
            t = p.type()
            v = p.value(t)
            return I(ty=t, args=[a, v], x=o)
        if op == 'extractvalue':
            t = p.type()
            v = p.value(t)
            p.expect(',')
            return I(ty=t, args=[v], x=int(p.next()))
        if op == 'insertvalue':
            t = p.type()
            v = p.value(t)
            p.expect(',')
            t2 = p.type()
            e = p.value(t2)
            p.expect(',')
            return I(ty=t, args=[v, e], x=int(p.next()))
        if op == 'fence':
            return I()
        if op == 'freeze':
            t = p.type()
            return I(ty=t, args=[p.value(t)])
        raise Unsupported('instruction ' + op)

    # ------------------------------------------------------------ layout
    def resolve(self, t):
        if isinstance(t, Struct) and t.elems is None:
            r = self.structs.get(t.name)
            if r is None:
                raise Unsupported('opaque struct ' + str(t.name))
            return r
        return t

    def align(self, t):
        t = self.resolve(t)
        if isinstance(t, Int):
            b = 1
            while b * 8 < t.n:
                b *= 2
            return min(b, 16)
        if isinstance(t, Ptr):
            return 8
        if isinstance(t, Float):
            return {32: 4, 64: 8, 80: 16}[t.n]
        if isinstance(t, Arr):
            return self.align(t.t)
        if isinstance(t, Struct):
            if t.packed:
                return 1
            return max([1] + [self.align(e) for e in t.elems])
        raise Unsupported('align ' + repr(t))

    def sizeof(self, t):
        t = self.resolve(t)
        if isinstance(t, Int):
            b = 1
            while b * 8 < t.n:
                b *= 2
            return b
        if isinstance(t, Ptr):
            return 8
        if isinstance(t, Float):
            return {32: 4, 64: 8, 80: 16}[t.n]
        if isinstance(t, Arr):
            return t.n * self.sizeof(t.t)
        if isinstance(t, Struct):
            o = 0
            for e in t.elems:
                if not t.packed:
                    a = self.align(e)
                    o = (o + a - 1) // a * a
                o += self.sizeof(e)
            a = self.align(t)
            return (o + a - 1) // a * a
        raise Unsupported('sizeof ' + repr(t))

    def offset(self, t, idx):
        t = self.resolve(t)
        o = 0
        for i, e in enumerate(t.elems):
            if not t.packed:
                a = self.align(e)
                o = (o + a - 1) // a * a
            if i == idx:
                return o, e
            o += self.sizeof(e)
        raise Unsupported('field index')

    # ------------------------------------------------------------ DWARF
    def _mdf(self, n):
        s = self.md[n]
        d = {'_': s.split('(')[0]}
        for m in re.finditer(r'(\w+): ("(?:[^"\\]|\\.)*"|!\d+|[-\w]+)', s):
            v = m.group(2)
            if v[0] == '!':
                v = int(v[1:])
                d[m.group(1)] = ('md', v)
            else:
                d[m.group(1)] = v.strip('"')
        return d

    def dw(self):
        if self._dw is None:
            self._dw = {}
            self.enums = {}
            for n, s in self.md.items():
                if s.startswith('!DICompositeType'):
                    d = self._mdf(n)
                    if d.get('tag') in ('DW_TAG_structure_type', 'DW_TAG_union_type') and 'name' in d and 'elements' in d:
                        self._dw.setdefault(d['name'], n)
                elif s.startswith('!DIDerivedType'):
                    d = self._mdf(n)
                    if d.get('tag') == 'DW_TAG_typedef' and 'baseType' in d:
                        self._dw.setdefault(d['name'], n)
                elif s.startswith('!DIEnumerator'):
                    d = self._mdf(n)
                    self.enums[d['name']] = int(d['value'])
        return self._dw

    def enum(self, name):
        self.dw()
        if name not in self.enums:
            raise Unsupported('no enumerator ' + name)
        return self.enums[name]

    def _strip(self, n):
        while True:
            d = self._mdf(n)
            if d['_'] == '!DIDerivedType' and d.get('tag') in ('DW_TAG_typedef', 'DW_TAG_const_type',
                                                               'DW_TAG_volatile_type', 'DW_TAG_restrict_type',
                                                               'DW_TAG_atomic_type'):
                n = d['baseType'][1]
                continue
            return n, d

    def struct_size(self, name):
        n = self.dw().get(name)
        if n is None:
            raise Unsupported('no struct ' + name)
        n, d = self._strip(n)
        return int(d['size']) // 8

    def field(self, sname, path):
        """-> (offset, size in bytes) of a C field path such as 'slabs.stats.used' or 'a[3].b'."""
        key = (sname, path)
        c = self.__dict__.setdefault('_fcache', {})
        if key in c:
            return c[key]
        n = self.dw().get(sname)
        if n is None:
            raise Unsupported('no struct ' + sname)
        n, d = self._strip(n)
        off = 0
        for part in re.findall(r'[A-Za-z_]\w*|\[\d+\]', path):
            if part[0] == '[':
                d2 = self._mdf(n)
                base, bd = self._strip(d2['baseType'][1])
                off += int(part[1:-1]) * self._mdsize(base)
                n = base
                continue
            r = self._member(n, part)
            if r is None:
                raise Unsupported('no field %s in %s' % (path, sname))
            o, n = r
            off += o
        size = self._mdsize(n)
        c[key] = (off, size)
        return c[key]

    def _mdsize(self, n):
        n, d = self._strip(n)
        return int(d.get('size', 64)) // 8

    def _member(self, n, name):
        n, d = self._strip(n)
        if 'elements' not in d or d['elements'] == 'null':
            return None
        el = [int(x) for x in re.findall(r'!(\d+)', self.md[d['elements'][1]])]
        for e in el:
            m = self._mdf(e)
            if m.get('tag') != 'DW_TAG_member':
                continue
            o = int(m.get('offset', '0')) // 8
            bt, _ = self._strip(m['baseType'][1])
            if m.get('name') == name:
                return o, bt
            if 'name' not in m:
                r = self._member(bt, name)
                if r is not None:
                    return o + r[0], r[1]
        return None

    def fields(self, sname):
        """Leaf fields of a struct: list of (path, offset, size)."""
        n = self.dw().get(sname)
        if n is None:
            raise Unsupported('no struct ' + sname)
        out = []

        def walk(n, pre, off):
            n, d = self._strip(n)
            if d['_'] == '!DICompositeType' and d['tag'] == 'DW_TAG_array_type':
                out.append((pre, off, int(d['size']) // 8))
                return
            if d['_'] == '!DICompositeType' and d['tag'] in ('DW_TAG_structure_type', 'DW_TAG_union_type'):
                el = [int(x) for x in re.findall(r'!(\d+)', self.md[d['elements'][1]])]
                for e in el:
                    m = self._mdf(e)
                    if m.get('tag') != 'DW_TAG_member':
                        continue
                    walk(m['baseType'][1], (pre + '.' if pre else '') + m.get('name', ''), off + int(m.get('offset', '0')) // 8)
                return
            out.append((pre, off, int(d.get('size', 64)) // 8))
        walk(n, '', 0)
        return out

    def src_line(self, dbg):
        seen = 0
        if dbg is None or dbg not in self.md:
            return None
        m = re.search(r'line: (\d+)', self.md[dbg])
        return int(m.group(1)) if m else None
