"""Parser for the textual LLVM IR (clang 18, opaque pointers) that irgen produces from /repo's sources."""
import re, struct
from fractions import Fraction

TOK = re.compile(r'''
   \s+ | ;[^\n]* |
   (?P<str>c?"(?:[^"\\]|\\.)*") |
   (?P<loc>%(?:"[^"]*"|[-\w$.]+)) |
   (?P<glob>@(?:"[^"]*"|[-\w$.]+)) |
   (?P<meta>!(?:[-\w$.\\]+)?) |
   (?P<attr>\#\d+) |
   (?P<hex>0x[KMLHR]?[0-9A-Fa-f]+) |
   (?P<num>-?\d+(?:\.\d+(?:[eE][-+]?\d+)?)?) |
   (?P<dots>\.\.\.) |
   (?P<id>[A-Za-z_$.][-\w$.]*) |
   (?P<p>[()\[\]{}<>,=*:|])
''', re.X)


def tokenize(s):
    out = []
    pos = 0
    n = len(s)
    while pos < n:
        m = TOK.match(s, pos)
        if not m:
            raise SyntaxError("token at %r" % s[pos:pos + 60])
        pos = m.end()
        k = m.lastgroup
        if k is None:
            continue
        t = m.group(k)
        if k in ('loc', 'glob') and t[1] == '"':
            t = t[0] + t[2:-1]
        out.append((k, t))
    return out


# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ('k', 'a', 'b', '_sz')

    def __init__(self, k, a=None, b=None):
        self.k, self.a, self.b, self._sz = k, a, b, None

    def __repr__(self):
        if self.k == 'int':
            return 'i%d' % self.a
        if self.k in ('array', 'vector'):
            return '[%d x %r]' % (self.a, self.b)
        if self.k == 'named':
            return '%' + self.a
        if self.k == 'struct':
            return '{%s}' % ','.join(map(repr, self.a))
        return self.k


T_PTR, T_VOID, T_DOUBLE, T_FLOAT, T_LABEL, T_META, T_X86 = (Ty('ptr'), Ty('void'), Ty('double'), Ty('float'),
                                                             Ty('label'), Ty('metadata'), Ty('x86_fp80'))
SIMPLE = {'ptr': T_PTR, 'void': T_VOID, 'double': T_DOUBLE, 'float': T_FLOAT, 'label': T_LABEL,
          'metadata': T_META, 'x86_fp80': T_X86, 'token': Ty('token')}
_ints = {}


def IntTy(n):
    if n not in _ints:
        _ints[n] = Ty('int', n)
    return _ints[n]


PARAM_ATTRS = {'noundef', 'nonnull', 'zeroext', 'signext', 'align', 'dereferenceable', 'dereferenceable_or_null',
               'returned', 'nocapture', 'readonly', 'writeonly', 'readnone', 'noalias', 'sret', 'byval', 'inreg',
               'immarg', 'nest', 'swiftself', 'allocptr', 'noreturn', 'nounwind', 'fastcc', 'ccc', 'tail', 'musttail',
               'notail', 'allocalign', 'writable', 'dead_on_unwind', 'captures', 'range', 'noext'}


class Inst:
    __slots__ = ('op', 'res', 'ty', 'args', 'x', 'line', 'dbg')

    def __init__(self, op, res=None, ty=None, args=(), x=None, line=None, dbg=None):
        self.op, self.res, self.ty, self.args, self.x, self.line, self.dbg = op, res, ty, args, x, line, dbg

    def __repr__(self):
        return '%s = %s %r %r %r' % (self.res, self.op, self.ty, self.args, self.x)


class Const:
    """Constant operand. kind: int,float,null,undef,zero,global,gep,agg,other"""
    __slots__ = ('kind', 'v', 'ty', 'x')

    def __init__(self, kind, v=None, ty=None, x=None):
        self.kind, self.v, self.ty, self.x = kind, v, ty, x

    def __repr__(self):
        return 'C(%s,%r)' % (self.kind, self.v)


class Local:
    __slots__ = ('n',)

    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return '%' + self.n


class Block:
    __slots__ = ('name', 'insts', 'preds')

    def __init__(self, name):
        self.name, self.insts, self.preds = name, [], []


class Func:
    def __init__(self, name, ret, params, mod):
        self.name, self.ret, self.params, self.mod = name, ret, params, mod
        self.blocks = {}
        self.order = []
        self.dbg = None
        self._loops = None
        self.raw = None

    def parse_body(self):
        if self.raw is not None:
            raw, self.raw = self.raw, None
            _parse_body(self, raw)


class P:
    """token stream"""
    def __init__(self, toks, mod):
        self.t, self.i, self.mod = toks, 0, mod

    def peek(self, o=0):
        return self.t[self.i + o][1] if self.i + o < len(self.t) else None

    def kind(self, o=0):
        return self.t[self.i + o][0] if self.i + o < len(self.t) else None

    def next(self):
        r = self.t[self.i]
        self.i += 1
        return r[1]

    def accept(self, s):
        if self.peek() == s and self.kind() != 'str':
            self.i += 1
            return True
        return False

    def expect(self, s):
        if not self.accept(s):
            raise SyntaxError('expected %r got %r at %r' % (s, self.peek(), [x[1] for x in self.t[max(0, self.i - 8):self.i + 8]]))

    def at_type(self):
        k, v = self.kind(), self.peek()
        if k == 'id':
            return v in SIMPLE or re.fullmatch(r'i\d+', v) is not None
        if k == 'loc':
            return True
        return v in ('[', '{', '<')

    def type(self):
        k, v = self.kind(), self.next()
        if k == 'id':
            if v in SIMPLE:
                t = SIMPLE[v]
                if v == 'ptr' and self.peek() == 'addrspace':
                    self.next(); self.skip_paren()
            elif re.fullmatch(r'i\d+', v):
                t = IntTy(int(v[1:]))
            elif v == 'opaque':
                t = Ty('opaque')
            else:
                raise SyntaxError('type ' + v)
        elif k == 'loc':
            t = Ty('named', v[1:])
        elif v == '[':
            n = int(self.next()); self.expect('x')
            t = Ty('array', n, self.type()); self.expect(']')
        elif v == '{':
            t = Ty('struct', self.tylist('}'), False)
        elif v == '<':
            if self.accept('{'):
                t = Ty('struct', self.tylist('}'), True); self.expect('>')
            else:
                n = int(self.next()); self.expect('x')
                t = Ty('vector', n, self.type()); self.expect('>')
        else:
            raise SyntaxError('type tok %r' % v)
        # function type suffix
        if self.peek() == '(' and self.kind() == 'p' and self._functype_ahead():
            self.next()
            while not self.accept(')'):
                if self.accept('...'):
                    continue
                self.type(); self.accept(',')
        return t

    def _functype_ahead(self):
        # "T (T, T, ...)" directly followed by a callee: only used for vararg calls
        j, d = self.i, 0
        while True:
            v = self.t[j][1]
            if v == '(':
                d += 1
            elif v == ')':
                d -= 1
                if d == 0:
                    break
            j += 1
        return j + 1 < len(self.t) and self.t[j + 1][0] in ('glob', 'loc')

    def tylist(self, end):
        r = []
        while not self.accept(end):
            r.append(self.type()); self.accept(',')
        return tuple(r)

    def skip_paren(self):
        self.expect('(')
        d = 1
        while d:
            v = self.next()
            if v == '(':
                d += 1
            elif v == ')':
                d -= 1

    def attrs(self):
        sret = None
        while self.kind() in ('id', 'str', 'attr') and (self.kind() != 'id' or self.peek() in PARAM_ATTRS):
            v = self.next()
            if v == 'align' and self.kind() == 'num':
                self.next()
            elif v in ('sret', 'byval') and self.peek() == '(':
                sret = v
                self.skip_paren()
            elif self.peek() == '(' and v in ('dereferenceable', 'dereferenceable_or_null', 'range', 'captures'):
                self.skip_paren()
        return sret

    # value of given type
    def value(self, ty):
        k, v = self.kind(), self.next()
        if k == 'loc':
            return Local(v[1:])
        if k == 'glob':
            return Const('global', v[1:], ty)
        if k == 'num':
            if ty.k == 'int':
                return Const('int', int(v), ty)
            return Const('float', Fraction(float(v)), ty)
        if k == 'hex':
            return Const('float', parse_hexfloat(v), ty)
        if k == 'str':
            return Const('agg', v, ty)
        if k == 'id':
            if v == 'true':
                return Const('int', 1, ty)
            if v == 'false':
                return Const('int', 0, ty)
            if v in ('null',):
                return Const('null', None, ty)
            if v in ('undef', 'poison'):
                return Const('undef', None, ty)
            if v == 'zeroinitializer':
                return Const('zero', None, ty)
            if v == 'none':
                return Const('null', None, ty)
            if v == 'getelementptr':
                while self.kind() == 'id' and self.peek() in ('inbounds', 'nuw', 'nusw'):
                    self.next()
                self.expect('(')
                base = self.type(); self.expect(',')
                ops = []
                while True:
                    self.accept('inrange')
                    t = self.type()
                    ops.append((t, self.value(t)))
                    if not self.accept(','):
                        break
                self.expect(')')
                return Const('gep', base, ty, ops)
            if v in ('inttoptr', 'ptrtoint', 'bitcast', 'trunc', 'zext', 'sext', 'addrspacecast'):
                self.expect('('); t = self.type(); x = self.value(t); self.expect('to'); t2 = self.type(); self.expect(')')
                return Const('cast', v, t2, (t, x))
            if v in ('sub', 'add', 'mul', 'xor', 'and', 'or', 'shl', 'icmp', 'select', 'lshr'):
                while self.kind() == 'id':
                    self.next()
                self.skip_paren()
                return Const('other', v, ty)
            raise SyntaxError('value id ' + v)
        if v in ('{', '[', '<'):
            end = {'{': '}', '[': ']', '<': '>'}[v]
            packed = False
            if v == '<' and self.accept('{'):
                packed, end = True, '}'
            elts = []
            while not self.accept(end):
                t = self.type()
                elts.append((t, self.value(t)))
                self.accept(',')
            if packed:
                self.expect('>')
            return Const('agg', elts, ty)
        if k == 'meta':
            # metadata operand: skip to end of operand
            if self.peek() == '(':
                self.skip_paren()
            return Const('meta', v, ty)
        raise SyntaxError('value %r %r' % (k, v))

    def tvalue(self):
        t = self.type()
        if t is T_META:
            if self.at_type():
                t2 = self.type()
                return t, self.value(t2)
            return t, self.value(t)
        self.attrs()
        return t, self.value(t)


def parse_hexfloat(h):
    if h[2] in 'K':
        raw = int(h[3:], 16)
        se, mant = raw >> 64, raw & ((1 << 64) - 1)
        sign = -1 if se >> 15 else 1
        e = se & 0x7fff
        if mant == 0:
            return Fraction(0)
        return sign * Fraction(mant) * Fraction(2) ** (e - 16383 - 63)
    raw = int(h, 16)
    d = struct.unpack('>d', raw.to_bytes(8, 'big'))[0]
    if d != d:
        return 'nan'
    if d in (float('inf'), float('-inf')):
        return 'inf' if d > 0 else '-inf'
    return Fraction(d)


class Module:
    def __init__(self, path):
        self.path = path
        self.types = {}
        self.globals = {}      # name -> (type, init Const or None, const?)
        self.aliases = {}
        self.funcs = {}
        self.decls = {}
        self.meta = {}         # !N -> raw text
        self._di = None
        self.attrs = {}
        self._parse(open(path).read())

    # ---- layout
    def sizeof(self, t):
        if t._sz:
            return t._sz[0]
        t._sz = self._size(t)
        return t._sz[0]

    def alignof(self, t):
        self.sizeof(t)
        return t._sz[1]

    def _size(self, t):
        k = t.k
        if k == 'int':
            b = max(1, (t.a + 7) // 8)
            p = 1
            while p < b:
                p *= 2
            return (p, min(p, 8))
        if k == 'ptr':
            return (8, 8)
        if k == 'double':
            return (8, 8)
        if k == 'float':
            return (4, 4)
        if k == 'x86_fp80':
            return (16, 16)
        if k == 'array':
            return (t.a * self.sizeof(t.b), self.alignof(t.b))
        if k == 'vector':
            return (t.a * self.sizeof(t.b), t.a * self.sizeof(t.b))
        if k == 'named':
            u = self.types[t.a]
            return (self.sizeof(u), self.alignof(u))
        if k == 'struct':
            off, al = 0, 1
            for e in t.a:
                s, a = self.sizeof(e), (1 if t.b else self.alignof(e))
                off = (off + a - 1) // a * a + s
                al = max(al, a)
            return ((off + al - 1) // al * al, al)
        if k == 'opaque':
            return (0, 1)
        raise SyntaxError('sizeof %r' % t)

    def resolve(self, t):
        while t.k == 'named':
            t = self.types[t.a]
        return t

    def field_off(self, t, i):
        t = self.resolve(t)
        off = 0
        for j, e in enumerate(t.a):
            a = 1 if t.b else self.alignof(e)
            off = (off + a - 1) // a * a
            if j == i:
                return off, e
            off += self.sizeof(e)
        raise IndexError(i)

    # ---- parsing
    def _parse(self, text):
        lines = text.split('\n')
        i, n = 0, len(lines)
        while i < n:
            ln = lines[i]
            i += 1
            if not ln or ln[0] == ';':
                continue
            c = ln[0]
            if c == '%':
                m = re.match(r'%("[^"]*"|[-\w$.]+) = type (.*)', ln)
                nm = m.group(1).strip('"')
                self.types[nm] = P(tokenize(m.group(2)), self).type()
            elif c == '@':
                self._global(ln)
            elif ln.startswith('define'):
                body = []
                while lines[i] != '}':
                    body.append(lines[i]); i += 1
                i += 1
                self._define(ln, body)
            elif ln.startswith('declare'):
                m = re.search(r'@("[^"]*"|[-\w$.]+)\(', ln)
                self.decls[m.group(1).strip('"')] = ln
            elif ln.startswith('attributes'):
                m = re.match(r'attributes (#\d+) = \{(.*)\}', ln)
                self.attrs[m.group(1)] = m.group(2)
            elif c == '!':
                m = re.match(r'(!\d+) = (?:distinct )?(.*)', ln)
                if m:
                    self.meta[m.group(1)] = m.group(2)

    def _global(self, ln):
        m = re.match(r'@("[^"]*"|[-\w$.]+) = (.*)', ln)
        nm = m.group(1).strip('"')
        rest = m.group(2)
        self.globals[nm] = rest   # lazily parsed

    def global_init(self, nm):
        g = self.globals.get(nm)
        if g is None:
            return None
        if isinstance(g, tuple):
            return g
        rest = g
        m = re.search(r'\b(alias|global|constant)\b', rest)
        kind = m.group(1)
        ext = 'external' in rest[:m.start()] or 'extern_weak' in rest[:m.start()]
        p = P(tokenize(rest[m.end():]), self)
        ty = p.type()
        init = None
        if kind == 'alias':
            p.expect(',')
            p.type()
            init = p.value(T_PTR)
            r = (ty, init, 'alias')
        else:
            if not ext:
                init = p.value(ty)
            r = (ty, init, kind)
        self.globals[nm] = r
        return r

    def _define(self, ln, body):
        m = re.search(r'@("[^"]*"|[-\w$.]+)\(', ln)
        nm = m.group(1).strip('"')
        toks = tokenize(ln)
        # find '@name' token
        j = next(k for k, t in enumerate(toks) if t[0] == 'glob')
        p = P(toks, self)
        p.i = 1
        # skip linkage words until type
        while True:
            if p.kind() in ('id',) and not (p.peek() in SIMPLE or re.fullmatch(r'i\d+', p.peek())):
                v = p.next()
                if p.peek() == '(' :
                    p.skip_paren()
                elif v == 'align':
                    p.next()
                continue
            break
        ret = p.type()
        p.i = j + 1
        p.expect('(')
        params = []
        while not p.accept(')'):
            if p.accept('...'):
                continue
            t = p.type()
            sret = p.attrs()
            name = p.next()[1:] if p.kind() == 'loc' else str(len(params))
            params.append((t, name, sret))
            p.accept(',')
        f = Func(nm, ret, params, self)
        mm = re.search(r'!dbg (!\d+)', ln)
        f.dbg = mm.group(1) if mm else None
        f.linkonce = 'linkonce' in ln.split('@')[0]
        f.raw = body
        self.funcs[nm] = f


DBG = re.compile(r', !dbg (!\d+)')


def _join_lines(body):
    """switch and landingpad instructions span several lines"""
    out = []
    i = 0
    while i < len(body):
        ln = body[i]
        s = ln.strip()
        if s.startswith('switch') and s.endswith('['):
            while not body[i].strip().startswith(']'):
                i += 1
                ln += ' ' + body[i].strip()
        elif ' landingpad ' in s or s.startswith('landingpad'):
            while i + 1 < len(body) and re.match(r'\s+(cleanup|catch|filter)\b', body[i + 1]):
                i += 1
                ln += ' ' + body[i].strip()
        elif re.match(r'(%\S+ = )?invoke ', s) and ' unwind label ' not in s:
            i += 1
            ln += ' ' + body[i].strip()
        out.append(ln)
        i += 1
    return out


BINOPS = {'add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor',
          'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CASTS = {'trunc', 'zext', 'sext', 'fptrunc', 'fpext', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'ptrtoint', 'inttoptr',
         'bitcast', 'addrspacecast'}
FLAGS = {'nsw', 'nuw', 'exact', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'inbounds',
         'volatile', 'disjoint', 'nneg'}


def _parse_body(f, body):
    cur = None
    for ln in _join_lines(body):
        s = ln.strip()
        if not s or s[0] == ';':
            continue
        if ln[0] != ' ':
            m = re.match(r'("[^"]*"|[-\w$.]+):', ln)
            if m:
                cur = Block(m.group(1).strip('"'))
                f.blocks[cur.name] = cur
                f.order.append(cur.name)
                continue
        if 'llvm.dbg.' in s:
            continue
        if cur is None:
            # unnamed entry block
            cur = Block('entry$')
            f.blocks[cur.name] = cur
            f.order.append(cur.name)
        m = DBG.search(s)
        dbg = m.group(1) if m else None
        if m:
            s = s[:m.start()] + s[m.end():]
        s = re.sub(r'(, ![a-zA-Z.]+ !\d+)+$', '', s)
        cur.insts.append(_parse_inst(s, f, dbg))
    # numbered unnamed values and blocks keep their printed numbers; compute preds
    for b in f.blocks.values():
        if not b.insts: raise SyntaxError("empty block %s in %s" % (b.name, f.name))
        t = b.insts[-1]
        for s in succs(t):
            f.blocks[s].preds.append(b.name)


def succs(t):
    if t.op == 'br':
        return [t.x] if isinstance(t.x, str) else list(t.x)
    if t.op == 'switch':
        return [t.x[0]] + [l for _, l in t.x[1]]
    if t.op == 'invoke':
        return [t.x['normal'], t.x['unwind']]
    return []


def _label(p):
    p.expect('label')
    return p.next()[1:]


def _parse_inst(s, f, dbg):
    p = P(tokenize(s), f.mod)
    res = None
    if p.kind() == 'loc' and p.peek(1) == '=':
        res = p.next()[1:]
        p.next()
    op = p.next()
    while op in ('tail', 'musttail', 'notail'):
        op = p.next()
    I = lambda ty=None, args=(), x=None: Inst(op, res, ty, args, x, s, dbg)
    fl = set()

    def flags():
        while p.kind() == 'id' and p.peek() in FLAGS:
            fl.add(p.next())
    if op in BINOPS:
        flags()
        t = p.type(); a = p.value(t); p.expect(','); b = p.value(t)
        return I(t, (a, b), fl)
    if op == 'fneg':
        flags(); t = p.type(); return I(t, (p.value(t),))
    if op in ('icmp', 'fcmp'):
        flags()
        pred = p.next(); t = p.type(); a = p.value(t); p.expect(','); b = p.value(t)
        return I(t, (a, b), pred)
    if op in CASTS:
        flags()
        t = p.type(); a = p.value(t); p.expect('to'); t2 = p.type()
        return I(t2, (a,), t)
    if op == 'load':
        flags(); p.accept('atomic'); t = p.type(); p.expect(','); pt = p.type(); a = p.value(pt)
        return I(t, (a,))
    if op == 'store':
        flags(); t = p.type(); v = p.value(t); p.expect(','); pt = p.type(); a = p.value(pt)
        return I(t, (v, a))
    if op == 'getelementptr':
        flags()
        base = p.type(); p.expect(',')
        ops = []
        while True:
            t = p.type(); ops.append((t, p.value(t)))
            if not p.accept(','):
                break
        return I(base, tuple(ops))
    if op == 'alloca':
        t = p.type()
        n = None
        if p.accept(','):
            if p.peek() != 'align':
                tt = p.type(); n = p.value(tt)
        return I(t, (), n)
    if op == 'br':
        if p.peek() == 'label':
            return I(None, (), _label(p))
        t = p.type(); c = p.value(t); p.expect(','); a = _label(p); p.expect(','); b = _label(p)
        return I(None, (c,), (a, b))
    if op == 'switch':
        t = p.type(); v = p.value(t); p.expect(','); d = _label(p); p.expect('[')
        cases = []
        while not p.accept(']'):
            ct = p.type(); cv = p.value(ct); p.expect(','); cases.append((cv.v, _label(p)))
        return I(t, (v,), (d, cases))
    if op == 'phi':
        flags()
        t = p.type()
        inc = []
        while True:
            p.expect('['); v = p.value(t); p.expect(','); l = p.next()[1:]; p.expect(']')
            inc.append((v, l))
            if not p.accept(','):
                break
        return I(t, (), inc)
    if op == 'select':
        flags()
        ct, c = p.tvalue(); p.expect(','); t, a = p.tvalue(); p.expect(','); _, b = p.tvalue()
        return I(t, (c, a, b))
    if op == 'ret':
        t = p.type()
        if t is T_VOID:
            return I(t)
        return I(t, (p.value(t),))
    if op in ('unreachable',):
        return I()
    if op in ('call', 'invoke'):
        flags()
        p.attrs()
        while p.kind() == 'id' and not p.at_type():
            p.next()
        rt = p.type()
        k = p.kind()
        if p.peek() == 'asm':
            return I(rt, (), {'callee': Const('other', 'asm'), 'args': []})
        callee = p.value(T_PTR)
        p.expect('(')
        args = []
        while not p.accept(')'):
            t = p.type()
            if t is T_META:
                # skip metadata
                d = 0
                while not (d == 0 and p.peek() in (',', ')')):
                    v = p.next()
                    if v in '({[':
                        d += 1
                    elif v in ')}]':
                        d -= 1
            else:
                p.attrs()
                args.append((t, p.value(t)))
            p.accept(',')
        x = {'callee': callee, 'args': args}
        if op == 'invoke':
            while p.peek() != 'to':
                if p.next() == '[':
                    while p.next() != ']':
                        pass
            p.expect('to')
            x['normal'] = _label(p)
            p.expect('unwind')
            x['unwind'] = _label(p)
        return I(rt, (), x)
    if op == 'landingpad':
        t = p.type()
        cl = []
        cleanup = False
        while p.kind():
            v = p.next()
            if v == 'cleanup':
                cleanup = True
            elif v in ('catch', 'filter'):
                tt = p.type(); cl.append((v, p.value(tt)))
        return I(t, (), (cleanup, cl))
    if op == 'resume':
        t = p.type(); return I(t, (p.value(t),))
    if op == 'extractvalue':
        t = p.type(); v = p.value(t); idx = []
        while p.accept(','):
            idx.append(int(p.next()))
        return I(t, (v,), idx)
    if op == 'insertvalue':
        t = p.type(); v = p.value(t); p.expect(','); t2 = p.type(); w = p.value(t2); idx = []
        while p.accept(','):
            idx.append(int(p.next()))
        return I(t, (v, w), idx)
    if op == 'freeze':
        t = p.type(); return I(t, (p.value(t),))
    return Inst('unsupported', res, None, (), op, s, dbg)
