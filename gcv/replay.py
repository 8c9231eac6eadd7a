"""Concrete mode of the contract layer: lays a state out in memory, calls the compiled function, evaluates the contract."""
import ctypes, os, struct, subprocess, sys, time, math, random, json, hashlib, signal
from concurrent.futures import ThreadPoolExecutor
from fractions import Fraction
import z3
from .sym import *
from . import irgen
sys.set_int_max_str_digits(0)
from .api import Base, View, Snap, Reject, MissingFunction, MissingField, basic_type, array_type

SHIM = r'''
#include <cxxabi.h>
#include <typeinfo>
#include <cstring>
#include <cstdio>
extern "C" int gcv_call(void* fn, int rk, const long* i, const double* d, const long* s, long* ri, double* rd, char* ename)
{
  ename[0] = 0;
  try {
    if (rk == 1) {
      typedef double (*F)(long,long,long,long,long,long,double,double,double,double,double,double,double,double,long,long,long,long,long,long);
      *rd = ((F)fn)(i[0],i[1],i[2],i[3],i[4],i[5],d[0],d[1],d[2],d[3],d[4],d[5],d[6],d[7],s[0],s[1],s[2],s[3],s[4],s[5]);
    } else {
      typedef long (*F)(long,long,long,long,long,long,double,double,double,double,double,double,double,double,long,long,long,long,long,long);
      *ri = ((F)fn)(i[0],i[1],i[2],i[3],i[4],i[5],d[0],d[1],d[2],d[3],d[4],d[5],d[6],d[7],s[0],s[1],s[2],s[3],s[4],s[5]);
    }
    return 0;
  } catch (...) {
    std::type_info* t = abi::__cxa_current_exception_type();
    snprintf(ename, 200, "%s", t ? t->name() : "?");
    return 1;
  }
}
'''


def lib_sources():
    home = irgen.REPO
    mk = 'GUNNS_HOME := %s\nexport GUNNS_HOME\ninclude %s/lib/sources.mk\ninclude %s/lib/sources_omit.mk\ninclude %s/lib/sources_omit_trickless.mk\nprint:\n\t@echo $(SOURCES)\n' % (home, home, home, home)
    r = subprocess.run(['make', '-s', '--no-print-directory', '-f', '-', 'print'], input=mk, capture_output=True, text=True)
    return [os.path.relpath(x, home) for x in r.stdout.split() if x.endswith('.cpp')]


def build_native(extra=()):
    """shared object with the whole library, from /repo's current sources; returns its path"""
    d = os.path.join(irgen.BUILD, 'native')
    os.makedirs(d, exist_ok=True)
    srcs = lib_sources()
    srcs = list(dict.fromkeys(srcs + list(extra)))
    h = hashlib.sha1()
    for s in srcs:
        p = s if s.startswith('/') else os.path.join(irgen.REPO, s)
        h.update(s.encode())
        h.update(open(p, 'rb').read())
    r = subprocess.run("find %s/core %s/aspects %s/ms-utils %s/gunns-ts-models -name '*.hh' -o -name '*.h' | sort | xargs cat" %
                       ((irgen.REPO,) * 4), shell=True, capture_output=True)
    h.update(r.stdout)
    so = os.path.join(d, 'lib-%s.so' % h.hexdigest()[:16])
    if os.path.exists(so):
        return so
    shim = os.path.join(d, 'shim.cpp')
    open(shim, 'w').write(SHIM)

    def comp(s):
        p = s if s.startswith('/') else os.path.join(irgen.REPO, s)
        o = os.path.join(d, hashlib.sha1(s.encode()).hexdigest()[:12] + '.%d.o' % os.getpid())
        r = subprocess.run([irgen.LLVM + '/clang++', '-x', 'c++', '-std=gnu++17', '-Dno_TRICK_ENV=1', '-O0', '-g0', '-w', '-fPIC', '-fno-access-control',
                            '-ffp-contract=off'] + irgen.INCS + ['-c', p, '-o', o], capture_output=True, text=True)
        return (o, None) if r.returncode == 0 else (None, r.stderr[-500:])
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(comp, srcs + [shim]))
    objs = [o for o, e in res if o]
    tmp = so + '.%d' % os.getpid()
    rsp = tmp + '.rsp'
    open(rsp, 'w').write('\n'.join(objs))
    r = subprocess.run(['g++', '-shared', '-o', tmp, '@' + rsp, '-Wl,--allow-multiple-definition', '-Wl,-z,lazy', '-Wl,-Bsymbolic-functions'], capture_output=True, text=True)
    for o in objs:
        os.unlink(o)
    os.unlink(rsp)
    if r.returncode:
        raise RuntimeError('native link failed: ' + r.stderr[-1000:])
    os.rename(tmp, so)
    return so


# ------------------------------------------------------------------ tolerant evaluation
TOL = 1e-7
NEAR = object()


class EvalError(Exception):
    pass


def ev(e, memo):
    """value of a ground term: bool | int | Fraction | float('nan')"""
    k = e.get_id()
    if k in memo:
        return memo[k][0]
    r = _ev(e, memo)
    memo[k] = (r, e)
    return r


def _ev(e, memo):
    if z3.is_int_value(e):
        return e.as_long()
    if z3.is_rational_value(e):
        return Fraction(e.numerator_as_long(), e.denominator_as_long())
    if z3.is_algebraic_value(e):
        return Fraction(e.approx(20).numerator_as_long(), e.approx(20).denominator_as_long())
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    d = e.decl().kind()
    if d == z3.Z3_OP_ITE:
        return ev(e.arg(1), memo) if truth(e.arg(0), memo) else ev(e.arg(2), memo)
    if z3.is_bool(e):
        return truth(e, memo)
    c = [ev(x, memo) for x in e.children()]
    if any(isinstance(x, float) for x in c):
        return float('nan')
    if d == z3.Z3_OP_ADD:
        return sum(c)
    if d == z3.Z3_OP_SUB:
        return c[0] - sum(c[1:])
    if d == z3.Z3_OP_MUL:
        r = c[0]
        for x in c[1:]:
            r = r * x
        return r
    if d == z3.Z3_OP_UMINUS:
        return -c[0]
    if d == z3.Z3_OP_DIV:
        if c[1] == 0:
            return float('nan')
        return Fraction(c[0]) / c[1]
    if d == z3.Z3_OP_IDIV:
        return c[0] // c[1] if c[1] > 0 else -(c[0] // -c[1])
    if d == z3.Z3_OP_MOD:
        return c[0] % abs(c[1])
    if d == z3.Z3_OP_TO_REAL:
        return Fraction(c[0])
    if d == z3.Z3_OP_TO_INT:
        return math.floor(c[0])
    if d == z3.Z3_OP_POWER:
        return Fraction(float(c[0]) ** float(c[1]))
    if d == z3.Z3_OP_UNINTERPRETED:
        n = e.decl().name()
        try:
            x = [float(v) for v in c]
            if n == '$nan':
                return float('nan')
            if n == '$inf':
                return Fraction(10) ** 310
            v = {'sqrt': lambda: math.sqrt(x[0]), 'pow': lambda: math.pow(x[0], x[1]), 'exp': lambda: math.exp(x[0]),
                 'log': lambda: math.log(x[0]), 'log10': lambda: math.log10(x[0]), 'sin': lambda: math.sin(x[0]),
                 'cos': lambda: math.cos(x[0]), 'tan': lambda: math.tan(x[0]), 'acos': lambda: math.acos(x[0]),
                 'asin': lambda: math.asin(x[0]), 'atan': lambda: math.atan(x[0]), 'tanh': lambda: math.tanh(x[0]),
                 'atan2': lambda: math.atan2(x[0], x[1]), 'fmod': lambda: math.fmod(x[0], x[1])}[n]()
            return Fraction(v)
        except (KeyError, ValueError, OverflowError):
            raise EvalError('cannot evaluate %s' % n)
    raise EvalError('cannot evaluate %s' % e.decl())


def cmp_near(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return False
    d = abs(a - b)
    return 0 < d <= Fraction(TOL) * max(1, abs(a), abs(b)) if not isinstance(d, float) else False


def truth(e, memo, pos=True):
    """pos: real comparisons that are nearly ties count as true (False: as false); exact ties are exact"""
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    d = e.decl().kind()
    if d == z3.Z3_OP_AND:
        return all(truth(x, memo, pos) for x in e.children())
    if d == z3.Z3_OP_OR:
        return any(truth(x, memo, pos) for x in e.children())
    if d == z3.Z3_OP_NOT:
        return not truth(e.arg(0), memo, not pos)
    if d == z3.Z3_OP_IMPLIES:
        return (not truth(e.arg(0), memo, not pos)) or truth(e.arg(1), memo, pos)
    if d in (z3.Z3_OP_XOR,):
        return truth(e.arg(0), memo, pos) != truth(e.arg(1), memo, pos)
    if d == z3.Z3_OP_ITE:
        return truth(e.arg(1), memo, pos) if truth(e.arg(0), memo, pos) else truth(e.arg(2), memo, pos)
    if d in (z3.Z3_OP_EQ, z3.Z3_OP_IFF, z3.Z3_OP_DISTINCT) and z3.is_bool(e.arg(0)):
        # decided both ways: near ties satisfy the formula
        l1, l2 = truth(e.arg(0), memo, True), truth(e.arg(0), memo, False)
        r1, r2 = truth(e.arg(1), memo, True), truth(e.arg(1), memo, False)
        eq = (l1 == r1) or (l1 == r2) or (l2 == r1) or (l2 == r2)
        ne = (l1 != r1) or (l2 != r2) or (l1 != r2) or (l2 != r1)
        if d == z3.Z3_OP_DISTINCT:
            return ne if pos else not eq
        return eq if pos else not ne
    a, b = ev(e.arg(0), memo), ev(e.arg(1), memo)
    if isinstance(a, float) or isinstance(b, float):
        return False            # NaN: no comparison holds
    near = cmp_near(a, b)
    if near:
        return pos
    if d == z3.Z3_OP_EQ:
        return a == b
    if d == z3.Z3_OP_DISTINCT:
        return a != b
    if d == z3.Z3_OP_LE:
        return a <= b
    if d == z3.Z3_OP_LT:
        return a < b
    if d == z3.Z3_OP_GE:
        return a >= b
    if d == z3.Z3_OP_GT:
        return a > b
    raise EvalError('cannot evaluate %s' % e.decl())


# ------------------------------------------------------------------ concrete contract mode
NANV = z3.Real('$nan')


def fnum(x):
    if x != x:
        return NANV
    if x in (float('inf'), float('-inf')):
        return z3.RealVal(10 ** 310) if x > 0 else z3.RealVal(-10 ** 310)
    f = Fraction(x)
    return z3.Q(f.numerator, f.denominator)


class Con(Base):
    mode = 'con'

    def __init__(self, prog, di, lib, source, autoregions=(), log=None):
        super().__init__(prog, di)
        self.lib = lib
        self.src = source
        self.blobs = []
        self.keep = []
        self.auto = set(autoregions)
        self.declared = set()
        self.log = log
        self.failed = []
        self.values = {}
        self.bounds = []
        self.strings = {}
        self.called = 0
        self.threw = z3.BoolVal(False)
        self.checked = 0

    # values -----------------------------------------------------------
    def get(self, name, sort, dt=None, ix=None):
        v = self.src(name, sort, dt, ix)
        self.values[name if ix is None else '%s(%d)' % (name, ix)] = str(v)
        return v

    def real(self, name, lo=None, hi=None):
        v = self.get(name, 'r', ('range', lo, hi))
        v = float(v)
        if lo is not None:
            self.require(fnum(v) >= R(Fraction(num(lo) if num(lo) is not None else lo)))
        if hi is not None:
            self.require(fnum(v) <= R(Fraction(num(hi) if num(hi) is not None else hi)))
        return fnum(v)

    def int(self, name, lo=-(1 << 31), hi=(1 << 31) - 1):
        v = self.get(name, 'i', ('range', lo, hi))
        if not lo <= v <= hi:
            raise Reject()
        return z3.IntVal(v)

    def bool(self, name):
        return z3.BoolVal(bool(self.get(name, 'b')))

    def choice(self, name, values):
        v = self.get(name, 'i', ('choice', values))
        if v not in values:
            raise Reject()
        return z3.IntVal(v)

    # memory -------------------------------------------------------------
    def alloc(self, size):
        b = (ctypes.c_char * (size + 64))()
        a = ctypes.addressof(b)
        a0 = (a + 15) // 16 * 16
        self.keep.append(b)
        self.blobs.append((a0, size))
        return a0

    def wr(self, addr, fmt, v):
        ctypes.memmove(addr, struct.pack(fmt, v), struct.calcsize(fmt))

    def rd(self, addr, fmt, st=None):
        n = struct.calcsize(fmt)
        if st is not None:
            for (a, s), c in st:
                if a <= addr and addr + n <= a + s:
                    return struct.unpack(fmt, c[addr - a:addr - a + n])[0]
        return struct.unpack(fmt, ctypes.string_at(addr, n))[0]

    def fmt(self, t):
        if t.k == 'ptr':
            return '<Q'
        if t.k == 'base' and t.enc == 'float':
            return {8: '<d', 4: '<f'}[t.size]
        u = t.enc in ('unsigned', 'unsigned_char', 'boolean', 'UTF')
        return '<' + {1: 'Bb', 2: 'Hh', 4: 'Ii', 8: 'Qq'}[t.size][0 if u else 1]

    def sym_addr(self, name):
        try:
            return ctypes.cast(getattr(self.lib, name), ctypes.c_void_p).value
        except AttributeError:
            return None

    def fill(self, t, addr, path, name, ix=None, depth=0):
        if t.k == 'class':
            if (t.name or '').startswith('basic_string<'):
                self.wr(addr, '<Q', addr + 16)
                return
            if (t.name or '').startswith(('basic_o', 'basic_i', 'TsHs')):
                return
            self.di.full(t)
            if t.vptr or (t.bases and self.di.is_poly(t)):
                try:
                    a = self.sym_addr('_ZTV' + self.di.mangled(t))
                    if a:
                        self.wr(addr, '<Q', a + 16)
                except KeyError:
                    pass
            vec = (t.name or '').startswith(('vector<', '_Vector'))
            if vec:
                return
            for o, bt in t.bases:
                if bt.size:
                    sv = self.rd(addr, '<Q') if o == 0 and self.di.is_poly(t) else None
                    self.fill(bt, addr + o, path, name, ix, depth)
                    if sv is not None:
                        self.wr(addr, '<Q', sv)
            for n, o, ft in t.fields:
                self.fill(ft, addr + o, path + ('.' if path else '') + (n or '_'), name, ix, depth)
            return
        if t.k == 'array':
            for i in range(min(t.count, 4000)):
                self.fill(t.elem, addr + i * t.elem.size, '%s[%d]' % (path, i), name, ix, depth)
            return
        nm = name + ('.' + path if path and not path.startswith('[') else path)
        if t.k == 'ptr':
            if nm + '->' in self.auto and depth < 4:
                pt = self.di.pointee(t)
                a = self.alloc(pt.size)
                self.fill(pt, a, '', nm + '->', None, depth + 1)
                self.wr(addr, '<Q', a)
            return
        if t.k == 'base' and t.enc == 'float':
            if t.size == 16:
                return
            v = float(self.get(nm, 'r', t, ix))
            if t.size == 4:
                try:
                    struct.pack('<f', v)
                except OverflowError:
                    raise Reject()
            self.wr(addr, self.fmt(t), v)
        elif t.k == 'base' and t.enc == 'boolean':
            self.wr(addr, '<B', 1 if self.get(nm, 'b', t, ix) else 0)
        elif t.k in ('base', 'enum'):
            v = int(self.get(nm, 'i', t, ix))
            f = self.fmt(t)
            n = t.size * 8
            if f[1].isupper():
                v %= 1 << n
            elif not -(1 << (n - 1)) <= v < (1 << (n - 1)):
                v = (v + (1 << (n - 1))) % (1 << n) - (1 << (n - 1))
            self.wr(addr, f, v)

    def obj(self, cls, name, dyn=None):
        t = self.ty(cls)
        a = self.alloc(t.size)
        self.fill(t, a, '', name)
        return View(self, a, t)

    def arr(self, elem, count, name):
        et = self.ty(elem)
        n = count if isinstance(count, int) else count.as_long() if z3.is_int_value(count) else ev(count, {})
        if n > 4096 or n < 0:
            raise Reject()
        a = self.alloc(max(1, et.size * n))
        if isinstance(count, int):
            self.fill(array_type(et, n), a, '', name)
        else:
            for i in range(n):
                self.fill(et, a + i * et.size, '', name, i)
        return View(self, a, array_type(et, n))

    def cell(self, ty, name):
        return self.arr(ty, 1, name)

    def null(self):
        return 0

    def _paddr(self, x):
        if x is None:
            return 0
        if isinstance(x, View):
            return x._p
        if isinstance(x, int):
            return x
        if isinstance(x, (Ptr,)):
            return 0
        raise TypeError(x)

    def bind(self, view, field, target):
        if isinstance(field, int):
            a = view._p + 8 * field
        else:
            a = view._p + self._fieldpath(view._t, field)[0]
        if callable(target) and not isinstance(target, View):
            for i in range(view._t.count):
                self.wr(view._p + 8 * i, '<Q', self._paddr(target(i)))
            return
        self.wr(a, '<Q', self._paddr(target))

    def bind_if(self, view, field, cond, a, b):
        self.bind(view, field, a if truth(B(cond), {}) else b)

    def _fieldpath(self, t, path):
        from .api import Sym
        return Sym._fieldpath(self, t, path)

    def set(self, view, field, value):
        if isinstance(field, int):
            ft = view._t.elem
            a = view._p + field * ft.size
        else:
            o, ft = self._fieldpath(view._t, field)
            a = view._p + o
        if isz(value):
            value = ev(value, {})
        if ft.k == 'base' and ft.enc == 'float':
            self.wr(a, self.fmt(ft), float(value))
        else:
            v = int(value)
            self.wr(a, self.fmt(ft), v)

    write = set

    def dyn(self, view, cls):
        a = self.sym_addr('_ZTV' + self.di.mangled(self.ty(cls)))
        if not a:
            raise EvalError('no vtable symbol for ' + cls)
        self.wr(view._p, '<Q', a + 16)

    def vec(self, view, field, elem, count, name):
        o, ft = self._fieldpath(view._t, field)
        a = self.arr(elem, count, name)
        et = self.ty(elem)
        self.wr(view._p + o, '<Q', a._p)
        self.wr(view._p + o + 8, '<Q', a._p + et.size * a._t.count)
        self.wr(view._p + o + 16, '<Q', a._p + et.size * a._t.count)
        return a

    def require(self, f):
        if isinstance(f, bool):
            if not f:
                raise Reject()
            return
        if not exact(f):
            raise Reject()

    def _read(self, p, t, st):
        if t.k == 'ptr':
            return View(self, self.rd(p, '<Q', st), t, st)
        v = self.rd(p, self.fmt(t), st)
        if t.k == 'base' and t.enc == 'float':
            return fnum(v)
        if t.k == 'base' and t.enc == 'boolean':
            return z3.BoolVal(bool(v))
        return z3.IntVal(v)

    def _field(self, v, off, ft):
        p = v._p + off
        if ft.k in ('class', 'array'):
            return View(self, p, ft, v._st)
        return self._read(p, ft, v._st)

    def _elemtype(self, v):
        from .api import Sym
        return Sym._elemtype(self, v)

    def _deref(self, v):
        return View(self, v._p, self._elemtype(v), v._st)

    def _index(self, v, i):
        et = self._elemtype(v)
        n = i if isinstance(i, int) else ev(i, {})
        if v._p == 0:
            raise EvalError('null pointer in contract')
        p = v._p + n * et.size
        if et.k in ('class', 'array'):
            return View(self, p, et, v._st)
        if not any(a <= p and p + et.size <= a + s for a, s in self.blobs):
            # a contract term that is not meaningful in this state (guarded elsewhere)
            if et.k == 'base' and et.enc == 'float':
                return fnum(0.0)
            if et.k == 'base' and et.enc == 'boolean':
                return z3.BoolVal(False)
            return z3.IntVal(0)
        return self._read(p, et, v._st)

    def snap(self):
        return Snap(self, [((a, s), ctypes.string_at(a, s)) for a, s in self.blobs])

    def isnull(self, v):
        return z3.BoolVal(v._p == 0)

    def same(self, a, b):
        return z3.BoolVal(self._paddr(a) == self._paddr(b))

    def distance(self, a, b):
        return z3.IntVal(self._paddr(b) - self._paddr(a))

    def addr(self, view, field=None):
        if field is None:
            return view
        o, ft = self._fieldpath(view._t, field)
        return View(self, view._p + o, ft)

    def base(self, view, field, cls, member):
        t = self.ty(cls)
        o = self._fieldpath(view._t, (field + '.' if field else '') + member)[0] - self._fieldpath(t, member)[0]
        return View(self, view._p + o, t)

    def addr_at(self, view, i):
        et = self._elemtype(view)
        return View(self, view._p + i * et.size, et)

    def func(self, spec):
        return View(self, self.sym_addr(self.fn(spec)) or 0, None)

    def opaque(self):
        return 0

    def string(self, text=''):
        a = self.alloc(32)
        self.wr(a, '<Q', a + 16)
        self.wr(a + 8, '<Q', len(text))
        for i, c in enumerate(text.encode()[:15]):
            self.wr(a + 16 + i, '<B', c)
        return View(self, a, basic_type('ulong'))

    # calls -----------------------------------------------------------------
    def call(self, spec, *args, may_throw=False):
        name = self.fn(spec)
        f = self.prog.func(name)
        fn = self.sym_addr(name)
        if f is None or fn is None:
            raise MissingFunction(spec)
        if len(args) != len(f.params):
            raise MissingFunction('arity of ' + spec)
        ia, da, sa = [], [], []
        for x, (t, n, sret) in zip(args, f.params):
            if t.k in ('double', 'float'):
                v = x if isinstance(x, (int, float, Fraction)) else ev(x, {})
                v = float(v)
                if t.k == 'float':
                    v = struct.unpack('<d', struct.pack('<f', v) + b'\0\0\0\0')[0]
                da.append(v)
            else:
                if isinstance(x, View):
                    v = x._p
                elif x is None:
                    v = 0
                elif isinstance(x, (bool, int)):
                    v = int(x)
                elif isinstance(x, Ptr):
                    v = 0
                else:
                    v = int(ev(x, {}))
                (ia if len(ia) < 6 else sa).append(v)
        L = (ctypes.c_long * 6)(*(ia + [0] * (6 - len(ia))))
        Sx = (ctypes.c_long * 6)(*(sa + [0] * (6 - len(sa))))
        Dv = (ctypes.c_double * 8)(*(da + [0.0] * (8 - len(da))))
        ri, rdv = ctypes.c_long(0), ctypes.c_double(0)
        en = ctypes.create_string_buffer(256)
        isf = f.ret.k in ('double', 'float')
        if self.log:
            self.log(self.values)
        self.called += 1
        th = self.lib.gcv_call(ctypes.c_void_p(fn), 1 if isf else 0, L, Dv, Sx, ctypes.byref(ri), ctypes.byref(rdv), en)
        self.threw = z3.BoolVal(bool(th))
        self.excname = en.value.decode()
        if th:
            if not may_throw:
                self.failed.append(('no exception from ' + spec, 'threw ' + self.excname))
            if f.ret.k == 'void':
                return None
        if f.ret.k == 'double':
            return fnum(rdv.value)
        if f.ret.k == 'float':
            return fnum(struct.unpack('<f', struct.pack('<d', rdv.value)[:4])[0])
        if f.ret.k == 'int':
            n = f.ret.a
            v = ri.value & ((1 << n) - 1)
            if n == 1:
                return z3.BoolVal(bool(v & 1))
            if n > 1 and v >= 1 << (n - 1):
                v -= 1 << n
            return z3.IntVal(v)
        if f.ret.k == 'ptr':
            return View(self, ri.value, basic_type('double*'))
        return None

    def typed(self, view, ty):
        return View(self, view._p, self.ty(ty), view._st)

    def use(self, spec, contract):
        pass

    def ensure(self, name, f, st=None):
        if isinstance(f, bool):
            f = B(f)
        global TOL
        self.checked += 1
        if not truth(f, {}):
            self.failed.append((name, ''))
            sv, TOL = TOL, 1e-3
            try:
                self.gross = getattr(self, 'gross', False) or not truth(f, {})
            finally:
                TOL = sv

    def lemma(self, name, f):
        pass

    def cover(self, name, f):
        pass

    def bounded(self, t):
        pass

    def forall(self, lo, hi, fn, name='k'):
        lo = lo if isinstance(lo, int) else ev(lo, {})
        hi = hi if isinstance(hi, int) else ev(hi, {})
        l = [B(fn(z3.IntVal(k))) for k in range(lo, min(hi, lo + 4096))]
        return z3.And(*l) if l else z3.BoolVal(True)

    def require_forall(self, lo, hi, fn, pats=None):
        self.require(self.forall(lo, hi, fn))

    def pow(self, x, y):
        from .exec import uf, RS
        return uf('pow', RS, RS, RS)(R(x), R(y))

    def sqrt(self, x):
        from .exec import uf, RS
        return uf('sqrt', RS, RS)(R(x))

    def fun(self, name, x):
        from .exec import uf, RS
        return uf(name, RS, RS)(R(x))


def exact(f):
    """truth of a precondition, without tolerance"""
    global TOL
    sv = TOL
    TOL = 0
    try:
        return truth(f, {})
    finally:
        TOL = sv


# ------------------------------------------------------------------ sources of states
class ModelSource:
    def __init__(self, model, rng=None, default='zero', mutate=0.0):
        self.m, self.rng, self.mut = model, rng, mutate
        self.c = {}
        self.f = {}
        for d in model.decls():
            if d.arity() == 0:
                self.c[d.name()] = model[d]
            else:
                self.f[d.name()] = d
        self.rnd = RandomSource(rng) if rng else None

    def __call__(self, name, sort, dt=None, ix=None):
        v = None
        if self.rng and self.mut and self.rng.random() < self.mut:
            return self.rnd(name, sort, dt, ix)
        if ix is not None and name in self.f:
            v = self.m.eval(self.f[name](z3.IntVal(ix)), model_completion=True)
        elif name in self.c:
            v = self.c[name]
        if v is None:
            if self.rnd:
                return self.rnd(name, sort, dt, ix)
            if isinstance(dt, tuple) and dt[0] == 'range':
                lo = dt[1]
                if lo is not None and sort == 'i':
                    return max(lo, 0)
            return {'r': 0.0, 'i': 0, 'b': False}[sort]
        if sort == 'b':
            return z3.is_true(v)
        try:
            x = ev(v, {})
        except EvalError:
            x = 0
        if sort == 'i':
            return int(x)
        return float(x)


class RandomSource:
    def __init__(self, rng):
        self.r = rng

    def __call__(self, name, sort, dt=None, ix=None):
        r = self.r
        if sort == 'b':
            return r.random() < 0.5
        if isinstance(dt, tuple) and dt[0] == 'choice':
            return r.choice(list(dt[1]))
        lo = hi = None
        if isinstance(dt, tuple) and dt[0] == 'range':
            lo, hi = dt[1], dt[2]
            lo = num(lo) if lo is not None and not isinstance(lo, float) else lo
            hi = num(hi) if hi is not None and not isinstance(hi, float) else hi
        if sort == 'i':
            if lo is not None and hi is not None and hi - lo < 64:
                return r.randint(lo, hi)
            v = r.choice([0, 1, 2, 3, 4, 5, r.randint(0, 10), r.randint(0, 100), -1])
            if lo is not None and v < lo:
                v = lo
            if not isinstance(dt, tuple) and dt is not None and dt.enc.startswith('uns') and v < 0:
                v = 1
            return v
        if lo is not None and hi is not None:
            return float(lo) + (float(hi) - float(lo)) * r.choice([0.0, 1.0, r.random(), r.random()])
        v = r.choice([0.0, 1.0, -1.0, 0.5, r.random(), r.uniform(-10, 10), r.uniform(-10, 10), r.uniform(0, 100),
                      10 ** r.uniform(-6, 6), -10 ** r.uniform(-6, 6)])
        if lo is not None and v < lo:
            v = float(lo) + abs(v)
        if hi is not None and v > hi:
            v = float(hi) - abs(v)
        return v


def sample_models(pre, facts, extra, rng, n, budget):
    """models of the precondition, pushed around at random"""
    out = []
    t0 = time.time()
    base = list(pre) + list(facts) + list(extra)
    consts = {}
    for a in base:
        st, seen = [a], set()
        while st:
            x = st.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                consts[x.decl().name()] = x
            elif z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name() not in ('sqrt', 'pow', 'exp', 'log'):
                consts[x.sexpr()] = x
            if not z3.is_quantifier(x):
                st.extend(x.children())
    names = sorted(consts)
    src = RandomSource(rng)
    s = z3.Solver()
    s.set('timeout', 1500)
    s.add(*base)
    if s.check() != z3.sat:
        return out
    ints = [x for x in consts.values() if z3.is_int(x) and z3.is_const(x)]
    s.push()
    s.add(*[z3.And(x >= -8, x <= 8) for x in ints])
    if s.check() != z3.sat:
        s.pop()
        s.check()
    out.append(s.model())
    scopes = s.num_scopes()
    while len(out) < n and time.time() - t0 < budget:
        s.push()
        rng.shuffle(names)
        depth = 0
        m = None
        for nm in names[:40]:
            if time.time() - t0 > budget:
                break
            x = consts[nm]
            if z3.is_bool(x):
                c = x == (rng.random() < 0.5)
            elif z3.is_int(x):
                c = x == src(nm, 'i')
            elif z3.is_real(x):
                k = rng.random()
                v = src(nm, 'r')
                q = z3.Q(Fraction(v).limit_denominator(1000).numerator, Fraction(v).limit_denominator(1000).denominator)
                c = x == q if k < 0.6 else (x > q if k < 0.8 else x < q)
            else:
                continue
            s.push()
            s.add(c)
            if s.check() == z3.sat:
                m = s.model()
            else:
                s.pop()
        if m is None and s.check() == z3.sat:
            m = s.model()
        if m is not None:
            out.append(m)
        # unwind everything pushed in this round
        while s.num_scopes() > scopes:
            s.pop()
    return out
