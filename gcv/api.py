"""Contract layer. A harness is an ordinary Python function of one argument S that declares the objects a function of the
code under proof works on (its preconditions), calls the real function, and states postconditions over the memory before and
after. The same harness is run in two modes: symbolically (Sym: obligations for the solver) and on the native code (Con, in
replay.py: the counterexample, or a sampled state, is laid out in memory and the compiled function is called)."""
from fractions import Fraction
import z3
from z3 import And, Or, Not, If, Implies, Xor
from .sym import *
from .exec import Exec, Region, Result, State, RANGES, uf, RS, IS
from . import irgen


def D(x):
    """the exact rational value of a double literal"""
    if isinstance(x, (z3.ExprRef,)):
        return x
    return R(Fraction(x))


def abs_(x):
    x = R(x)
    return If(x < 0, -x, x)


def max_(a, b):
    a, b = R(a), R(b)
    return If(a >= b, a, b)


def min_(a, b):
    a, b = R(a), R(b)
    return If(a <= b, a, b)


def clamp(x, lo, hi):
    x, lo, hi = R(x), R(lo), R(hi)
    return If(x < lo, lo, If(x > hi, hi, x))


def conj(*l):
    l = [B(x) for x in (l[0] if len(l) == 1 and isinstance(l[0], (list, tuple)) else l)]
    return And(*l) if l else z3.BoolVal(True)


def disj(*l):
    l = [B(x) for x in (l[0] if len(l) == 1 and isinstance(l[0], (list, tuple)) else l)]
    return Or(*l) if l else z3.BoolVal(False)


class Reject(Exception):
    """a concrete state does not satisfy the precondition"""


class View:
    """typed view of memory: attribute access follows the real field names"""
    __slots__ = ('_S', '_p', '_t', '_st')

    def __init__(self, S, p, t, st=None):
        object.__setattr__(self, '_S', S)
        object.__setattr__(self, '_p', p)
        object.__setattr__(self, '_t', t)
        object.__setattr__(self, '_st', st)

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        t = self._t
        if t.k == 'ptr':
            return getattr(self._S._deref(self), name)
        r = self._S.di.find_field(t, name)
        if r is None:
            raise MissingField('%s has no field %s' % (t.name, name))
        off, ft = r
        return self._S._field(self, off, ft)

    def __getitem__(self, i):
        return self._S._index(self, i)

    def __len__(self):
        return self._t.count


class MissingField(Exception):
    pass


class Base:
    def __init__(self, prog, di):
        self.prog, self.di = prog, di
        self.fnames = None

    # types ---------------------------------------------------------
    def ty(self, t):
        if not isinstance(t, str):
            return t
        return basic_type(t) or self.di.cls(t)

    def enum(self, name):
        return self.di.enum_values(name)

    def fn(self, spec):
        """mangled name of a function given 'Class::name' or 'Class::name(arg, types)' or a mangled name"""
        if spec in self.prog.funcs:
            return spec
        if self.fnames is None or self._nm != len(self.prog.modules):
            names = list(self.prog.funcs)
            irgen.demangle_many(names)
            self.fnames = {}
            self._nm = len(self.prog.modules)
            for n in names:
                d = irgen.demangle(n)
                base = d.split('(')[0]
                if base.startswith(('void ', 'double ', 'int ', 'bool ')):
                    base = base.split(' ', 1)[1]
                self.fnames.setdefault(base, []).append((d, n))
        base = spec.split('(')[0]
        c = self.fnames.get(base, [])
        if '(' in spec:
            want = spec.replace(' ', '')
            c = [x for x in c if x[0].replace(' ', '').endswith(want) or x[0].replace(' ', '').startswith(want)]
        c = [x for x in c if not x[1].endswith(('C1Ev',)) or len(c) == 1]
        if not c:
            raise MissingFunction('no function %s' % spec)
        if len(c) > 1:
            # constructors: prefer C2/C1 complete variants
            c2 = [x for x in c if 'C2E' in x[1] or 'D2E' in x[1]]
            if len(c2) == 1:
                return c2[0][1]
            raise MissingFunction('ambiguous function %s: %s' % (spec, c))
        return c[0][1]


class MissingFunction(Exception):
    pass


_basic = {}


def basic_type(n):
    from .di import DT
    if n in _basic:
        return _basic[n]
    spec = {'double': (8, 'float'), 'float': (4, 'float'), 'int': (4, 'signed'), 'unsigned': (4, 'unsigned'), 'bool': (1, 'boolean'),
            'long': (8, 'signed'), 'ulong': (8, 'unsigned'), 'uchar': (1, 'unsigned_char'), 'short': (2, 'signed'), 'ushort': (2, 'unsigned')}
    t = DT()
    t.name = n
    if n in spec:
        t.k, t.size, t.enc = 'base', spec[n][0], spec[n][1]
    elif n.endswith('*'):
        t.k, t.size, t.node, t.mod = 'ptr', 8, None, None
        t.elem = basic_type(n[:-1].strip()) or n[:-1].strip()
    else:
        return None
    _basic[n] = t
    return t


def array_type(elem, n):
    from .di import DT
    t = DT()
    t.k, t.name, t.elem, t.count, t.size = 'array', None, elem, n, elem.size * n
    return t


class Snap:
    def __init__(self, S, st):
        self.S, self.st = S, st

    def __call__(self, v):
        return View(v._S, v._p, v._t, self.st)


class Sym(Base):
    mode = 'sym'

    def __init__(self, prog, di, opts=None):
        super().__init__(prog, di)
        self.ex = Exec(prog, di, opts)
        self.st = State()
        self.pre = self.ex.pre
        self.goals = []
        self.targets = []
        self.syms = {}
        self.uses = {}
        self.covers = []
        self.bounds = []

    # declarations ----------------------------------------------------
    def real(self, name, lo=None, hi=None):
        s = z3.Real(name)
        self.syms[name] = s
        if lo is not None:
            self.require(s >= D(lo))
        if hi is not None:
            self.require(s <= D(hi))
        return s

    def int(self, name, lo=-(1 << 31), hi=(1 << 31) - 1):
        s = z3.Int(name)
        self.syms[name] = s
        RANGES[name] = (lo, hi)
        self.require(And(s >= lo, s <= hi))
        return s

    def bool(self, name):
        s = z3.Bool(name)
        self.syms[name] = s
        return s

    def choice(self, name, values):
        s = self.int(name, min(values), max(values))
        self.require(disj([s == v for v in values]))
        return s

    def obj(self, cls, name, dyn=None):
        t = self.ty(cls)
        r = self.ex.region(name, t)
        return View(self, mkptr(r), t)

    def arr(self, elem, count, name):
        et = self.ty(elem)
        if isinstance(count, int):
            t = array_type(et, count)
            r = self.ex.region(name, t)
            return View(self, mkptr(r), t)
        r = self.ex.region(name, et, nidx=1, stride=et.size, count=count)
        t = array_type(et, 0)
        return View(self, Ptr([(True, (r, (0,), 0))]), t)

    def cell(self, ty, name):
        return self.arr(ty, 1, name)

    def null(self):
        return NULL

    def bind(self, view, field, target):
        """make pointer field/element point to target (initially)"""
        r, ix, off = self._tgt(view)
        if isinstance(field, int):
            off += field * 8
        else:
            o, ft = self._fieldpath(view._t, field)
            off += o
        r.ptrs[off] = target if isinstance(target, Ptr) or callable(target) and not isinstance(target, View) else (NULL if target is None else target._p)

    def bind_if(self, view, field, cond, a, b):
        """pointer is a if cond else b (initially)"""
        pa = NULL if a is None else a._p
        pb = NULL if b is None else b._p
        self.bind(view, field, ite(cond, pa, pb))

    def _fieldpath(self, t, path):
        off = 0
        import re as _re
        for part in _re.findall(r'[A-Za-z_]\w*|\[\d+\]', path):
            if part[0] == '[':
                i = int(part[1:-1])
                off += i * t.elem.size
                t = t.elem
            else:
                f = self.di.find_field(t, part)
                if f is None:
                    raise MissingField('%s has no field %s' % (t.name, part))
                off += f[0]
                t = f[1]
        return off, t

    def set(self, view, field, value):
        """initial value of a scalar field"""
        r, ix, off = self._tgt(view)
        if isinstance(field, int):
            ft = view._t.elem
            off += field * ft.size
        else:
            o, ft = self._fieldpath(view._t, field)
            off += o
        if off in r.syms:
            raise Unsupported('initial value of %s set after it was read' % field)
        isreal = ft.k == 'base' and ft.enc == 'float'
        if isinstance(value, bool):
            value = int(value)
        elif isz(value) and z3.is_bool(value):
            value = If(value, IntVal(1), IntVal(0))
        elif isreal:
            value = Fraction(value) if isinstance(value, (int, float)) else R(value)
        r.consts[off] = value

    def write(self, view, field, value):
        """the environment writes a scalar field between two calls"""
        if isinstance(field, int):
            view, field = self.addr_at(view, field), None
        CallCtx(self, self.st, (), None, '').assign(view, field, value)

    def dyn(self, view, cls):
        """dynamic class of the object the view denotes"""
        r, ix, off = self._tgt(view)
        r.dyn[off] = self.di.mangled(self.ty(cls))

    def vec(self, view, field, elem, count, name):
        """std::vector member: give it count elements (concrete or symbolic)"""
        o, ft = self._fieldpath(view._t, field)
        a = self.arr(elem, count, name)
        r, ix, off = self._tgt(view)
        off += o
        et = self.ty(elem)
        ar = a._p.alts[0][1][0]
        r.ptrs[off] = a._p
        if isinstance(count, int):
            end = mkptr(ar, (), et.size * count)
        else:
            end = Ptr([(True, (ar, (count,), 0))])
        r.ptrs[off + 8] = end
        r.ptrs[off + 16] = end
        return a

    def _tgt(self, view):
        alts = view._p.alts
        if len(alts) != 1:
            raise Unsupported('ambiguous object')
        return alts[0][1]

    def require(self, f):
        f = norm_bool(f)
        if f is True:
            return
        self.pre.append(B(f))
        if self.ex.solver is not None:
            self.ex.solver.add(B(f))

    # memory ----------------------------------------------------------
    def _load(self, st, p, t):
        from .irparse import IntTy, T_DOUBLE, T_FLOAT, T_PTR
        st = st or self.st
        sv, self.ex.o['check_mem'] = self.ex.o['check_mem'], False
        so = self.ex.obl
        self.ex.obl = []
        try:
            if t.k == 'ptr':
                return View(self, self.ex.load(st, p, T_PTR), t, None)
            if t.k == 'base' and t.enc == 'float':
                return R(self.ex.load(st, p, T_DOUBLE if t.size == 8 else T_FLOAT))
            v = self.ex.load(st, p, IntTy(t.size * 8))
            if t.k == 'base' and t.enc == 'boolean':
                return B(tobool(v))
            return I(v)
        finally:
            self.ex.o['check_mem'] = sv
            self.ex.obl = so

    def _field(self, v, off, ft):
        p = Ptr([(c, t if t is None or t is OPQ else self._norm(t, off)) for c, t in v._p.alts])
        if ft.k in ('class', 'array'):
            return View(self, p, ft, v._st)
        r = self._load(v._st, p, ft)
        if isinstance(r, View):
            return View(self, r._p, r._t, v._st)
        return r

    @staticmethod
    def _norm(t, off):
        r, ix, o = t
        o += off
        if r.nidx and r.stride and (o >= r.stride or o < 0):
            ix = ix[:-1] + (iadd(ix[-1], o // r.stride),)
            o %= r.stride
        return (r, ix, o)

    def _elemtype(self, v):
        if v._t.k == 'array':
            return v._t.elem
        if v._t.k == 'ptr':
            e = v._t.elem if v._t.elem is not None else self.di.pointee(v._t)
            if isinstance(e, str):
                e = self.di.cls(e)
            if e.k == 'class':
                e = self.di.pointee(v._t) if v._t.mod is not None else e
            return e
        if v._t.k in ('base', 'enum'):
            return v._t                 # a scalar passed by reference
        raise TypeError('not indexable: %s' % v._t)

    def _deref(self, v):
        return View(self, v._p, self._elemtype(v), v._st)

    def _index(self, v, i):
        et = self._elemtype(v)
        n = num(i) if not isinstance(i, int) else i
        alts = []
        for c, t in v._p.alts:
            if t is None or t is OPQ:
                alts.append((c, t))
                continue
            r, ix, o = t
            if n is not None:
                alts.append((c, self._norm(t, n * et.size)))
            elif r.nidx and r.stride and et.size % r.stride == 0:
                alts.append((c, (r, ix[:-1] + (iadd(ix[-1], imul(i, et.size // r.stride)),), o)))
            else:
                cnt = v._t.count if v._t.k == 'array' else (r.size - o) // et.size
                for k in range(cnt):
                    alts.append((c_and(c, I(i) == k), (r, ix, o + k * et.size)))
        p = Ptr(alts)
        if et.k in ('class', 'array'):
            return View(self, p, et, v._st)
        if n is None and len(alts) > 1:
            # total read: last alternative as default
            p = Ptr(alts[:-1] + [(c_not(disj([c for c, _ in alts[:-1]])), alts[-1][1])])
        r = self._load(v._st, p, et)
        return View(self, r._p, r._t, v._st) if isinstance(r, View) else r

    def snap(self):
        self.st2 = self.st.copy()
        s = State(self.st.pc, dict(self.st.mem))
        self.st.own = set()
        return Snap(self, s)

    def isnull(self, v):
        return B(self.ex.pcmp('eq', v._p, NULL))

    def same(self, a, b):
        return B(self.ex.pcmp('eq', NULL if a is None else a._p, NULL if b is None else b._p))

    def distance(self, a, b):
        """bytes from pointer a to pointer b (of one object)"""
        from .sym import PInt
        return I(self.ex.ptr_arith('sub', PInt(b._p), PInt(a._p), self.st))

    def addr(self, view, field=None):
        """pointer value to (a field of) an object, to be passed as an argument"""
        if field is None:
            return view
        o, ft = self._fieldpath(view._t, field)
        return View(self, Ptr([(c, self._norm(t, o)) for c, t in view._p.alts]), ft)

    def base(self, view, field, cls, member):
        """address of the base class subobject cls of a field, found by one of its members"""
        t = self.ty(cls)
        o = self._fieldpath(view._t, (field + '.' if field else '') + member)[0] - self._fieldpath(t, member)[0]
        return View(self, Ptr([(c, self._norm(x, o)) for c, x in view._p.alts]), t)

    def addr_at(self, view, i):
        """address of element i of an array (one past the end allowed)"""
        et = self._elemtype(view)
        return View(self, Ptr([(c, self._norm(t, i * et.size)) for c, t in view._p.alts]), et)

    # calls -----------------------------------------------------------
    def func(self, spec):
        """pointer to a function, to be bound to a function pointer"""
        return View(self, Ptr([(True, ('f', self.fn(spec)))]), None)

    def opaque(self):
        return OPAQUE

    def string(self, text=''):
        return OPAQUE

    def call(self, spec, *args, may_throw=False):
        name = self.fn(spec)
        f = self.prog.func(name)
        if f is None:
            raise MissingFunction(spec)
        self.targets.append(name)
        a = []
        for x, (t, n, sret) in zip(args, f.params):
            a.append(self._arg(x, t))
        if len(args) != len(f.params):
            raise MissingFunction('%s takes %d arguments, the contract gives %d' % (spec, len(f.params), len(args)))
        if self.st is None:
            raise Unsupported('call after a path that cannot return')
        # the target itself is executed even if a contract for it is registered
        h = self.ex.hooks.pop(name, None)
        try:
            r = self.ex.run(f, a, self.st.copy())
        finally:
            if h is not None:
                self.ex.hooks[name] = h
        return self._outcome(r, f, spec, may_throw)

    def _outcome(self, r, f, spec, may_throw):
        self.threw = z3.BoolVal(False)
        self.excval = None
        if r.exc is not None:
            if not may_throw:
                st = r.exc[0]
                self.ex.obl.append(_ob('no exception from ' + spec, st.pc, z3.BoolVal(False), 'safety', f.name))
                if r.st is None:
                    raise Unsupported('%s cannot return normally' % spec)
            else:
                if r.st is None:
                    self.st, val = r.exc[0], None
                    self.threw = z3.BoolVal(True)
                    self.excval = r.exc[1].id
                    return None
                st, (val, th, eid) = self.ex.merge([(r.st, (r.val if r.val is not None else UNDEF, False, 0)),
                                                     (r.exc[0], (UNDEF, True, r.exc[1].id))])
                self.st = st
                self.threw = B(th)
                self.excval = eid
                return self._ret(val, f)
        self.st = r.st
        if self.st is None:
            raise Unsupported('%s has no returning path' % spec)
        return self._ret(r.val, f)

    def _arg(self, x, t):
        if isinstance(x, View):
            return x._p
        if isinstance(x, (Ptr, PInt)):
            return x
        if x is None:
            return NULL
        if t.k == 'int':
            if t.a == 1:
                return norm_bool(tobool(x)) if not isinstance(x, bool) else x
            if isinstance(x, bool):
                return int(x)
            return x if num(x) is None else num(x)
        if t.k in ('double', 'float'):
            n = num(x) if not isinstance(x, float) else Fraction(x)
            return Fraction(n) if n is not None else R(x)
        return x

    def _ret(self, v, f):
        if v is None or f.ret.k == 'void':
            return None
        if f.ret.k in ('double', 'float'):
            return R(v) if v is not UNDEF else fresh('undef', 'r')
        if f.ret.k == 'int':
            if v is UNDEF:
                return fresh('undef', 'b' if f.ret.a == 1 else 'i')
            if f.ret.a == 1:
                return B(tobool(v))
            return I(v)
        if f.ret.k == 'ptr':
            return View(self, v, basic_type('double*'), None) if isinstance(v, Ptr) else v
        return v

    def typed(self, view, ty):
        """reinterpret a returned pointer as pointer to ty"""
        t = self.ty(ty)
        return View(self, view._p, t, view._st)

    # contracts used at call sites --------------------------------------
    def use(self, spec, contract):
        """replace calls of spec by contract(K, args): see CallCtx"""
        name = self.fn(spec) if not spec.startswith('_Z') and spec not in ('rand', 'atan2', 'asin') else spec
        self.uses[name] = contract

        def hook(ex, st, args, inst):
            ex.contracts_used.add(name)
            k = CallCtx(self, st, args, inst, name)
            f = self.prog.funcs.get(name)
            k.f = f
            val = contract(k, *k.views(args, f))
            ret = None
            if val is not None:
                ret = self._arg(val, f.ret if f else inst.ty)
            if k.threw is None:
                return Result(k.st, ret, None)
            return k.result(ret)
        self.ex.hooks[name] = hook

    # statements --------------------------------------------------------
    def ensure(self, name, f, st=None):
        self.ex.obl.append(_ob(name, (st or self.st).pc, B(f), 'post', self.targets[-1] if self.targets else None))

    def cover(self, name, f):
        """must be satisfiable together with the preconditions (vacuity guard)"""
        self.covers.append((name, self.st.pc, B(f)))

    def forall(self, lo, hi, fn, name='k'):
        """for all lo <= k < hi: fn(k) -- as a goal: one arbitrary k"""
        if isinstance(lo, int) and isinstance(hi, int):
            return conj([fn(k) for k in range(lo, hi)])
        k = fresh(name, 'i')
        RANGES[k.decl().name()] = (0, (1 << 31) - 1)
        return Implies(And(k >= lo, k < hi), B(fn(k)))

    def require_forall(self, lo, hi, fn, pats=None):
        if isinstance(lo, int) and isinstance(hi, int):
            for k in range(lo, hi):
                self.require(fn(k))
            return
        k = z3.Int('q!%d' % len(self.pre))
        body = Implies(And(k >= lo, k < hi), B(fn(k)))
        self.require(z3.ForAll([k], body))

    def pow(self, x, y):
        from .models import r_pow
        return R(r_pow(self.ex, self.st, x, y))

    def sqrt(self, x):
        from .models import r_sqrt
        return R(r_sqrt(self.ex, self.st, x))

    def fun(self, name, x):
        from .models import LIBM1
        return LIBM1[name](self.ex, self.st, x)

    def bounded(self, text):
        self.bounds.append(text)

    def lemma(self, name, f):
        """a formula proved first, then available as a hypothesis"""
        self.ex.obl.append(_ob('lemma ' + name, self.st.pc, B(f), 'lemma', self.targets[-1] if self.targets else None, info='lemma'))


class CallCtx:
    """the state at a call site, as a contract sees it"""
    def __init__(self, S, st, args, inst, name):
        self.S, self.st, self.args, self.inst, self.name = S, st, args, inst, name
        self.threw = None
        self.ex = S.ex

    def views(self, args, f):
        # typed views for the pointer arguments, from the debug information of the callee
        out = []
        types = param_types(self.S, f) if f is not None else [None] * len(args)
        for a, t in zip(args, types + [None] * len(args)):
            if isinstance(a, Ptr):
                if t is not None and t.k == 'ptr':
                    out.append(View(self, a, self.S.di.pointee(t)))
                else:
                    out.append(View(self, a, basic_type('double*')))
            elif isinstance(a, Fraction):
                out.append(R(a))
            elif isinstance(a, bool):
                out.append(B(a))
            elif isinstance(a, int):
                out.append(I(a))
            else:
                out.append(a)
        return out

    # memory access through the same View machinery, on this state
    @property
    def di(self):
        return self.S.di

    def _with(self, fn):
        sv = self.S.st
        self.S.st = self.st
        try:
            return fn()
        finally:
            self.S.st = sv

    def _deref(self, v):
        return View(self, v._p, self.S._elemtype(v), v._st)

    def _field(self, v, off, ft):
        r = self._with(lambda: self.S._field(v, off, ft))
        return View(self, r._p, r._t, v._st) if isinstance(r, View) else r

    def _index(self, v, i):
        r = self._with(lambda: self.S._index(v, i))
        return View(self, r._p, r._t, v._st) if isinstance(r, View) else r

    def snap(self):
        s = State(self.st.pc, dict(self.st.mem))
        self.st.own = set()
        return Snap(self, s)

    def require(self, name, f):
        self.ex.oblige(self.st, B(f), 'precondition %s' % name, 'pre')

    def assume(self, f):
        self.st.pc = self.st.pc + (B(f),)

    def fact(self, f):
        self.ex.fact(B(f))

    def assign(self, view, field, value):
        from .irparse import IntTy
        off, ft = (0, view._t) if field is None else self.S._fieldpath(view._t, field)
        if isinstance(value, bool):
            value = int(value)
        elif isz(value) and z3.is_bool(value):
            value = If(value, IntVal(1), IntVal(0))
        for c, t in self.ex.live_alts(self.st, view._p):
            if t is None or t is OPQ:
                continue
            r, ix, o = self.S._norm(t, off)
            kind = 'p' if ft.k == 'ptr' else 'f' if ft.k == 'base' and ft.enc == 'float' else 'i'
            if isinstance(value, View):
                value = value._p
            self.ex.write_cell(self.st, r, o, ix, value, kind, ft.size * 8, c)

    def havoc(self, view, field, lo=None, hi=None):
        off, ft = (0, view._t) if field is None else self.S._fieldpath(view._t, field)
        if ft.k == 'base' and ft.enc == 'float':
            v = fresh('h.' + (field or ''), 'r')
        elif ft.k == 'base' and ft.enc == 'boolean':
            v = fresh('h.' + (field or ''), 'b')
        else:
            v = fresh('h.' + (field or ''), 'i')
            if lo is None:
                n = ft.size * 8
                lo, hi = (0, (1 << n) - 1) if ft.enc.startswith('unsigned') else (-(1 << (n - 1)), (1 << (n - 1)) - 1)
            RANGES[v.decl().name()] = (lo, hi)
            self.ex.fact(And(v >= lo, v <= hi))
        self.assign(view, field, v)
        return v

    def fresh_real(self, n='ret'):
        return fresh(n, 'r')

    def fresh_bool(self, n='ret'):
        return fresh(n, 'b')

    def fresh_int(self, n, lo, hi):
        v = fresh(n, 'i')
        RANGES[v.decl().name()] = (lo, hi)
        self.ex.fact(And(v >= lo, v <= hi))
        return v

    def result(self, ret):
        c, exc = self.threw
        s2 = self.st.copy()
        n = self.st if self.st.assume(c_not(c)) else None
        e = s2 if s2.assume(c) else None
        return Result(n, ret, (e, Exc(self.ex.excid(exc))) if e is not None else None)

    def throws(self, cond, typeinfo):
        self.threw = (cond, typeinfo)


def param_types(S, f):
    """debug-info types of the parameters of f (including this)"""
    di = S.di
    mod = f.mod
    raw = mod.meta.get(f.dbg) if f.dbg else None
    if not raw:
        return [None] * len(f.params)
    st = di._ref(raw, 'type')
    types = di._ref(mod.meta[st], 'types')
    import re
    ids = re.findall(r'!\d+|null', mod.meta[types])
    out = []
    for r in ids[1:]:
        out.append(di.get(mod, r) if r != 'null' else None)
    return out


def _ob(name, pc, goal, kind, func, info=None):
    from .exec import Obligation
    return Obligation(name, pc, goal, kind, func, None, info)
