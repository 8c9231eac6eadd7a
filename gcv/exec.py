"""Forward symbolic execution of the generated IR, one function at a time, merging states at joins.
Callees with a registered contract are replaced by it; the others are executed from their real body."""
import re
from fractions import Fraction
import z3
from .sym import *
from . import sym
from .irparse import Local, Const, IntTy, T_PTR, T_DOUBLE, succs
from .irgen import demangle

RANGES = {}          # z3 Int symbol name -> (lo, hi)


class Region:
    _n = 0

    def __init__(self, name, dt=None, size=None, nidx=0, stride=None, count=None, kind='obj', fresh_ptr=False):
        Region._n += 1
        self.id = Region._n
        self.name, self.dt, self.size, self.nidx, self.stride, self.count, self.kind = name, dt, size, nidx, stride, count, kind
        self.ptrs = {}        # off -> Ptr or callable(ix)->Ptr, declared by the contract
        self.init = {}        # (off) -> initial value
        self.consts = {}      # off -> declared initial scalar
        self.dyn = {}         # off -> dynamic class name (vtable) override
        self.gmod = None      # (module, ty, init) for globals
        self.syms = {}        # off -> (symbol/func, kind)
        self.writable = True
        self.freed = False

    def __repr__(self):
        return '<%s>' % self.name


class ABase:
    """array-cell contents: initial"""
    __slots__ = ('region', 'off', 'kind', 'bits', 'cache')

    def __init__(self, region, off, kind, bits):
        self.region, self.off, self.kind, self.bits = region, off, kind, bits
        self.cache = {}


class AUpd:
    __slots__ = ('prev', 'ix', 'val', 'cache')

    def __init__(self, prev, ix, val):
        self.prev, self.ix, self.val, self.cache = prev, ix, val, {}


class AMap:
    """ix -> if cond(ix) then val(ix) else prev[ix]"""
    __slots__ = ('prev', 'cond', 'val', 'cache')

    def __init__(self, prev, cond, val):
        self.prev, self.cond, self.val, self.cache = prev, cond, val, {}


class AIte:
    __slots__ = ('c', 'a', 'b', 'cache')

    def __init__(self, c, a, b):
        self.c, self.a, self.b, self.cache = c, a, b, {}


class State:
    __slots__ = ('pc', 'mem', 'own')

    def __init__(self, pc=(), mem=None):
        self.pc = pc
        self.mem = mem if mem is not None else {}
        self.own = set()

    def copy(self):
        s = State(self.pc, dict(self.mem))
        self.own = set()
        return s

    def cells(self, region):
        return self.mem.get(region)

    def wcells(self, region):
        if region not in self.own:
            self.mem[region] = dict(self.mem.get(region) or {})
            self.own.add(region)
        return self.mem[region]

    def assume(self, c):
        c = norm_bool(c)
        if c is True:
            return True
        if c is False:
            return False
        if z3.is_and(c):
            for x in c.children():
                if not self.assume(x):
                    return False
            return True
        i = c.get_id()
        n = c_not(c)
        ni = n.get_id() if isz(n) else None
        for l in self.pc:
            if l.get_id() == i:
                return True
            if l.get_id() == ni:
                return False
        self.pc = self.pc + (c,)
        return True


class Obligation:
    __slots__ = ('name', 'pc', 'goal', 'kind', 'func', 'where', 'state', 'info')

    def __init__(self, name, pc, goal, kind, func=None, where=None, info=None):
        self.name, self.pc, self.goal, self.kind, self.func, self.where, self.info = name, pc, goal, kind, func, where, info


class Result:
    __slots__ = ('st', 'val', 'exc')

    def __init__(self, st, val, exc):
        self.st, self.val, self.exc = st, val, exc    # exc: (state, Exc) or None


class LoopInfo:
    __slots__ = ('header', 'blocks', 'parent', 'latches')


def key_of(ix):
    return tuple(('z', x.get_id()) if isz(x) else x for x in ix)


UFS = {}


def uf(name, *sorts):
    k = (name,) + tuple(str(s) for s in sorts)
    if k not in UFS:
        UFS[k] = z3.Function(name, *sorts)
    return UFS[k]


RS, IS = z3.RealSort(), z3.IntSort()


TINY = Fraction(1, 10**90)


def div_guard(f, res):
    """the optimiser moves a division in front of the choice that needs it; (condition, polarity) of the only select that uses it"""
    t = getattr(f, 'divguards', None)
    if t is None:
        t, uses = {}, {}

        def walk(x, i):
            if isinstance(x, Local):
                uses.setdefault(x.n, []).append(i)
            elif isinstance(x, (tuple, list)):
                for y in x:
                    walk(y, i)
        for b in f.blocks.values():
            for i in b.insts:
                walk(i.args, i)
                walk(i.x, i)
        names = {i.res for b in f.blocks.values() for i in b.insts if i.op == 'fdiv'}
        for n in names:
            us = uses.get(n.n if isinstance(n, Local) else n, [])
            if len(us) == 1 and us[0].op == 'select':
                c, a, b = us[0].args[:3]
                nm = lambda v: v.n if isinstance(v, Local) else None
                key = n.n if isinstance(n, Local) else n
                if nm(c) is not None and (nm(a) == key) != (nm(b) == key):
                    t[key] = (nm(c), nm(a) == key)
        f.divguards = t
    return t.get(res.n if isinstance(res, Local) else res)


class Exec:
    def __init__(self, prog, didb, opts=None):
        self.prog, self.di = prog, didb
        o = dict(max_unroll=10, bounded=False, check_div=True, check_mem=True, check_ovf=False, feas_ms=300, inline_depth=60)
        o.update(opts or {})
        self.o = o
        self.facts = []
        self.fact_ids = set()
        self.obl = []
        self.hooks = {}           # function name -> callable(ex, st, args, inst) -> Result
        self.vhooks = {}          # same, matched by regex on demangled name
        self.loop_hooks = []
        self.globals = {}
        self.depth = 0
        self.stack = []
        self.called = {}          # functions executed -> count
        self.contracts_used = set()
        self.opaque = set()
        self.assumed = set()
        self.excids = {}
        self.solver = None
        self.feas_cache = {}
        self.nfeas = 0
        self.bounded_notes = set()
        self.pre = []
        self.autoregion = True
        self.regions = {}
        self.opq_ranges = {}

    # ------------------------------------------------------------ facts, feasibility
    def fact(self, f):
        f = norm_bool(f)
        if f is True:
            return
        if f is False:
            raise Unsupported('contradictory fact')
        if f.get_id() in self.fact_ids:
            return
        self.fact_ids.add(f.get_id())
        self.facts.append(f)
        if self.solver is not None:
            self.solver.add(f)

    def _solver(self):
        if self.solver is None:
            self.solver = z3.Solver()
            self.solver.set('timeout', self.o['feas_ms'])
            self.solver.add(*[B(x) for x in self.pre])
            self.solver.add(*self.facts)
        return self.solver

    def decide(self, st, c):
        """True/False if c is decided under the path condition, else None"""
        c = norm_bool(c)
        if isinstance(c, bool):
            return c
        i = c.get_id()
        n = c_not(c)
        ni = n.get_id()
        for l in st.pc:
            if l.get_id() == i:
                return True
            if l.get_id() == ni:
                return False
        key = (tuple(l.get_id() for l in st.pc), i)
        nf = len(self.facts)
        if key in self.feas_cache:
            r, at, keep = self.feas_cache[key]
            if r is not None or at == nf:
                return r
        self.nfeas += 1
        s = self._solver()
        r = None
        pc = [l for l in st.pc]
        if s.check(*pc, n) == z3.unsat:
            r = True
        elif s.check(*pc, c) == z3.unsat:
            r = False
        self.feas_cache[key] = (r, nf, (c, n, st.pc))
        return r

    def oblige(self, st, goal, name, kind='safety', where=None, info=None):
        goal = norm_bool(goal)
        if goal is True:
            return
        for l in st.pc:
            if isz(goal) and l.get_id() == goal.get_id():
                return
        self.obl.append(Obligation(name, st.pc, goal, kind, self.stack[-1] if self.stack else None, where, info))

    # ------------------------------------------------------------ initial contents
    def kind_of(self, ty):
        if ty.k == 'int':
            return 'i'
        if ty.k in ('double', 'float', 'x86_fp80'):
            return 'f'
        if ty.k == 'ptr':
            return 'p'
        raise Unsupported('memory access of type %r' % ty)

    def initial(self, region, off, kind, bits, ix=()):
        """initial value of a cell"""
        if region.nidx == 0:
            v = region.init.get(off)
            if v is None:
                v = self._initial(region, off, kind, bits, ix)
                region.init[off] = v
            return v
        return self._initial(region, off, kind, bits, ix)

    def _initial(self, region, off, kind, bits, ix):
        if off in region.consts:
            c = region.consts[off]
            return c(*ix) if callable(c) else c
        if off in region.ptrs and kind == 'p':
            p = region.ptrs[off]
            return p(*ix) if callable(p) else p
        if region.gmod is not None and (region.gmod[2] is not None) and region.kind == 'const':
            return self._const_at(region, off, kind, bits)
        if region.kind in ('alloca', 'heap') and region.dt is None:
            if kind == 'p':
                return OPAQUE
            region.syms.setdefault(off, None)
            v = fresh('uninit.' + region.name, 'r' if kind == 'f' else 'i')
            return v
        leaf = self.di.leaf(region.dt, off) if region.dt is not None else None
        if leaf is None:
            if region.dt is not None and region.kind == 'obj':
                raise Unsupported('no field at offset %d of %s' % (off, region.name))
            path, dt, rest = '@%d' % off, None, 0
        else:
            path, dt, rest = leaf
        nm = region.name + ('.' + path if path and not path.startswith('[') else path)
        if dt == 'vptr' or (kind == 'p' and off in region.dyn):
            return self.vtable_ptr(region, off)
        if kind == 'p':
            return self.auto_ptr(region, off, dt, nm, ix)
        if rest != 0:
            raise Unsupported('access inside a field: %s+%d' % (nm, rest))
        return self.symbol(region, off, kind, dt, nm, ix)

    def symbol(self, region, off, kind, dt, nm, ix):
        isbool = dt is not None and dt.k == 'base' and dt.enc == 'boolean'
        if kind == 'f':
            if ix:
                f = uf(nm, *([IS] * len(ix) + [RS]))
                region.syms[off] = (f, 'f', dt)
                return f(*[I(x) for x in ix])
            s = z3.Real(nm)
            region.syms[off] = (s, 'f', dt)
            return s
        if isbool:
            if ix:
                f = uf(nm, *([IS] * len(ix) + [z3.BoolSort()]))
                region.syms[off] = (f, 'b', dt)
                return If(f(*[I(x) for x in ix]), IntVal(1), IntVal(0))
            s = z3.Bool(nm)
            region.syms[off] = (s, 'b', dt)
            return If(s, IntVal(1), IntVal(0))
        # integer
        if dt is not None and dt.k in ('base', 'enum'):
            n = dt.size * 8
            if dt.enc in ('unsigned', 'unsigned_char', 'UTF'):
                lo, hi = 0, (1 << n) - 1
            else:
                lo, hi = -(1 << (n - 1)), (1 << (n - 1)) - 1
        else:
            lo, hi = -(1 << 31), (1 << 31) - 1
        if ix:
            f = uf(nm, *([IS] * len(ix) + [IS]))
            region.syms[off] = (f, 'i', dt)
            t = f(*[I(x) for x in ix])
            self.fact(And(t >= lo, t <= hi))
            return t
        s = z3.Int(nm)
        region.syms[off] = (s, 'i', dt)
        RANGES[nm] = (lo, hi)
        self.fact(And(s >= lo, s <= hi))
        return s

    def vtable_ptr(self, region, off):
        cls = region.dyn.get(off)
        addend = 16
        if cls is None:
            t = self.di.class_at(region.dt, off)
            if t is None:
                raise Unsupported('no class at vptr %s+%d' % (region.name, off))
            if isinstance(t, tuple):
                raise Unsupported('secondary vtable of %s' % region.name)
            cls = self.di.mangled(t)
        m, gi = self.prog.vtable(cls)
        if m is None:
            raise Unsupported('vtable of %s not found' % cls)
        g = self.global_region('_ZTV' + cls, m)
        return mkptr(g, (), addend)

    def auto_ptr(self, region, off, dt, nm, ix):
        if dt is None or dt.k != 'ptr':
            return OPAQUE
        pt = self.di.pointee(dt)
        if self.autoregion and pt.k == 'class' and not ix and not (pt.name or '').startswith(('basic_', '_Alloc', 'TsHs')):
            try:
                self.di.full(pt)
            except Exception:
                return OPAQUE
            if pt.size:
                r = self.region(nm + '->', pt)
                self.assumed.add('pointer %s is non-null and refers to an object distinct from every other (%s)' % (nm, pt.name))
                return mkptr(r)
        return OPAQUE

    def region(self, name, dt, **kw):
        r = Region(name, dt, dt.size if dt is not None else kw.pop('size', None), **kw)
        self.regions[name] = r
        return r

    def global_region(self, name, mod):
        if name in self.globals:
            return self.globals[name]
        m = mod if name in mod.globals else None
        gi = mod.global_init(name) if m else None
        if gi is None or gi[1] is None:
            for mm in self.prog.modules.values():
                if name in mm.globals:
                    g2 = mm.global_init(name)
                    if g2[1] is not None:
                        m, gi = mm, g2
                        break
        if gi is not None and gi[2] == 'alias':
            raise Unsupported('alias ' + name)
        r = Region('@' + name, None, m.sizeof(gi[0]) if gi and m and gi[0].k != 'opaque' else None)
        r.kind = 'const' if gi and gi[2] == 'constant' else 'global'
        if gi:
            r.gmod = (m, gi[0], gi[1])
        if r.kind == 'global' and gi and gi[1] is not None:
            v = self._static_const(name, m)
            if v:
                r.kind = 'const'
                r.consts.update(v)
        self.globals[name] = r
        return r

    def _static_const(self, name, m):
        """file-scope 'const double X = <expr>' that the front end initialises dynamically: run its initialiser"""
        dem = demangle(name)
        for n, f in list(m.funcs.items()):
            if n.startswith('__cxx_global_var_init'):
                f.parse_body()
                insts = [i for b in f.blocks.values() for i in b.insts]
                st = [i for i in insts if i.op == 'store']
                if len(f.blocks) == 1 and len(st) == 1 and isinstance(st[0].args[1], Const) and st[0].args[1].v == name:
                    gdi = [raw for raw in m.meta.values() if raw.startswith('!DIGlobalVariable(') and
                           re.search(r'linkageName: "%s"' % re.escape(name), raw)]
                    st_ = State()
                    sv = self.obl
                    self.obl = []
                    try:
                        env = {}
                        for i in insts:
                            if i.op == 'store':
                                return {0: self.val(i.args[0], i.ty, env, f)}
                            if i.op == 'ret':
                                break
                            if i.op in ('call', 'invoke'):
                                env[i.res] = self.do_call(i, st_, env, f).val
                                continue
                            self.step(i, st_, env, f)
                    except Unsupported:
                        return None
                    finally:
                        self.obl = sv
        return None

    def _const_at(self, region, off, kind, bits):
        m, ty, init = region.gmod

        def walk(ty, c, off):
            ty = m.resolve(ty)
            if c.kind == 'zero':
                return {'i': 0, 'f': Fraction(0), 'p': NULL}[kind]
            if c.kind == 'undef':
                return {'i': 0, 'f': Fraction(0), 'p': NULL}[kind]
            if ty.k == 'array':
                es = m.sizeof(ty.b)
                i = off // es
                if isinstance(c.v, str):
                    return 0
                return walk(ty.b, c.v[i][1], off - i * es)
            if ty.k == 'struct':
                for j in range(len(ty.a)):
                    o, e = m.field_off(ty, j)
                    if o <= off < o + m.sizeof(e):
                        return walk(e, c.v[j][1], off - o)
                raise Unsupported('const struct')
            return self.const(c, ty, m)
        return walk(ty, init, off)

    # ------------------------------------------------------------ constants & operands
    def const(self, c, ty, mod):
        k = c.kind
        if k == 'int':
            if ty.k == 'int' and ty.a == 1:
                return bool(c.v)
            return c.v
        if k == 'float':
            if isinstance(c.v, str):
                return self.special_float(c.v)
            if c.v and abs(c.v) < TINY:
                self.assumed.add('double constants below 1e-90 in magnitude (underflow guards) are read as zero')
                return Fraction(0)
            return c.v
        if k == 'null':
            return NULL
        if k == 'undef':
            return UNDEF
        if k == 'zero':
            t = mod.resolve(ty)
            if t.k == 'int':
                return False if t.a == 1 else 0
            if t.k in ('double', 'float'):
                return Fraction(0)
            if t.k == 'ptr':
                return NULL
            if t.k == 'struct':
                return tuple(self.const(c, e, mod) for e in t.a)
            raise Unsupported('zero of %r' % t)
        if k == 'global':
            if c.v in mod.funcs or c.v in mod.decls or c.v in self.prog.funcs:
                return Ptr([(True, ('f', c.v))])
            return mkptr(self.global_region(c.v, mod))
        if k == 'gep':
            t0, p = c.x[0]
            base = self.const(p, t0, mod)
            return self.gep(None, base, c.v, [(t, self.const(v, t, mod), v) for t, v in c.x[1:]], mod)
        if k == 'agg':
            t = mod.resolve(ty)
            return tuple(self.const(v, e, mod) for e, v in c.v)
        if k == 'cast':
            return self.const(c.x[1], c.x[0], mod)
        if k == 'meta':
            return UNDEF
        raise Unsupported('constant %r' % c)

    def special_float(self, s):
        # infinities and NaN have no counterpart in the real-number domain
        if s == 'inf':
            return z3.Real('$inf')
        if s == '-inf':
            return -z3.Real('$inf')
        return z3.Real('$nan')

    def val(self, a, ty, env, f):
        if type(a) is Local:
            try:
                return env[a.n]
            except KeyError:
                raise Unsupported('undefined local %%%s in %s' % (a.n, f.name))
        return self.const(a, ty, f.mod)

    # ------------------------------------------------------------ pointers
    def gep(self, st, base, ty, idxs, mod):
        """idxs: list of (type, value, operand)"""
        off = 0
        syms = []     # (elemsize, expr, arraycount or None)
        t = ty
        first = True
        for it, v, _ in idxs:
            n = num(v) if not isinstance(v, bool) else int(v)
            if first:
                es = mod.sizeof(t)
                if n is not None:
                    off += es * n
                else:
                    syms.append((es, v, None))
                first = False
                continue
            u = mod.resolve(t)
            if u.k in ('struct',):
                o, e = mod.field_off(u, n)
                off += o
                t = e
            elif u.k == 'array':
                es = mod.sizeof(u.b)
                if n is not None:
                    off += es * n
                else:
                    syms.append((es, v, u.a))
                t = u.b
            else:
                raise Unsupported('gep into %r' % u)
        if isinstance(base, int) and base == 0:
            base = NULL
        out = []
        for c, tg in base.alts:
            if tg is None or tg is OPQ or len(tg) == 2:
                if tg is None and (off or syms):
                    tg = None   # pointer arithmetic on null: dereference is what is checked
                out.append((c, tg))
                continue
            r, ix, o = tg
            o2 = o + off
            if r.nidx and r.stride:
                if o2 >= r.stride or o2 < 0:
                    ix = ix[:-1] + (iadd(ix[-1], o2 // r.stride),)
                    o2 = o2 % r.stride
            alts = [(c, (r, ix, o2))]
            for es, e, cnt in syms:
                alts2 = []
                for c1, (r1, ix1, o1) in alts:
                    if r1.nidx and r1.stride and es % r1.stride == 0:
                        alts2.append((c1, (r1, ix1[:-1] + (iadd(ix1[-1], imul(e, es // r1.stride)),), o1)))
                        continue
                    # embedded array: enumerate
                    size = r1.stride if r1.nidx else r1.size
                    lo, hi = None, None
                    if cnt is not None:
                        lo, hi = 0, cnt
                    else:
                        rng = None
                        if r1.dt is not None and not r1.nidx:
                            rng = self.di.array_at(r1.dt, o1, es)
                        elif r1.dt is not None:
                            rng = self.di.array_at(r1.dt, o1, es)
                        if rng is None:
                            if size is None:
                                raise Unsupported('symbolic offset into %r' % r1)
                            rng = (o1 % es, size)
                        lo = -((o1 - rng[0]) // es)
                        hi = (rng[1] - o1) // es
                    if hi - lo > 300:
                        raise Unsupported('symbolic index over %d elements of %r' % (hi - lo, r1))
                    conds = []
                    for k in range(lo, hi):
                        ck = (I(e) == k)
                        if st is not None and hi - lo <= 64:
                            d = self.decide(st, ck)
                            if d is False:
                                continue
                            if d is True:
                                alts2.append((c1, (r1, ix1, o1 + k * es)))
                                conds = None
                                break
                        alts2.append((c_and(c1, ck), (r1, ix1, o1 + k * es)))
                        conds.append(k)
                    if conds is not None:
                        if st is not None and self.o['check_mem']:
                            goal = And(I(e) >= lo, I(e) < hi)
                            self.oblige(st, c_or(c_not(c1), goal), 'index-in-bounds of %s' % r1.name, 'memory')
                        if not conds:
                            alts2.append((c1, OPQ))
                alts = alts2
            out.extend(alts)
        if len(out) == 1:
            out = [(True, out[0][1])]
        return Ptr(out)

    def live_alts(self, st, p):
        if isinstance(p, int) and p == 0:
            p = NULL
        if p is UNDEF:
            raise Unsupported('dereference of undefined pointer')
        if not isinstance(p, Ptr):
            raise Unsupported('dereference of %r' % (p,))
        alts = p.alts
        if len(alts) == 1:
            return alts
        out = []
        for c, t in alts:
            d = self.decide(st, c)
            if d is False:
                continue
            if d is True:
                return [(True, t)]
            out.append((c, t))
        return out

    def check_bounds(self, st, r, ix, c):
        if not self.o['check_mem']:
            return
        if r.nidx and r.stride and r.count is not None:
            i = ix[-1]
            goal = And(I(i) >= 0, I(i) < I(r.count))
            n, m = num(i), num(r.count)
            if n is not None and m is not None:
                goal = 0 <= n < m
            self.oblige(st, c_or(c_not(c), goal), 'index-in-bounds of %s' % r.name, 'memory')

    def load(self, st, p, ty, where=None):
        kind = self.kind_of(ty)
        bits = ty.a if ty.k == 'int' else 0
        acc = None
        for c, t in reversed(self.live_alts(st, p)):
            if t is None:
                self.oblige(st, c_not(c), 'null-dereference', 'memory', where)
                continue
            if t is OPQ:
                v = {'i': lambda: fresh('opq', 'i'), 'f': lambda: fresh('opq', 'r'), 'p': lambda: OPAQUE}[kind]()
                if kind == 'i' and bits:
                    self.fact(And(v >= -(1 << (bits - 1)), v < (1 << bits)))
                if ty.k == 'int' and ty.a == 1:
                    v = fresh('opq', 'b')
            elif len(t) == 2:
                raise Unsupported('load from function')
            else:
                r, ix, off = t
                self.check_bounds(st, r, ix, c)
                v = self.read_cell(st, r, off, ix, kind, bits)
            acc = v if acc is None else ite(c, v, acc)
        if acc is None:
            # every alternative is null: the obligation above fails; continue with an arbitrary value
            acc = {'i': lambda: fresh('bad', 'i'), 'f': lambda: fresh('bad', 'r'), 'p': lambda: OPAQUE}[kind]()
        if ty.k == 'int' and ty.a == 1:
            acc = tobool(acc)
        return acc

    def read_cell(self, st, r, off, ix, kind, bits=0):
        cells = st.mem.get(r)
        if r.nidx == 0:
            if r.size is not None and not (0 <= off < r.size) and r.kind != 'const':
                self.oblige(st, FALSE, 'out-of-bounds read of %s at %d' % (r.name, off), 'memory')
                return {'i': lambda: fresh('oob', 'i'), 'f': lambda: fresh('oob', 'r'), 'p': lambda: OPAQUE}[kind]()
            v = cells.get(off) if cells else None
            if v is None:
                v = self.initial(r, off, kind, bits)
            if v is UNDEF:
                v = {'i': lambda: fresh('undef', 'i'), 'f': lambda: fresh('undef', 'r'), 'p': lambda: OPAQUE}[kind]()
            return self.coerce(v, kind, r, off)
        a = cells.get(off) if cells else None
        if a is None:
            a = self.abase(r, off, kind, bits)
        return self.coerce(self.aread(a, ix, kind), kind, r, off)

    def abase(self, r, off, kind, bits):
        b = r.init.get(off)
        if b is None:
            b = ABase(r, off, kind, bits)
            r.init[off] = b
        return b

    def aread(self, a, ix, kind):
        k = key_of(ix)
        c = a.cache.get(k)
        if c is not None:
            return c[0]
        if type(a) is ABase:
            v = self.initial(a.region, a.off, a.kind, a.bits, ix)
        elif type(a) is AUpd:
            e = self.ix_eq(a.ix, ix)
            if e is True:
                v = a.val
            elif e is False:
                v = self.aread(a.prev, ix, kind)
            else:
                v = ite(e, a.val, self.aread(a.prev, ix, kind))
        elif type(a) is AMap:
            e = norm_bool(a.cond(*ix))
            if e is True:
                v = a.val(*ix)
            elif e is False:
                v = self.aread(a.prev, ix, kind)
            else:
                v = ite(e, a.val(*ix), self.aread(a.prev, ix, kind))
        else:
            v = ite(a.c, self.aread(a.a, ix, kind), self.aread(a.b, ix, kind))
        a.cache[k] = (v, ix)
        return v

    @staticmethod
    def ix_eq(a, b):
        c = True
        for x, y in zip(a, b):
            nx, ny = num(x), num(y)
            if nx is not None and ny is not None:
                if nx != ny:
                    return False
                continue
            if isz(x) and isz(y):
                if x.eq(y):
                    continue
                d = isub(x, y)
                nd = num(z3.simplify(d)) if isz(d) else d
                if nd is not None:
                    if nd != 0:
                        return False
                    continue
            c = c_and(c, I(x) == I(y))
        return c

    def coerce(self, v, kind, r, off):
        if kind == 'f':
            if isinstance(v, int) and not isinstance(v, bool):
                if v == 0:
                    return Fraction(0)
            elif isinstance(v, Fraction) or (isz(v) and z3.is_real(v)):
                return v
        elif kind == 'i':
            if isinstance(v, (int, PInt)) or (isz(v) and (z3.is_int(v) or z3.is_bool(v))):
                if isz(v) and z3.is_bool(v):
                    return If(v, IntVal(1), IntVal(0))
                return v
            if isinstance(v, Fraction) and v == 0:
                return 0
        elif kind == 'p':
            if isinstance(v, Ptr):
                return v
            if isinstance(v, int) and v == 0:
                return NULL
        raise Unsupported('type-punned access to %s+%d (%s as %s)' % (r.name, off, type(v).__name__, kind))

    def store(self, st, p, v, ty, where=None):
        kind = self.kind_of(ty)
        if ty.k == 'int' and ty.a == 1:
            v = ite(v, 1, 0) if not isinstance(v, bool) else int(v)
        alts = self.live_alts(st, p)
        for c, t in alts:
            if t is None:
                self.oblige(st, c_not(c), 'null-dereference', 'memory', where)
                continue
            if t is OPQ:
                continue
            if len(t) == 2:
                raise Unsupported('store to function')
            r, ix, off = t
            if r.kind == 'const':
                raise Unsupported('store to constant ' + r.name)
            self.check_bounds(st, r, ix, c)
            self.write_cell(st, r, off, ix, v, kind, ty.a if ty.k == 'int' else 0, c)

    def write_cell(self, st, r, off, ix, v, kind, bits=0, c=True):
        if r.nidx == 0:
            if r.size is not None and not (0 <= off < r.size):
                self.oblige(st, c_not(c) if c is not True else FALSE, 'out-of-bounds write of %s at %d' % (r.name, off), 'memory')
                return
            if c is not True:
                v = ite(c, v, self.read_cell(st, r, off, ix, kind, bits))
            st.wcells(r)[off] = v
            return
        cells = st.mem.get(r)
        a = cells.get(off) if cells else None
        if a is None:
            a = self.abase(r, off, kind, bits)
        n = AUpd(a, ix, v)
        if c is not True:
            n = AIte(c, n, a)
        st.wcells(r)[off] = n

    # ------------------------------------------------------------ merging
    def merge(self, edges):
        """edges: list of (state, payload tuple) -> (state, payload)"""
        if len(edges) == 1:
            return edges[0]
        edges = [e for e in edges if e[0] is not None]
        if len(edges) == 1:
            return edges[0]
        # fold pairwise, joining first the edges with the longest common prefix of path literals
        edges = list(edges)
        while len(edges) > 1:
            best = None
            for i in range(len(edges)):
                for j in range(i + 1, len(edges)):
                    n = self._common(edges[i][0].pc, edges[j][0].pc)
                    tot = len(edges[i][0].pc) + len(edges[j][0].pc) - 2 * n
                    k = (n, -tot)
                    if best is None or k > best[0]:
                        best = (k, i, j)
            _, i, j = best
            b = edges.pop(j)
            a = edges.pop(i)
            edges.insert(i, self.merge2(a, b))
        return edges[0]

    @staticmethod
    def _common(a, b):
        n = 0
        for x, y in zip(a, b):
            if x.get_id() != y.get_id():
                break
            n += 1
        return n

    def merge2(self, A, Bm):
        sa, pa = A
        sb, pb = Bm
        n = self._common(sa.pc, sb.pc)
        ra, rb = sa.pc[n:], sb.pc[n:]
        # literals common but out of order
        ids_b = {l.get_id() for l in rb}
        ids_a = {l.get_id() for l in ra}
        com = [l for l in ra if l.get_id() in ids_b]
        ra = [l for l in ra if l.get_id() not in ids_b]
        rb = [l for l in rb if l.get_id() not in ids_a]
        ca, cb = c_andn(ra), c_andn(rb)
        pc = sa.pc[:n] + tuple(com)
        if ca is not True and cb is not True:
            na = c_not(ca)
            if not (isz(na) and isz(cb) and na.eq(cb)) and not (isz(cb) and c_not(cb).eq(ca)):
                # drop a literal pair that is complementary, factor the rest
                d = c_or(ca, cb)
                if not self._valid(d):
                    pc = pc + (d,)
        # choose the simpler guard
        if ca is True:
            c, inv = cb, True
        elif cb is True:
            c, inv = ca, False
        elif len(rb) < len(ra):
            c, inv = cb, True
        else:
            c, inv = ca, False
        # overlapping guards cannot arise: the two states come from disjoint paths
        mem = {}
        own = set()
        for r in set(sa.mem) | set(sb.mem):
            da, db = sa.mem.get(r), sb.mem.get(r)
            if da is db:
                mem[r] = da
                continue
            if r.kind in ('alloca',) and (da is None or db is None):
                mem[r] = da if db is None else db
                continue
            da = da or {}
            db = db or {}
            d = {}
            for k in (da.keys() | db.keys()):
                va, vb = da.get(k), db.get(k)
                if va is vb:
                    d[k] = va
                    continue
                if va is None:
                    va = self.init_like(r, k, vb)
                if vb is None:
                    vb = self.init_like(r, k, va)
                x, y = (vb, va) if inv else (va, vb)
                if r.nidx:
                    d[k] = x if x is y else AIte(c, x, y)
                else:
                    d[k] = ite(c, x, y)
            mem[r] = d
        st = State(pc, mem)
        pay = tuple((y if x is y else (ite(c, y, x) if inv else ite(c, x, y))) for x, y in zip(pa, pb))
        return st, pay

    def init_like(self, r, off, like):
        if r.nidx:
            k = self._akind(like)
            return self.abase(r, off, k[0], k[1])
        if isinstance(like, Ptr):
            return self.initial(r, off, 'p', 0)
        if isinstance(like, Fraction) or (isz(like) and z3.is_real(like)):
            return self.initial(r, off, 'f', 0)
        if like is UNDEF or isinstance(like, (PInt, Exc, tuple)):
            return UNDEF
        return self.initial(r, off, 'i', 32)

    def _akind(self, a):
        while not isinstance(a, ABase):
            a = a.a if isinstance(a, AIte) else a.prev
        return a.kind, a.bits

    _vs = None

    def _valid(self, d):
        s = z3.Solver()
        s.set('timeout', 100)
        s.add(z3.Not(d))
        return s.check() == z3.unsat

    # ------------------------------------------------------------ control flow structure
    def loops(self, f):
        if f._loops is not None:
            return f._loops
        entry = f.order[0]
        # reachable, RPO
        seen, post = set(), []
        stack = [(entry, iter(succs(f.blocks[entry].insts[-1])))]
        seen.add(entry)
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(succs(f.blocks[s].insts[-1]))))
                    break
            else:
                post.append(b)
                stack.pop()
        rpo = post[::-1]
        num_ = {b: i for i, b in enumerate(rpo)}
        # dominators
        idom = {entry: entry}
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                new = None
                for p in f.blocks[b].preds:
                    if p in idom:
                        if new is None:
                            new = p
                        else:
                            x, y = p, new
                            while x != y:
                                while num_[x] > num_[y]:
                                    x = idom[x]
                                while num_[y] > num_[x]:
                                    y = idom[y]
                            new = x
                if idom.get(b) != new:
                    idom[b] = new
                    ch = True

        def dom(a, b):
            while True:
                if a == b:
                    return True
                if b == entry:
                    return False
                b = idom[b]
        lps = {}
        for b in rpo:
            for s in succs(f.blocks[b].insts[-1]):
                if s in num_ and dom(s, b):
                    l = lps.setdefault(s, LoopInfo())
                    l.header = s
                    if not hasattr(l, 'blocks') or getattr(l, 'blocks', None) is None:
                        l.blocks = {s}
                        l.latches = []
                    l.latches.append(b)
                    work = [b]
                    while work:
                        x = work.pop()
                        if x not in l.blocks:
                            l.blocks.add(x)
                            work.extend(p for p in f.blocks[x].preds if p in num_)
        for l in lps.values():
            l.parent = None
            for m in lps.values():
                if m is not l and l.header in m.blocks and (l.parent is None or len(m.blocks) < len(l.parent.blocks)):
                    l.parent = m
        f._loops = (rpo, num_, lps)
        return f._loops

    # ------------------------------------------------------------ execution
    def call(self, name, args, st, inst=None):
        h = self.hooks.get(name)
        if h is not None and not (self.stack and False):
            r = h(self, st, args, inst)
            if r is not None:
                return r
        from .models import model
        r = model(self, name, args, st, inst)
        if r is not None:
            return r
        f = self.prog.func(name)
        if f is None:
            raise Unsupported('no body and no model for %s' % demangle(name))
        return self.run(f, args, st)

    def run(self, f, args, st):
        if self.depth > self.o['inline_depth'] or self.stack.count(f.name) > 3:
            raise Unsupported('inline depth / recursion at ' + demangle(f.name))
        self.depth += 1
        self.stack.append(f.name)
        self.called[f.name] = self.called.get(f.name, 0) + 1
        try:
            env = {}
            for (t, n, _), a in zip(f.params, args):
                env[n] = a
            rpo, num_, lps = self.loops(f)
            outs = self.region_run(f, env, rpo, None, f.order[0], [(None, st, {})])
            rets = outs.pop('$ret', [])
            excs = outs.pop('$exc', [])
            if outs:
                raise Unsupported('stray edges')
            st2, v = None, None
            if rets:
                st2, (v,) = self.merge([(s, (v,)) for s, v in rets])
            exc = None
            if excs:
                s, (e,) = self.merge([(s, (e,)) for s, e in excs])
                exc = (s, e)
            return Result(st2, v, exc)
        finally:
            self.depth -= 1
            self.stack.pop()

    def region_run(self, f, env, order, loop, entry, in_edges):
        """execute the blocks of one region (whole function, or one loop body) once, in topological order.
        returns {target: [(pred, state, phivals)]}, with '$ret'/'$exc' lists"""
        rpo, num_, lps = self.loops(f)
        blocks = set(order)
        pending = {entry: list(in_edges)}
        out = {}

        def emit(target, pred, st, extra=None):
            ph = self.phis(f, target, pred, env, st)
            if extra:
                ph.update(extra)
            if target in blocks and target != entry:
                pending.setdefault(target, []).append((pred, st, ph))
            else:
                out.setdefault(target, []).append((pred, st, ph))

        def owner(b):
            """innermost loop strictly inside the current region that contains b, outermost such"""
            best = None
            for l in lps.values():
                if b in l.blocks and (loop is None or (l is not loop and l.blocks < loop.blocks)):
                    if best is None or len(l.blocks) > len(best.blocks):
                        best = l
            return best
        done_loops = set()
        for b in order:
            if b not in pending:
                continue
            l = owner(b)
            if l is not None:
                if b != l.header:
                    continue
                edges = pending.pop(b)
                res = self.loop_run(f, env, l, edges)
                for tgt, lst in res.items():
                    if tgt in ('$ret', '$exc'):
                        out.setdefault(tgt, []).extend(lst)
                        continue
                    for (pred, st, ph) in lst:
                        if tgt in blocks and tgt != entry:
                            pending.setdefault(tgt, []).append((pred, st, ph))
                        else:
                            out.setdefault(tgt, []).append((pred, st, ph))
                continue
            edges = pending.pop(b)
            st, env_ = self.join(edges, env)
            self.block(f, b, st, env, emit, out)
        if pending:
            raise Unsupported('irreducible control flow in ' + f.name)
        return out

    def join(self, edges, env):
        names = list(edges[0][2].keys())
        st, pay = self.merge([(s.copy(), tuple(ph[n] for n in names)) for _, s, ph in edges])
        for n, v in zip(names, pay):
            env[n] = v
        return st, env

    def phis(self, f, target, pred, env, st):
        ph = {}
        for i in f.blocks[target].insts:
            if i.op != 'phi':
                break
            for v, l in i.x:
                if l == pred:
                    ph[i.res] = self.val(v, i.ty, env, f)
                    break
            else:
                raise Unsupported('phi without edge')
        return ph

    def loop_run(self, f, env, l, edges):
        rpo, num_, lps = self.loops(f)
        order = [b for b in rpo if b in l.blocks]
        for h in self.loop_hooks:
            r = h(self, f, env, l, order, edges)
            if r is not None:
                return r
        acc = {}
        it = 0
        while True:
            outs = self.region_run(f, env, order, l, l.header, edges)
            back = outs.pop(l.header, [])
            for t, lst in outs.items():
                acc.setdefault(t, []).extend(lst)
            if not back:
                break
            it += 1
            lim = self.o['max_unroll'] if any(self.sympc(s) for _, s, _ in back) else 4000
            if it >= lim:
                # is another iteration feasible?
                if self.o['bounded']:
                    self.bounded_notes.add('loop at %s unrolled %d times' % (demangle(f.name), it))
                    break
                raise Unsupported('loop in %s not bounded by %d iterations' % (demangle(f.name), it))
            # drop infeasible back edges
            keep = []
            for e in back:
                if self.reachable(e[1]):
                    keep.append(e)
            if not keep:
                break
            edges = keep
        return acc

    def sympc(self, st):
        return len(st.pc) > 0

    def reachable(self, st):
        if not st.pc:
            return True
        key = ('reach', tuple(l.get_id() for l in st.pc))
        if key in self.feas_cache:
            return self.feas_cache[key][0]
        s = self._solver()
        r = s.check(*st.pc) != z3.unsat
        self.feas_cache[key] = (r, None, st.pc)
        return r

    def block(self, f, bname, st, env, emit, out):
        b = f.blocks[bname]
        for inst in b.insts:
            op = inst.op
            if op == 'phi':
                continue
            if op == 'br':
                if isinstance(inst.x, str):
                    emit(inst.x, bname, st)
                    return
                c = self.val(inst.args[0], IntTy(1), env, f)
                c = norm_bool(tobool(c))
                if c is UNDEF:
                    c = fresh('undef', 'b')
                if inst.x[0] == inst.x[1]:
                    emit(inst.x[0], bname, st)
                    return
                d = self.decide(st, c)
                if d is True:
                    emit(inst.x[0], bname, st)
                elif d is False:
                    emit(inst.x[1], bname, st)
                else:
                    s2 = st.copy()
                    if st.assume(c):
                        emit(inst.x[0], bname, st)
                    if s2.assume(c_not(c)):
                        emit(inst.x[1], bname, s2)
                return
            if op == 'switch':
                v = self.val(inst.args[0], inst.ty, env, f)
                d, cases = inst.x
                n = num(v)
                if n is not None:
                    for cv, l in cases:
                        if self.wrap_eq(cv, n, inst.ty.a):
                            emit(l, bname, st)
                            return
                    emit(d, bname, st)
                    return
                rest = st
                by = {}
                for cv, l in cases:
                    by.setdefault(l, []).append(I(v) == cv)
                for l, cs in by.items():
                    c = cs[0] if len(cs) == 1 else Or(*cs)
                    dd = self.decide(rest, c)
                    if dd is False:
                        continue
                    s2 = rest.copy()
                    if dd is True:
                        emit(l, bname, s2)
                        return
                    if s2.assume(c):
                        emit(l, bname, s2)
                    rest = rest.copy()
                    if not rest.assume(c_not(c)):
                        return
                emit(d, bname, rest)
                return
            if op == 'ret':
                v = self.val(inst.args[0], inst.ty, env, f) if inst.args else None
                out.setdefault('$ret', []).append((st, v))
                return
            if op == 'unreachable':
                return
            if op == 'resume':
                e = self.val(inst.args[0], inst.ty, env, f)
                e = e[0] if isinstance(e, tuple) else e
                out.setdefault('$exc', []).append((st, Exc(e.id)))
                return
            if op in ('call', 'invoke'):
                r = self.do_call(inst, st, env, f)
                if r.exc is not None:
                    es, ev = r.exc
                    if op == 'invoke':
                        u = inst.x['unwind']
                        lp = next(i for i in f.blocks[u].insts if i.op != 'phi')
                        handled, prop = self.landing(lp, es, ev, f)
                        if handled is not None:
                            emit(u, bname, handled, {'$exc:' + u: ev})
                        if prop is not None:
                            out.setdefault('$exc', []).append((prop, ev))
                    else:
                        out.setdefault('$exc', []).append((es, ev))
                if r.st is None:
                    return
                st = r.st
                if inst.res is not None:
                    env[inst.res] = r.val
                if op == 'invoke':
                    emit(inst.x['normal'], bname, st)
                    return
                continue
            if op == 'landingpad':
                ev = env['$exc:' + bname]
                sel = 0
                cleanup, cl = inst.x
                for i in range(len(cl) - 1, -1, -1):
                    kind, c = cl[i]
                    tid, m = self.catch_match(c, ev)
                    sel = ite(m, tid, sel)
                env[inst.res] = (Exc(ev.id), sel)
                continue
            self.step(inst, st, env, f)
        raise Unsupported('block without terminator')

    # ------------------------------------------------------------ exceptions
    def excid(self, name):
        if name not in self.excids:
            self.excids[name] = len(self.excids) + 1
        return self.excids[name]

    def exc_bases(self, name):
        """type-info symbols of the class and its (single-inheritance) bases"""
        out = [name]
        for m in self.prog.modules.values():
            if name in m.globals:
                gi = m.global_init(name)
                if gi and gi[1] is not None and gi[1].kind == 'agg' and len(gi[1].v) >= 3:
                    c = gi[1].v[2][1]
                    if c.kind == 'global':
                        return out + self.exc_bases(c.v)
                    break
        return out

    def catch_match(self, c, ev):
        if c.kind == 'null':
            return self.excid('$any'), True
        tn = c.v
        tid = self.excid(tn)
        m = False
        for n, i in list(self.excids.items()):
            if n.startswith('_ZTI') and tn in self.exc_bases(n):
                if num(ev.id) is not None:
                    m = m or (num(ev.id) == i)
                else:
                    m = c_or(m, I(ev.id) == i)
        return tid, m

    def landing(self, lp, es, ev, f):
        cleanup, cl = lp.x
        if cleanup:
            return es, None
        m = False
        for kind, c in cl:
            _, mi = self.catch_match(c, ev)
            m = c_or(m, mi)
        if m is True:
            return es, None
        if m is False:
            return None, es
        h, p = es.copy(), es.copy()
        return (h if h.assume(m) else None), (p if p.assume(c_not(m)) else None)

    # ------------------------------------------------------------ calls
    def do_call(self, inst, st, env, f):
        x = inst.x
        cal = x['callee']
        if isinstance(cal, Const) and cal.kind == 'other':
            return Result(st, UNDEF, None)
        args = [self.val(v, t, env, f) for t, v in x['args']]
        if isinstance(cal, Const) and cal.kind == 'global':
            return self.call(cal.v, args, st, inst)
        fp = self.val(cal, T_PTR, env, f)
        alts = self.live_alts(st, fp)
        res = []
        for c, t in alts:
            if t is None or t is OPQ or len(t) != 2:
                if t is OPQ:
                    if args and isinstance(args[0], Ptr) and all(x is OPQ for _, x in args[0].alts) or (len(args) > 1 and isinstance(args[1], Ptr) and all(x is OPQ for _, x in args[1].alts)):
                        from .models import ret_opaque
                        self.opaque.add('virtual call on an exception object')
                        res.append(Result(st, ret_opaque(self, inst.ty) if inst.ty.k != 'void' else None, None))
                        continue
                    raise Unsupported('call through unknown pointer in ' + demangle(f.name))
                raise Unsupported('call through %r' % (t,))
            s = st if len(alts) == 1 else st.copy()
            if len(alts) > 1 and not s.assume(c):
                continue
            a2 = args
            if len(alts) > 1:
                a2 = [self.restrict(s, a) for a in args]
            res.append(self.call(t[1], a2, s, inst))
        if len(res) == 1:
            return res[0]
        normals = [(r.st, (r.val,)) for r in res if r.st is not None]
        excs = [(r.exc[0], (r.exc[1],)) for r in res if r.exc is not None]
        n = self.merge(normals) if normals else None
        e = self.merge(excs) if excs else None
        return Result(n[0] if n else None, n[1][0] if n else None, (e[0], e[1][0]) if e else None)

    def restrict(self, st, a):
        if isinstance(a, Ptr) and len(a.alts) > 1:
            alts = self.live_alts(st, a)
            if len(alts) == 1:
                return Ptr([(True, alts[0][1])])
            return Ptr(alts)
        return a

    # ------------------------------------------------------------ integers
    def lohi(self, e):
        n = num(e)
        if n is not None:
            return n, n
        if not isz(e):
            return None, None
        if z3.is_const(e):
            r = RANGES.get(e.decl().name())
            return r if r else (None, None)
        if z3.is_app_of(e, z3.Z3_OP_ITE):
            a, b = self.lohi(e.arg(1)), self.lohi(e.arg(2))
            if a[0] is None or b[0] is None:
                return None, None
            return min(a[0], b[0]), max(a[1], b[1])
        if z3.is_add(e):
            lo = hi = 0
            for x in e.children():
                a = self.lohi(x)
                if a[0] is None:
                    return None, None
                lo += a[0]
                hi += a[1]
            return lo, hi
        if z3.is_sub(e) and e.num_args() == 2:
            a, b = self.lohi(e.arg(0)), self.lohi(e.arg(1))
            if a[0] is None or b[0] is None:
                return None, None
            return a[0] - b[1], a[1] - b[0]
        if z3.is_app_of(e, z3.Z3_OP_MOD):
            m = num(e.arg(1))
            if m:
                return 0, m - 1
        return None, None

    def uns(self, v, bits):
        n = num(v)
        if n is not None:
            return n % (1 << bits)
        lo, hi = self.lohi(v)
        if lo is not None and lo >= 0 and hi < (1 << bits):
            return v
        return If(I(v) < 0, I(v) + (1 << bits), I(v))

    def sgn(self, v, bits):
        n = num(v)
        if n is not None:
            n %= (1 << bits)
            return n - (1 << bits) if n >= (1 << (bits - 1)) else n
        lo, hi = self.lohi(v)
        if hi is not None and hi < (1 << (bits - 1)):
            return v
        if hi is None:
            return v      # mathematical integer: see assumptions
        return If(I(v) >= (1 << (bits - 1)), I(v) - (1 << bits), I(v))

    @staticmethod
    def wrap_eq(a, b, bits):
        return (a - b) % (1 << bits) == 0

    def step(self, i, st, env, f):
        op = i.op
        ev = lambda k, t=None: self.val(i.args[k], t or i.ty, env, f)
        if op == 'load':
            env[i.res] = self.load(st, ev(0, T_PTR), i.ty)
        elif op == 'store':
            v = ev(0)
            if i.ty.k in ('struct', 'named', 'array'):
                raise Unsupported('aggregate store')
            self.store(st, ev(1, T_PTR), v, i.ty)
        elif op == 'getelementptr':
            t0, p0 = i.args[0]
            base = self.val(p0, t0, env, f)
            if base is UNDEF:
                base = OPAQUE
            env[i.res] = self.gep(st, base, i.ty, [(t, self.val(v, t, env, f), v) for t, v in i.args[1:]], f.mod)
        elif op == 'alloca':
            r = Region('%s.%s' % (f.name[-20:], i.res), None, f.mod.sizeof(i.ty), kind='alloca')
            cnt = 1 if i.x is None else self.val(i.x, IntTy(32), env, f)
            if cnt == 1:
                r.irty = (i.ty, f.mod)
            elif num(cnt) is not None:
                r.size *= num(cnt)
            else:
                r.nidx, r.stride, r.count = 1, r.size, cnt
                env[i.res] = Ptr([(True, (r, (0,), 0))])
                return
            env[i.res] = mkptr(r)
        elif op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem', 'fneg'):
            a = ev(0)
            a = fresh('undef', 'r') if a is UNDEF else a
            if op == 'fneg':
                env[i.res] = rsub(Fraction(0), a)
                return
            b = ev(1)
            b = fresh('undef', 'r') if b is UNDEF else b
            if op == 'fdiv':
                if self.o['check_div']:
                    n = num(b)
                    used = True
                    if not n:
                        g = div_guard(f, i.res)
                        if g is not None and g[0] in env:
                            used = norm_bool(tobool(env[g[0]]))
                            used = used if g[1] else norm_bool(Not(B(used)))
                    if n is None:
                        self.oblige(st, R(b) != 0 if used is True else Or(Not(B(used)), R(b) != 0), 'division-by-zero', 'arith')
                    elif n == 0:
                        self.oblige(st, FALSE if used is True else Not(B(used)), 'division-by-zero', 'arith')
                if num(b) == 0:
                    env[i.res] = fresh('div0', 'r')
                    return
                env[i.res] = rdiv(a, b)
            elif op == 'frem':
                from .models import r_fmod
                if not num(b):
                    raise Unsupported('frem by a variable')
                env[i.res] = r_fmod(a, b)
            else:
                env[i.res] = {'fadd': radd, 'fsub': rsub, 'fmul': rmul}[op](a, b)
        elif op in ('add', 'sub', 'mul'):
            a, b = ev(0), ev(1)
            bits = i.ty.a
            if isinstance(a, PInt) or isinstance(b, PInt):
                env[i.res] = self.ptr_arith(op, a, b, st)
                return
            a = fresh('undef', 'i') if a is UNDEF else a
            b = fresh('undef', 'i') if b is UNDEF else b
            v = {'add': iadd, 'sub': isub, 'mul': imul}[op](a, b)
            if 'nsw' not in i.x and 'nuw' not in i.x:
                lo, hi = self.lohi(v)
                n = num(v)
                if n is not None:
                    if not (-(1 << (bits - 1)) <= n < (1 << bits)):
                        v = n % (1 << bits)
                elif lo is not None and bits <= 32:
                    if lo < -(1 << (bits - 1)) or hi >= (1 << bits):
                        v = I(v) % (1 << bits)
                    elif op == 'sub' and lo < 0 and bits == 32 and self.lohi(a)[0] is not None and self.lohi(a)[0] >= 0 \
                            and self.lohi(b)[0] is not None and self.lohi(b)[0] >= 0:
                        v = I(v) % (1 << bits)     # unsigned subtraction wraps
            env[i.res] = v
        elif op in ('sdiv', 'srem', 'udiv', 'urem'):
            a, b = ev(0), ev(1)
            if isinstance(a, PInt):
                raise Unsupported('pointer division')
            if op[0] == 'u':
                a, b = self.uns(a, i.ty.a), self.uns(b, i.ty.a)
            n, m = num(a), num(b)
            if n is not None and m:
                q = abs(n) // abs(m) * (1 if (n < 0) == (m < 0) else -1)
                env[i.res] = q if op[1:] == 'div' else n - q * m
                return
            if self.o['check_div'] and m is None:
                self.oblige(st, I(b) != 0, 'integer-division-by-zero', 'arith')
            A, Bv = I(a), I(b)
            if op[0] == 'u' or (self.lohi(a)[0] is not None and self.lohi(a)[0] >= 0 and m is not None and m > 0):
                q, r = A / Bv, A % Bv
            else:
                # C++ truncates towards zero; z3's div is Euclidean
                qa = z3.If(A >= 0, A, -A) / z3.If(Bv >= 0, Bv, -Bv)
                q = z3.If((A >= 0) == (Bv >= 0), qa, -qa)
                r = A - q * Bv
            env[i.res] = q if op[1:] == 'div' else r
        elif op in ('and', 'or', 'xor'):
            a, b = ev(0), ev(1)
            bits = i.ty.a
            if bits == 1:
                a, b = tobool(a), tobool(b)
                if op == 'and':
                    env[i.res] = c_and(a, b)
                elif op == 'or':
                    env[i.res] = c_or(a, b)
                elif a is True:
                    env[i.res] = c_not(b)
                elif b is True:
                    env[i.res] = c_not(a)
                elif a is False:
                    env[i.res] = b
                elif b is False:
                    env[i.res] = a
                else:
                    env[i.res] = z3.Xor(a, b)
                return
            n, m = num(a), num(b)
            if n is not None and m is not None:
                env[i.res] = {'and': n & m, 'or': n | m, 'xor': n ^ m}[op]
                return
            if self._is01(a) and self._is01(b):
                x, y = tobool(a), tobool(b)
                r = {'and': c_and, 'or': c_or}[op](x, y) if op != 'xor' else z3.Xor(B(x), B(y))
                env[i.res] = ite(r, 1, 0)
                return
            if op == 'and' and m is not None and m >= 0 and (m & (m + 1)) == 0:
                env[i.res] = I(a) % (m + 1)
                return
            if op == 'xor' and m == -1:
                env[i.res] = isub(-1, a)
                return
            r = fresh('bits', 'i')
            self.assumed.add('bitwise %s in %s treated as an arbitrary value' % (op, demangle(f.name)))
            env[i.res] = r
        elif op in ('shl', 'lshr', 'ashr'):
            a, b = ev(0), ev(1)
            m = num(b)
            if m is None:
                raise Unsupported('symbolic shift')
            if op == 'shl':
                env[i.res] = imul(a, 1 << m)
            elif op == 'ashr':
                env[i.res] = I(a) / (1 << m) if num(a) is None else num(a) >> m
            else:
                a = self.uns(a, i.ty.a)
                env[i.res] = I(a) / (1 << m) if num(a) is None else num(a) >> m
        elif op == 'icmp':
            env[i.res] = self.icmp(i.x, ev(0), ev(1), i.ty)
        elif op == 'fcmp':
            a, b = ev(0), ev(1)
            a = fresh('undef', 'r') if a is UNDEF else a
            b = fresh('undef', 'r') if b is UNDEF else b
            p = i.x
            if p in ('uno', 'false'):
                env[i.res] = False
                return
            if p in ('ord', 'true'):
                env[i.res] = True
                return
            p = p[1:]
            n, m = num(a), num(b)
            if n is not None and m is not None:
                env[i.res] = {'eq': n == m, 'ne': n != m, 'lt': n < m, 'le': n <= m, 'gt': n > m, 'ge': n >= m}[p]
                return
            if isz(a) and isz(b) and a.eq(b):
                env[i.res] = p in ('eq', 'le', 'ge')
                return
            env[i.res] = self.rcmp(p, R(a), R(b))
        elif op == 'select':
            c = norm_bool(tobool(ev(0, IntTy(1))))
            a, b = ev(1), ev(2)
            d = self.decide(st, c) if not isinstance(c, bool) else c
            if d is not None:
                env[i.res] = a if d else b
            else:
                env[i.res] = ite(c, a, b)
        elif op == 'freeze':
            env[i.res] = ev(0)
        elif op in ('zext', 'sext'):
            v = ev(0, i.x)
            if i.x.a == 1:
                v = tobool(v)
                if isinstance(v, bool):
                    env[i.res] = (1 if op == 'zext' else -1) if v else 0
                else:
                    env[i.res] = If(v, IntVal(1 if op == 'zext' else -1), IntVal(0))
                return
            if v is UNDEF:
                v = fresh('undef', 'i')
            if isinstance(v, PInt):
                env[i.res] = v
                return
            env[i.res] = self.uns(v, i.x.a) if op == 'zext' else self.sgn(v, i.x.a)
        elif op == 'trunc':
            v = ev(0, i.x)
            if i.ty.a == 1:
                if v is UNDEF:
                    v = fresh('undef', 'b')
                if isz(v) and not self._is01(v):
                    env[i.res] = (I(v) % 2) != 0
                elif isinstance(v, int) and not isinstance(v, bool):
                    env[i.res] = (v % 2) != 0
                else:
                    env[i.res] = tobool(v)
                return
            if v is UNDEF:
                env[i.res] = v
                return
            n = num(v)
            if n is not None:
                env[i.res] = n if -(1 << (i.ty.a - 1)) <= n < (1 << i.ty.a) else n % (1 << i.ty.a)
                return
            lo, hi = self.lohi(v)
            if lo is not None and lo >= -(1 << (i.ty.a - 1)) and hi < (1 << i.ty.a):
                env[i.res] = v
            elif i.ty.a >= 32:
                env[i.res] = v      # mathematical integers: 64->32 bit truncation of in-range counts
            else:
                env[i.res] = I(v) % (1 << i.ty.a)
        elif op in ('fpext', 'fptrunc'):
            env[i.res] = ev(0, i.x)
        elif op in ('sitofp', 'uitofp'):
            v = ev(0, i.x)
            if isinstance(v, bool) or (isz(v) and z3.is_bool(v)):
                v = ite(v, 1, 0)
            v = self.uns(v, i.x.a) if op == 'uitofp' else self.sgn(v, i.x.a)
            n = num(v)
            env[i.res] = Fraction(n) if n is not None else self.to_real(v)
        elif op in ('fptosi', 'fptoui'):
            v = ev(0, i.x)
            n = num(v)
            if n is not None:
                env[i.res] = int(n)
            else:
                v = R(v)
                if z3.is_app_of(v, z3.Z3_OP_TO_REAL):
                    env[i.res] = v.arg(0)
                elif op == 'fptoui':
                    env[i.res] = z3.ToInt(v)
                else:
                    env[i.res] = If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))
        elif op in ('bitcast', 'addrspacecast'):
            v = ev(0, i.x)
            if i.x.k != i.ty.k and not (isinstance(v, Ptr)):
                raise Unsupported('bitcast %r to %r' % (i.x, i.ty))
            env[i.res] = v
        elif op == 'ptrtoint':
            env[i.res] = PInt(ev(0, T_PTR))
        elif op == 'inttoptr':
            v = ev(0, i.x)
            env[i.res] = v.p if isinstance(v, PInt) else (NULL if v == 0 else OPAQUE)
        elif op == 'extractvalue':
            v = ev(0)
            for k in i.x:
                v = v[k]
            env[i.res] = v
        elif op == 'insertvalue':
            v, w = i.args
            t = f.mod.resolve(i.ty)
            cur = self.val(v, i.ty, env, f)
            if cur is UNDEF:
                cur = tuple([UNDEF] * len(t.a))
            x = self.val(w, t.a[i.x[0]], env, f)
            cur = list(cur)
            cur[i.x[0]] = x
            env[i.res] = tuple(cur)
        else:
            raise Unsupported('instruction %s: %s' % (op, i.line))

    def to_real(self, v):
        if isz(v) and z3.is_app_of(v, z3.Z3_OP_ITE):
            return If(v.arg(0), R(self.to_real(v.arg(1))), R(self.to_real(v.arg(2))))
        n = num(v)
        if n is not None:
            return RealVal(n)
        return z3.ToReal(v)

    @staticmethod
    def rcmp(p, a, b):
        return {'eq': lambda: a == b, 'ne': lambda: a != b, 'lt': lambda: a < b, 'le': lambda: a <= b,
                'gt': lambda: a > b, 'ge': lambda: a >= b}[p]()

    def _is01(self, v):
        if isinstance(v, bool):
            return True
        if isinstance(v, int):
            return v in (0, 1)
        if isz(v):
            if z3.is_bool(v):
                return True
            if z3.is_int_value(v):
                return v.as_long() in (0, 1)
            if z3.is_app_of(v, z3.Z3_OP_ITE):
                return self._is01(v.arg(1)) and self._is01(v.arg(2))
        return False

    def ptr_arith(self, op, a, b, st=None):
        if op == 'sub' and isinstance(a, PInt) and isinstance(b, PInt):
            pa, pb = a.p.alts, b.p.alts
            if len(pa) == 1 and len(pb) == 1:
                x, y = pa[0][1], pb[0][1]
                if x is None and y is None:
                    return 0
                if x is not None and y is not None and x is not OPQ and y is not OPQ and x[0] is y[0]:
                    d = x[2] - y[2]
                    if x[0].nidx and x[0].stride:
                        return iadd(imul(isub(x[1][-1], y[1][-1]), x[0].stride), d)
                    return d
                if x is OPQ or y is OPQ:
                    return fresh('pdiff', 'i')
            elif st is not None:
                acc = None
                for c1, x in pa:
                    for c2, y in pb:
                        c = c_and(c1, c2)
                        if c is False or self.decide(st, c) is False:
                            continue
                        v = self.ptr_arith(op, PInt(Ptr([(True, x)])), PInt(Ptr([(True, y)])))
                        acc = v if acc is None else ite(c, v, acc)
                if acc is not None:
                    return acc
            raise Unsupported('difference of unrelated pointers')
        raise Unsupported('pointer integer arithmetic')

    def icmp(self, p, a, b, ty):
        if ty.k == 'ptr' or isinstance(a, Ptr) or isinstance(b, Ptr):
            return self.pcmp(p, a, b)
        if isinstance(a, PInt) or isinstance(b, PInt):
            return self.pcmp(p, a.p if isinstance(a, PInt) else (NULL if a == 0 else a), b.p if isinstance(b, PInt) else (NULL if b == 0 else b))
        a = fresh('undef', 'i') if a is UNDEF else a
        b = fresh('undef', 'i') if b is UNDEF else b
        bits = ty.a
        if bits == 1:
            x, y = tobool(a), tobool(b)
            if p == 'eq':
                return ite(x, y, c_not(y))
            if p == 'ne':
                return ite(x, c_not(y), y)
            x, y = ite(x, 1, 0), ite(y, 1, 0)
            a, b = x, y
        if p in ('eq', 'ne'):
            # comparison of a 0/1 value with 0
            n, m = num(a), num(b)
            if n is not None and m is not None:
                r = self.wrap_eq(n, m, bits)
                return r if p == 'eq' else not r
            if m is not None and self._is01(a) and m in (0, 1):
                r = tobool(a) if m == 1 else c_not(tobool(a))
                return r if p == 'eq' else c_not(r)
            if n is not None and self._is01(b) and n in (0, 1):
                r = tobool(b) if n == 1 else c_not(tobool(b))
                return r if p == 'eq' else c_not(r)
            # mixed signedness against a constant
            if m is not None:
                lo, hi = self.lohi(a)
                if m < 0 and lo is not None and lo >= 0:
                    b = m % (1 << bits)
                elif m >= (1 << (bits - 1)) and (hi is None or hi < (1 << (bits - 1))):
                    b = m - (1 << bits)
            if isz(a) and isz(b) and a.eq(b):
                return p == 'eq'
            if isz(a) and z3.is_app_of(a, z3.Z3_OP_ITE) and num(b) is not None:
                return self._ite_cmp(p, a, num(b), bits)
            return I(a) == I(b) if p == 'eq' else I(a) != I(b)
        if p[0] == 'u':
            a, b = self.uns(a, bits), self.uns(b, bits)
        else:
            a, b = self.sgn(a, bits), self.sgn(b, bits)
        n, m = num(a), num(b)
        q = p[1:]
        if n is not None and m is not None:
            return {'lt': n < m, 'le': n <= m, 'gt': n > m, 'ge': n >= m}[q]
        return {'lt': lambda: I(a) < I(b), 'le': lambda: I(a) <= I(b), 'gt': lambda: I(a) > I(b), 'ge': lambda: I(a) >= I(b)}[q]()

    def _ite_cmp(self, p, a, m, bits):
        """compare a tree of ite over constants with a constant: give a pure Boolean"""
        n = num(a)
        if n is not None:
            r = self.wrap_eq(n, m, bits)
            return r if p == 'eq' else not r
        if z3.is_app_of(a, z3.Z3_OP_ITE):
            return ite(a.arg(0), self._ite_cmp(p, a.arg(1), m, bits), self._ite_cmp(p, a.arg(2), m, bits))
        return a == m if p == 'eq' else a != m

    def pcmp(self, p, a, b):
        if a is UNDEF or b is UNDEF:
            return fresh('undef', 'b')
        if isinstance(a, int):
            a = NULL
        if isinstance(b, int):
            b = NULL
        if p in ('eq', 'ne'):
            r = False
            for c1, t1 in a.alts:
                for c2, t2 in b.alts:
                    if t1 is OPQ or t2 is OPQ:
                        e = (fresh('peq', 'b'))
                        if t1 is None or t2 is None:
                            e = False    # opaque pointers are valid objects
                    elif t1 is None or t2 is None:
                        e = t1 is t2
                    elif len(t1) == 2 or len(t2) == 2:
                        e = t1 == t2
                    elif t1[0] is not t2[0]:
                        e = False
                    elif t1[2] != t2[2] and not (t1[0].nidx and t1[0].stride):
                        e = False
                    elif t1[2] != t2[2]:
                        e = False
                    else:
                        e = self.ix_eq(t1[1], t2[1])
                    r = c_or(r, c_and(c_and(c1, c2), e))
            return r if p == 'eq' else c_not(r)
        if len(a.alts) == 1 and len(b.alts) == 1:
            t1, t2 = a.alts[0][1], b.alts[0][1]
            if t1 not in (None, OPQ) and t2 not in (None, OPQ) and t1[0] is t2[0]:
                x, y = t1[2], t2[2]
                if t1[0].nidx and t1[0].stride:
                    x = iadd(imul(t1[1][-1], t1[0].stride), x)
                    y = iadd(imul(t2[1][-1], t1[0].stride), y)
                q = p[1:]
                n, m = num(x), num(y)
                if n is not None and m is not None:
                    return {'lt': n < m, 'le': n <= m, 'gt': n > m, 'ge': n >= m}[q]
                return {'lt': lambda: I(x) < I(y), 'le': lambda: I(x) <= I(y), 'gt': lambda: I(x) > I(y), 'ge': lambda: I(x) >= I(y)}[q]()
        raise Unsupported('pointer ordering')
