"""Trusted models of functions outside the verified text: intrinsics, libm, the C++ runtime, strings and messages."""
import re
from fractions import Fraction
import z3
from .sym import *
from .irgen import demangle
from .exec import Result, Region, uf, RS, IS, AMap

OPAQUE_PATTERNS = [
    r'\bbasic_string\b', r'\bbasic_ostringstream\b', r'\bbasic_stringstream\b', r'\bbasic_ostream\b', r'\bbasic_stringbuf\b',
    r'\bstd::ostream\b', r'\bchar_traits\b', r'\bstd::allocator<char>', r'\bTsHsMsg\b', r'\bhsSendMsg\b', r'^std::setprecision',
    r'std::ios_base', r'std::operator\|\(std::_Ios', r'^std::string::', r'basic_ios', r'^std::setw', r'^std::setfill', r'^to_string',
    r'^std::to_string', r'^message_publish', r'^printf$', r'^std::cerr', r'^std::cout', r'[hH]sSendMsg', r'^exec_', r'std::__cxx11::to_string', r'^tsStackTrace',
]
OPAQUE_RE = re.compile('|'.join(OPAQUE_PATTERNS))
EXC_CTOR = re.compile(r'^(Ts\w*Exception|std::\w*(exception|error)|GunnsException\w*)::~?\w+\(|^(Ts\w*Exception)::')

_opq_cache = {}


def is_opaque(name):
    if name not in _opq_cache:
        d = demangle(name)
        head = d
        _opq_cache[name] = bool(OPAQUE_RE.search(_head(d))) or bool(EXC_CTOR.search(d))
    return _opq_cache[name]


def _head(d):
    """qualified function name and, for operators and free functions of std, the arguments"""
    # strip the argument list of repo functions: a Gunns function taking a string is not opaque
    depth = 0
    for i, ch in enumerate(d):
        if ch in '<':
            depth += 1
        elif ch == '>':
            depth -= 1
        elif ch == '(' and depth == 0 and i > 0 and not d[:i].endswith('operator'):
            h = d[:i]
            if h.split()[-1].startswith(('std::operator', 'std::')) if h.split() else False:
                return d
            return h
    return d


def ret_opaque(ex, ty):
    if ty.k == 'void':
        return None
    if ty.k == 'ptr':
        return OPAQUE
    if ty.k == 'int':
        if ty.a == 1:
            return fresh('opq', 'b')
        v = fresh('opq', 'i')
        ex.fact(And(v >= -(1 << (ty.a - 1)), v < (1 << ty.a)))
        return v
    if ty.k in ('double', 'float'):
        return fresh('opq', 'r')
    if ty.k == 'struct':
        return tuple(ret_opaque(ex, t) for t in ty.a)
    raise Unsupported('opaque return %r' % ty)


def r_abs(x):
    n = num(x)
    if n is not None:
        return abs(Fraction(n))
    x = R(x)
    return If(x < 0, -x, x)


def r_minmax(a, b, mx):
    n, m = num(a), num(b)
    if n is not None and m is not None:
        return max(n, m) if mx else min(n, m)
    a, b = R(a), R(b)
    return If(a < b, b, a) if mx else If(b < a, b, a)


def r_sqrt(ex, st, x):
    n = num(x)
    if n is not None:
        import math
        p, q = Fraction(n).numerator, Fraction(n).denominator
        if p >= 0 and math.isqrt(p) ** 2 == p and math.isqrt(q) ** 2 == q:
            return Fraction(math.isqrt(p), math.isqrt(q))
    x = R(x)
    y = uf('sqrt', RS, RS)(x)
    ex.fact(z3.Implies(x >= 0, And(y >= 0, y * y == x)))
    ex.fact(z3.Implies(x > 0, y > 0))
    return y


def r_pow(ex, st, x, y):
    n = num(y)
    if n is not None and Fraction(n).denominator == 1 and 0 <= n <= 6:
        r = Fraction(1)
        for _ in range(int(n)):
            r = rmul(r, x)
        return r
    if n is not None and Fraction(n) == Fraction(1, 2):
        return r_sqrt(ex, st, x)
    if num(x) is not None and num(x) == 1:
        return Fraction(1)
    x, y = R(x), R(y)
    p = uf('pow', RS, RS, RS)(x, y)
    ex.fact(z3.Implies(x > 0, p > 0))
    ex.fact(z3.Implies(And(x == 0, y > 0), p == 0))
    ex.fact(z3.Implies(x >= 0, p >= 0))
    ex.fact(z3.Implies(y == 0, p == 1))
    ex.fact(z3.Implies(y == 1, p == x))
    ex.fact(z3.Implies(x == 1, p == 1))
    ex.fact(z3.Implies(And(x > 1, y > 0), p > 1))
    ex.fact(z3.Implies(And(x > 0, x < 1, y > 0), p < 1))
    return p


def r_fn1(name, axioms=None):
    def g(ex, st, x):
        n = num(x)
        if n is not None:
            import math
            try:
                return Fraction(getattr(math, name)(float(n)))
            except (ValueError, OverflowError, AttributeError):
                pass
        x = R(x)
        y = uf(name, RS, RS)(x)
        if axioms:
            for a in axioms(x, y):
                ex.fact(a)
        return y
    return g


LIBM1 = {
    'exp': r_fn1('exp', lambda x, y: [y > 0, z3.Implies(x <= 0, y <= 1), z3.Implies(x >= 0, y >= 1), z3.Implies(x == 0, y == 1),
                                      y >= 1 + x]),
    'log': r_fn1('log', lambda x, y: [z3.Implies(And(x > 0, x <= 1), y <= 0), z3.Implies(x >= 1, y >= 0), z3.Implies(x > 0, y <= x - 1)]),
    'log10': r_fn1('log10', lambda x, y: [z3.Implies(And(x > 0, x <= 1), y <= 0), z3.Implies(x >= 1, y >= 0)]),
    'sin': r_fn1('sin', lambda x, y: [y <= 1, y >= -1]),
    'cos': r_fn1('cos', lambda x, y: [y <= 1, y >= -1]),
    'tan': r_fn1('tan'),
    'acos': r_fn1('acos', lambda x, y: [y >= 0]),
    'asin': r_fn1('asin'),
    'atan': r_fn1('atan'),
    'tanh': r_fn1('tanh'),
    'cbrt': r_fn1('cbrt'),
}


def r_floor(x):
    n = num(x)
    if n is not None:
        return Fraction(n.__floor__() if isinstance(n, Fraction) else n)
    return z3.ToReal(z3.ToInt(R(x)))


def r_ceil(x):
    n = num(x)
    if n is not None:
        import math
        return Fraction(math.ceil(n))
    return -z3.ToReal(z3.ToInt(-R(x)))


def r_trunc(x):
    n = num(x)
    if n is not None:
        return Fraction(int(n))
    x = R(x)
    return If(x >= 0, z3.ToReal(z3.ToInt(x)), -z3.ToReal(z3.ToInt(-x)))


def r_fmod(x, y):
    return rsub(x, rmul(y, r_trunc(rdiv(x, y))))


def copy_cells(ex, st, dst, src, n):
    """memcpy between objects with the same layout"""
    n = num(n)
    if n is None:
        raise Unsupported('memcpy of symbolic length')
    if n == 0:
        return
    da, sa = ex.live_alts(st, dst), ex.live_alts(st, src)
    if len(da) != 1 or len(sa) != 1:
        raise Unsupported('memcpy through an ambiguous pointer')
    d, s = da[0][1], sa[0][1]
    if d is None or s is None:
        ex.oblige(st, FALSE, 'null-dereference', 'memory')
        return
    if d is OPQ:
        return
    if s is OPQ:
        raise Unsupported('memcpy from unknown memory')
    rd, ixd, od = d
    rs, ixs, os_ = s
    offs = []
    if rs.dt is not None:
        o = os_
        while o < os_ + n:
            leaf = ex.di.leaf(rs.dt, o)
            if leaf is None:
                o += 1
                continue
            path, dt, rest = leaf
            if rest:
                o += 1
                continue
            if dt == 'vptr':
                k, sz = 'p', 8
            elif dt.k == 'ptr':
                k, sz = 'p', 8
            elif dt.k == 'base' and dt.enc == 'float':
                k, sz = 'f', dt.size
            else:
                k, sz = 'i', dt.size
            offs.append((o, k, sz))
            o += max(1, sz)
    else:
        cells = st.mem.get(rs) or {}
        for o, v in cells.items():
            if os_ <= o < os_ + n:
                k = 'p' if isinstance(v, Ptr) else 'f' if isinstance(v, Fraction) or (isz(v) and z3.is_real(v)) else 'i'
                offs.append((o, k, 8))
        if rs.gmod is not None and not cells:
            raise Unsupported('memcpy of global aggregate')
    for o, k, sz in offs:
        v = ex.read_cell(st, rs, o, ixs, k, sz * 8)
        ex.write_cell(st, rd, o - os_ + od, ixd, v, k, sz * 8)


def zero_cells(ex, st, dst, n):
    n = num(n)
    if n is None:
        raise Unsupported('memset of symbolic length')
    for c, t in ex.live_alts(st, dst):
        if t is None:
            ex.oblige(st, c_not(c), 'null-dereference', 'memory')
            continue
        if t is OPQ:
            continue
        r, ix, off = t
        if r.dt is not None:
            o = off
            while o < off + n:
                leaf = ex.di.leaf(r.dt, o)
                if leaf and leaf[2] == 0 and leaf[1] != 'vptr':
                    dt = leaf[1]
                    k = 'p' if dt.k == 'ptr' else 'f' if dt.k == 'base' and dt.enc == 'float' else 'i'
                    ex.write_cell(st, r, o, ix, {'p': NULL, 'f': Fraction(0), 'i': 0}[k], k, 32, c)
                    o += max(1, dt.size)
                else:
                    o += 1
        elif r.kind in ('alloca', 'heap') and getattr(r, 'irty', None):
            ty, m = r.irty

            def walk(ty, base):
                t2 = m.resolve(ty)
                if t2.k == 'array':
                    es = m.sizeof(t2.b)
                    for j in range(t2.a):
                        walk(t2.b, base + j * es)
                elif t2.k == 'struct':
                    for j in range(len(t2.a)):
                        o, e = m.field_off(t2, j)
                        walk(e, base + o)
                elif off <= base < off + n:
                    k = {'int': 'i', 'ptr': 'p'}.get(t2.k, 'f')
                    ex.write_cell(st, r, base, ix, {'p': NULL, 'f': Fraction(0), 'i': 0}[k], k, 32, c)
            walk(ty, 0)
        else:
            r.zero = True
            for o in range(off, off + n):
                r.consts[o] = 0


def dyn_cast(ex, args):
    dst = args[2].alts[0][1][0].name[len('@_ZTI'):]

    def bases(t, o=0):
        yield ex.di.mangled(t), o
        ex.di.full(t)
        for bo, bt in t.bases:
            if bt.size:
                yield from bases(bt, o + bo)
    out = []
    for c, t in args[0].alts:
        if t is None or t is OPQ:
            out.append((c, t))
            continue
        r, ix, off = t
        cls = r.dyn.get(off)
        dt = ex.di.cls(re.sub(r'^\d+', '', cls)) if cls else ex.di.class_at(r.dt, off)
        if dt is None or isinstance(dt, tuple):
            raise Unsupported('dynamic_cast of an object of unknown class')
        for m, o in bases(dt):
            if m == dst:
                out.append((c, (r, ix, off + o)))
                break
        else:
            out.append((c, None))
    return Ptr(out)


_cls_float = re.compile(r'llvm\.(\w+)\.(f64|f32|f80|x86_fp80)')


def model(ex, name, args, st, inst):
    """Result, or None if the function has to be executed from its body"""
    ok = lambda v=None: Result(st, v, None)
    if name.startswith('llvm.'):
        p = name.split('.')
        b = p[1]
        if b in ('dbg', 'lifetime', 'assume', 'experimental', 'donothing', 'invariant', 'prefetch', 'stacksave', 'stackrestore'):
            return ok(OPAQUE)
        if b == 'memcpy' or b == 'memmove':
            copy_cells(ex, st, args[0], args[1], args[2])
            return ok()
        if b == 'memset':
            v = num(args[1])
            if v is None or v != 0:
                raise Unsupported('memset of non-zero')
            zero_cells(ex, st, args[0], args[2])
            return ok()
        if b == 'fabs':
            return ok(r_abs(args[0]))
        if b == 'sqrt':
            ex.oblige(st, R(args[0]) >= 0, 'sqrt-of-negative', 'arith') if ex.o['check_div'] else None
            return ok(r_sqrt(ex, st, args[0]))
        if b == 'pow':
            return ok(r_pow(ex, st, args[0], args[1]))
        if b == 'powi':
            return ok(r_pow(ex, st, args[0], args[1]))
        if b in ('fmuladd', 'fma'):
            return ok(radd(rmul(args[0], args[1]), args[2]))
        if b in ('maxnum', 'minnum'):
            return ok(r_minmax(args[0], args[1], b == 'maxnum'))
        if b == 'floor':
            return ok(r_floor(args[0]))
        if b == 'ceil':
            return ok(r_ceil(args[0]))
        if b == 'trunc':
            return ok(r_trunc(args[0]))
        if b == 'rint' or b == 'nearbyint' or b == 'round':
            x = R(args[0])
            if b == 'round':
                return ok(If(x >= 0, z3.ToReal(z3.ToInt(x + z3.Q(1, 2))), -z3.ToReal(z3.ToInt(-x + z3.Q(1, 2)))))
            y = fresh('rint', 'r')
            ex.fact(And(y - x <= z3.Q(1, 2), x - y <= z3.Q(1, 2)))
            return ok(y)
        if b == 'copysign':
            x, s = r_abs(args[0]), R(args[1])
            return ok(If(s >= 0, R(x), -R(x)))
        if b in LIBM1:
            return ok(LIBM1[b](ex, st, args[0]))
        if b == 'is' and p[2] == 'fpclass':
            return ok(False)
        if b == 'trap':
            return Result(None, None, None)
        if b == 'eh' and p[2] == 'typeid':
            t = args[0].alts[0][1]
            nm = t[0].name[1:] if len(t) == 3 else t[1]
            return ok(ex.excid(nm))
        if b == 'umax' or b == 'smax':
            return ok(If(I(args[0]) < I(args[1]), I(args[1]), I(args[0])))
        if b == 'umin' or b == 'smin':
            return ok(If(I(args[0]) < I(args[1]), I(args[0]), I(args[1])))
        if b == 'abs':
            return ok(If(I(args[0]) < 0, -I(args[0]), I(args[0])))
        if b == 'expect' or b == 'launder' or b == 'strip':
            return ok(args[0])
        if b == 'umul' or b == 'uadd':
            v = (imul if b == 'umul' else iadd)(args[0], args[1])
            return ok((v, False))
        raise Unsupported('intrinsic ' + name)
    if name == '__dynamic_cast':
        return ok(dyn_cast(ex, args))
    if name == '__cxa_allocate_exception':
        return ok(OPAQUE)
    if name == '__cxa_throw':
        t = args[1].alts[0][1]
        return Result(None, None, (st, Exc(ex.excid(t[0].name[1:]))))
    if name in ('__cxa_begin_catch',):
        v = args[0]
        r = ex.region('$caught', None, size=8) if '$caught' not in ex.regions else ex.regions['$caught']
        r.kind = 'heap'
        st.wcells(r)[0] = v.id if isinstance(v, Exc) else 0
        return ok(OPAQUE)
    if name == '__cxa_rethrow':
        r = ex.regions['$caught']
        return Result(None, None, (st, Exc(st.mem[r][0])))
    if name in ('__cxa_end_catch', '__cxa_free_exception', '__cxa_guard_release', '__cxa_guard_abort', '__cxa_atexit', '__cxa_get_exception_ptr'):
        return ok(0 if name == '__cxa_atexit' else OPAQUE)
    if name in ('_ZSt9terminatev', '__clang_call_terminate', 'abort', 'exit', '__cxa_pure_virtual'):
        if name == '__cxa_pure_virtual':
            raise Unsupported('pure virtual call')
        return Result(None, None, None)
    if name.startswith('_ZSt') and '__throw_' in name:
        return Result(None, None, (st, Exc(ex.excid('_ZTISt9exception'))))
    if name in ('_Znwm', '_Znam', '_ZnwmRKSt9nothrow_t', '_ZnamRKSt9nothrow_t', 'malloc'):
        n = num(args[0])
        r = Region('new%d' % (len(ex.regions) + 1), None, n, kind='heap')
        ex.regions[r.name] = r
        if n is None:
            # array of k elements: byte size k*es
            e = args[0]
            es = 8
            cnt = None
            if isz(e) and z3.is_mul(e):
                for x in e.children():
                    if num(x) is not None:
                        es = num(x)
                        cnt = [y for y in e.children() if y is not x][0]
            if cnt is None:
                raise Unsupported('allocation of symbolic size')
            r.nidx, r.stride, r.count = 1, es, cnt
            return ok(Ptr([(True, (r, (0,), 0))]))
        return ok(mkptr(r))
    if name in ('_ZdlPv', '_ZdaPv', '_ZdlPvm', '_ZdaPvm', 'free', '_ZdlPvSt11align_val_t'):
        return ok()
    if name in ('fabs', 'fabsf'):
        return ok(r_abs(args[0]))
    if name in ('fmax', 'fmin'):
        return ok(r_minmax(args[0], args[1], name == 'fmax'))
    if name in ('sqrt', 'sqrtf'):
        return ok(r_sqrt(ex, st, args[0]))
    if name in ('pow', 'powf'):
        return ok(r_pow(ex, st, args[0], args[1]))
    if name in ('floor',):
        return ok(r_floor(args[0]))
    if name in ('ceil',):
        return ok(r_ceil(args[0]))
    if name == 'fmod' and num(args[1]):
        return ok(r_fmod(args[0], args[1]))
    if name == 'atan2' or name == 'fmod':
        return ok(uf(name, RS, RS, RS)(R(args[0]), R(args[1])))
    if name in LIBM1:
        return ok(LIBM1[name](ex, st, args[0]))
    if name in ('isnan', '_ZSt5isnand', '_ZSt5isinfd', 'isinf', '_ZSt5isnanf', '_ZSt5isinff'):
        return ok(False if inst and inst.ty.k == 'int' and inst.ty.a == 1 else 0)
    if name in ('_ZSt8isfinited', '_ZSt8isfinitef'):
        return ok(True)
    if name == 'abs':
        return ok(If(I(args[0]) < 0, -I(args[0]), I(args[0])))
    if name in ('memcpy', 'memmove'):
        copy_cells(ex, st, args[0], args[1], args[2])
        return ok(args[0])
    if name == 'memset':
        zero_cells(ex, st, args[0], args[2])
        return ok(args[0])
    if name == 'strlen':
        return ok(ret_opaque(ex, inst.ty))
    if is_opaque(name):
        ex.opaque.add(demangle(name)[:120])
        return ok(ret_opaque(ex, inst.ty) if inst is not None else None)
    return None
