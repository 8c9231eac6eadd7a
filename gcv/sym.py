"""Symbolic values: concrete Python numbers where possible, z3 terms otherwise, guarded pointers."""
from fractions import Fraction
import z3
from z3 import And, Or, Not, If, BoolVal, RealVal, IntVal, is_expr


class Unsupported(Exception):
    """a construct the extraction cannot bring within the verifier's reach"""


TRUE, FALSE = BoolVal(True), BoolVal(False)


def isz(v):
    return isinstance(v, z3.ExprRef)


def R(v):
    if isz(v):
        if z3.is_int(v):
            return z3.ToReal(v)
        return v
    if isinstance(v, Fraction):
        return RealVal(v.numerator) if v.denominator == 1 else z3.Q(v.numerator, v.denominator)
    if isinstance(v, bool):
        raise Unsupported('bool as real')
    if isinstance(v, int):
        return RealVal(v)
    if isinstance(v, float):
        return R(Fraction(v))
    raise Unsupported('real of %r' % (v,))


def I(v):
    if isz(v):
        return v
    if isinstance(v, bool):
        return IntVal(int(v))
    if isinstance(v, int):
        return IntVal(v)
    raise Unsupported('int of %r' % (v,))


def B(v):
    if isz(v):
        return v
    return TRUE if v else FALSE


def c_not(a):
    if isinstance(a, bool):
        return not a
    if z3.is_not(a):
        return a.arg(0)
    if z3.is_true(a):
        return False
    if z3.is_false(a):
        return True
    return Not(a)


def c_and(a, b):
    if a is True or b is False:
        return b
    if b is True or a is False:
        return a
    if a.eq(b):
        return a
    return And(a, b)


def c_or(a, b):
    if a is True or b is False:
        return a
    if b is True or a is False:
        return b
    if a.eq(b):
        return a
    return Or(a, b)


def c_andn(l):
    r = True
    l = [x for x in l if x is not True]
    if any(x is False for x in l):
        return False
    if not l:
        return True
    if len(l) == 1:
        return l[0]
    return And(*l)


def norm_bool(b):
    if isinstance(b, bool):
        return b
    if z3.is_true(b):
        return True
    if z3.is_false(b):
        return False
    return b


class Ptr:
    """guarded alternatives: [(cond, target)]; target: None (null) | (region, ix, off) | ('f', name) | OPQ"""
    __slots__ = ('alts',)

    def __init__(self, alts):
        self.alts = alts

    def __repr__(self):
        return 'Ptr(%s)' % ', '.join('%s:%s' % (c if isinstance(c, bool) else '?', t) for c, t in self.alts)


class _Opq:
    def __repr__(self):
        return 'OPAQUE'


OPQ = _Opq()
NULL = Ptr([(True, None)])
OPAQUE = Ptr([(True, OPQ)])


class Undef:
    def __repr__(self):
        return 'UNDEF'


UNDEF = Undef()


class PInt:
    """integer obtained from a pointer"""
    __slots__ = ('p',)

    def __init__(self, p):
        self.p = p


class Exc:
    """exception object: z3/py int id of its type"""
    __slots__ = ('id', 'sel')

    def __init__(self, id, sel=None):
        self.id, self.sel = id, sel


def mkptr(region, ix=(), off=0):
    return Ptr([(True, (region, ix, off))])


def same_ix(a, b):
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if isz(x) and isz(y):
            if not x.eq(y):
                return False
        elif isz(x) or isz(y) or x != y:
            return False
    return True


def same_target(a, b):
    if a is b:
        return True
    if a is None or b is None or a is OPQ or b is OPQ:
        return False
    if a[0] is b[0] and len(a) == 3 and len(b) == 3:
        return a[2] == b[2] and same_ix(a[1], b[1])
    return a == b if len(a) == 2 and len(b) == 2 else False


def val_eq(a, b):
    """syntactic equality"""
    if a is b:
        return True
    if isz(a) and isz(b):
        return a.eq(b)
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return len(a.alts) == len(b.alts) and all(
            (c1 is c2 or (isz(c1) and isz(c2) and c1.eq(c2)) or c1 is True and c2 is True) and same_target(t1, t2)
            for (c1, t1), (c2, t2) in zip(a.alts, b.alts))
    if isz(a) or isz(b) or isinstance(a, (Ptr, Undef, PInt, Exc)) or isinstance(b, (Ptr, Undef, PInt, Exc)):
        return False
    return type(a) == type(b) and a == b


_fresh = [0]


def reset_fresh():
    _fresh[0] = 0


def fresh(prefix, sort):
    _fresh[0] += 1
    n = '%s!%d' % (prefix, _fresh[0])
    return {'r': z3.Real, 'i': z3.Int, 'b': z3.Bool}[sort](n)


def ite(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if val_eq(a, b):
        return a
    if a is UNDEF:
        return b
    if b is UNDEF:
        return a
    if isinstance(a, Ptr) or isinstance(b, Ptr):
        if isinstance(a, int) and a == 0:
            a = NULL
        if isinstance(b, int) and b == 0:
            b = NULL
        if not (isinstance(a, Ptr) and isinstance(b, Ptr)):
            raise Unsupported('merge of pointer and %r/%r' % (type(a), type(b)))
        out = []
        nc = c_not(c)
        for cond, src in ((c, a), (nc, b)):
            for ci, t in src.alts:
                g = c_and(cond, ci)
                if g is False:
                    continue
                for j, (gj, tj) in enumerate(out):
                    if same_target(t, tj):
                        out[j] = (c_or(gj, g), tj)
                        if t is not None and len(a.alts) == 1 and len(b.alts) == 1:
                            out[j] = (True, tj)
                        break
                    if (t is not None and tj is not None and t is not OPQ and tj is not OPQ and len(t) == 3 and len(tj) == 3
                            and t[0] is tj[0] and t[2] == tj[2] and len(t[1])):
                        ix = tuple(ite(gj, x, y) if not (isz(x) and isz(y) and x.eq(y)) else x for x, y in zip(tj[1], t[1]))
                        out[j] = (c_or(gj, g), (t[0], ix, t[2]))
                        break
                else:
                    out.append((g, t))
        if len(out) == 1:
            out = [(True, out[0][1])]
        return Ptr(out)
    if isinstance(a, Exc) and isinstance(b, Exc):
        return Exc(ite(c, a.id, b.id), ite(c, a.sel, b.sel) if a.sel is not None and b.sel is not None else None)
    if isinstance(a, tuple) and isinstance(b, tuple):
        return tuple(ite(c, x, y) for x, y in zip(a, b))
    if isinstance(a, bool) or isinstance(b, bool) or (isz(a) and z3.is_bool(a)) or (isz(b) and z3.is_bool(b)):
        if a is True and b is False:
            return c
        if a is False and b is True:
            return c_not(c)
        if a is True:
            return c_or(c, b)
        if a is False:
            return c_and(c_not(c), b)
        if b is True:
            return c_or(c_not(c), a)
        if b is False:
            return c_and(c, a)
        return If(c, B(a), B(b))
    if isinstance(a, Fraction) or isinstance(b, Fraction) or (isz(a) and z3.is_real(a)) or (isz(b) and z3.is_real(b)):
        return _nest(c, R(a), R(b))
    if isinstance(a, PInt) or isinstance(b, PInt):
        raise Unsupported('merge of pointer-integers')
    return _nest(c, I(a), I(b))


def _nest(c, a, b):
    # If(c, If(c,x,y), z) -> If(c,x,z)
    if z3.is_app_of(a, z3.Z3_OP_ITE) and a.arg(0).eq(c):
        a = a.arg(1)
    if z3.is_app_of(b, z3.Z3_OP_ITE) and b.arg(0).eq(c):
        b = b.arg(2)
    if a.eq(b):
        return a
    return If(c, a, b)


def num(v):
    """concrete python number of v or None"""
    if isinstance(v, (int, Fraction)):
        return v
    if isz(v):
        if z3.is_int_value(v):
            return v.as_long()
        if z3.is_rational_value(v):
            return Fraction(v.numerator_as_long(), v.denominator_as_long())
    return None


# -------------------------------------------------------------- real arithmetic with folding
def radd(a, b):
    x, y = num(a), num(b)
    if x is not None and y is not None:
        return Fraction(x) + y
    if x == 0:
        return b
    if y == 0:
        return a
    return R(a) + R(b)


def rsub(a, b):
    x, y = num(a), num(b)
    if x is not None and y is not None:
        return Fraction(x) - y
    if y == 0:
        return a
    if isz(a) and isz(b) and a.eq(b):
        return Fraction(0)
    if x == 0:
        return -R(b)
    return R(a) - R(b)


def rmul(a, b):
    x, y = num(a), num(b)
    if x is not None and y is not None:
        return Fraction(x) * y
    if x == 0 or y == 0:
        return Fraction(0)
    if x == 1:
        return b
    if y == 1:
        return a
    # distribute over constant ite arms:  ite(c,1,0)*y
    return R(a) * R(b)


def rdiv(a, b):
    x, y = num(a), num(b)
    if y is not None and y != 0:
        if x is not None:
            return Fraction(x) / y
        if y == 1:
            return a
        return R(a) * R(Fraction(1) / y)
    if x == 0:
        return Fraction(0)
    return R(a) / R(b)


def iadd(a, b):
    x, y = num(a), num(b)
    if x is not None and y is not None:
        return x + y
    if x == 0:
        return b
    if y == 0:
        return a
    # (e + c1) + c2
    if y is not None and isz(a) and z3.is_add(a) and a.num_args() == 2:
        k = num(a.arg(1))
        if k is not None:
            return iadd(a.arg(0), k + y)
    if x is not None:
        return iadd(b, x)
    return I(a) + I(b)


def isub(a, b):
    y = num(b)
    if y is not None:
        return iadd(a, -y)
    if isz(a) and isz(b):
        if a.eq(b):
            return 0
        # (x+c) - x
        if z3.is_add(a) and a.num_args() == 2 and a.arg(0).eq(b):
            return num(a.arg(1)) if num(a.arg(1)) is not None else a.arg(1)
    return I(a) - I(b)


def imul(a, b):
    x, y = num(a), num(b)
    if x is not None and y is not None:
        return x * y
    if x == 0 or y == 0:
        return 0
    if x == 1:
        return b
    if y == 1:
        return a
    return I(a) * I(b)


def tobool(v):
    """i8/i1-style integer to Bool"""
    if isinstance(v, bool):
        return v
    if isinstance(v, int):
        return v != 0
    if isz(v):
        if z3.is_bool(v):
            return norm_bool(v)
        if z3.is_app_of(v, z3.Z3_OP_ITE):
            x, y = num(v.arg(1)), num(v.arg(2))
            if x is not None and y is not None:
                if x != 0 and y == 0:
                    return v.arg(0)
                if x == 0 and y != 0:
                    return c_not(v.arg(0))
                if x == 0 and y == 0:
                    return False
                return True
            t, f = tobool(v.arg(1)), tobool(v.arg(2))
            return ite(v.arg(0), t, f)
        n = num(v)
        if n is not None:
            return n != 0
        return v != 0
    if v is UNDEF:
        return fresh('undef', 'b')
    raise Unsupported('tobool %r' % (v,))
