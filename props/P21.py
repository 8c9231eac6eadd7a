"""Rigid body dynamics: vector and quaternion utilities, Euler angles, Newton-Euler equations of motion."""
import math
from gcv.api import *
from gcv.lib import *
ID = 'P21'
A = 'aspects/dynamics/'
SEQ = ('123', '132', '213', '231', '312', '321')
SOURCES = [A + 'GunnsDynUtils.cpp', A + 'GunnsDynEulerBase.cpp', A + 'GunnsDynEulerFactory.cpp', A + 'GunnsDynSingleRigidMassProps.cpp', A + 'GunnsDynSingleRigidStateDeriv.cpp', A + 'GunnsDynSingleRigidEom.cpp', 'core/GunnsBasicLink.cpp', 'ms-utils/math/UnitConversion.cpp'] + [A + 'GunnsDynEuler%s.cpp' % s for s in SEQ]
META = dict(
    title='Rigid body dynamics: proper rotations, Euler round trips, Newton-Euler motion',
    statement='The matrix of a unit quaternion is a proper rotation by its axis and angle, and the quaternion of that matrix is the quaternion again up to sign; for each of the six Euler sequences the quaternion of three angles is the product of the three elementary rotations in that order, and the angles extracted from any quaternion give its rotation back, at gimbal lock too. The quaternion rate keeps its norm and turns its matrix at the body rate, and normalization keeps the direction. The accelerations solved for a rigid body obey Newton and Euler: the total of the active forces is its mass times the acceleration of its centre of mass, and their total torque about the centre of mass is the rate of its angular momentum, wherever the centre of mass lies in the body frame.',
    over=['inputs'],
    quant='every quaternion, angle triple, mass property, centre of mass offset, rate, force, location and torque',
    why='unit tests compare a few angles and one body with the centre of mass at the origin; a sign or an index that matters only at gimbal lock, in one sequence or with an offset centre of mass goes unseen',
    files=SOURCES,
    mech=[('rotations', A + 'GunnsDynUtils.cpp'), ('Euler angles', A + 'GunnsDynEuler*.cpp'), ('motion', A + 'GunnsDynSingleRigidStateDeriv.cpp')],
    note='real arithmetic; sin, cos, asin and atan2 as functions with their defining identities, PI_OVER_2 taken as the exact quarter turn; vectors of 2 to 4 elements, two forces and two torques (bounded); the linear solve of the accelerations is P01')
U = 'GunnsDynUtils::'


def v_(a, n):
    return [a[i] for i in range(n)]


def dot(a, b):
    r = R(0)
    for x, y in zip(a, b):
        r = r + x * y
    return r


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def mm(a, b):
    return [dot(a[3 * i:3 * i + 3], b[j::3]) for i in range(3) for j in range(3)]


def tr(a):
    return [a[3 * j + i] for i in range(3) for j in range(3)]


def skew(v):
    return [R(0), -v[2], v[1], v[2], R(0), -v[0], -v[1], v[0], R(0)]


def eq(a, b):
    return conj([x == y for x, y in zip(a, b)])


def quat(S, name='q'):
    q = S.arr('double', 4, name)
    if S.mode == 'con':
        n = math.sqrt(sum(fl(q[i]) ** 2 for i in range(4)))
        if n < 1e-3:
            raise Reject()
        for i in range(4):
            S.write(q, i, fl(q[i]) / n)
    else:
        S.require(q[0] * q[0] + q[1] * q[1] + q[2] * q[2] + q[3] * q[3] == 1)
    return q


def fl(x):
    x = z3.simplify(x) if not isinstance(x, (int, float)) else x
    return float(x.as_fraction()) if hasattr(x, 'as_fraction') else float(x)


def matrix(S):
    q = quat(S)
    m = S.arr('double', 9, 'm')
    S.call(U + 'QtoM', m, q)
    Q, M = v_(q, 4), v_(m, 9)
    I3 = [R(1), R(0), R(0)] * 1 + [R(0), R(1), R(0)] + [R(0), R(0), R(1)]
    S.ensure('rows are orthogonal unit vectors', eq(mm(M, tr(M)), I3))
    S.ensure('turns without mirroring', eq(cross(M[0:3], M[3:6]), M[6:9]))
    S.ensure('the axis of the quaternion stays in place', eq([dot(M[3 * i:3 * i + 3], Q[1:]) for i in range(3)], Q[1:]))
    S.ensure('turns by the angle of the quaternion', M[0] + M[4] + M[8] == 4 * Q[0] * Q[0] - 1)
    S.ensure('turns in the direction of the quaternion', eq([x - y for x, y in zip(M, tr(M))], [4 * Q[0] * x for x in skew(Q[1:])]))


def back(S):
    """the quaternion of the matrix of a quaternion"""
    q = quat(S)
    m, r = S.arr('double', 9, 'm'), S.arr('double', 4, 'r')
    Q = v_(q, 4)
    S.call(U + 'QtoM', m, q)
    S.call(U + 'MtoQ', r, m, may_throw=True)
    S.ensure('only the half turn is refused', S.threw == (Q[0] == 0))
    settled(S)
    Rq = v_(r, 4)
    S.ensure('scalar part', And(Rq[0] > 0, Rq[0] * Rq[0] == Q[0] * Q[0]))
    S.ensure('same quaternion up to sign', conj([Rq[i] * Rq[0] == Q[i] * Q[0] for i in (1, 2, 3)]))


def settled(S):
    if S.mode == 'con' and z3.is_true(S.threw):
        raise Reject()
    if S.mode == 'sym':
        S.st.pc += (Not(S.threw),)


def qdot(S):
    q = quat(S)
    w = S.arr('double', 3, 'w')
    d = S.arr('double', 4, 'd')
    Q, W = v_(q, 4), v_(w, 3)
    S.call(U + 'Qdot', d, q, w)
    Dq = v_(d, 4)
    S.ensure('keeps the norm', dot(Q, Dq) == 0)
    m = S.arr('double', 9, 'm')
    S.call(U + 'QtoM', m, q)
    M = v_(m, 9)
    # the rate of the matrix: it is quadratic in the quaternion, M(q) = 1 + B(q, q), so its rate is 2 B(q, qdot)
    a, b = Q, Dq
    s = lambda i, j: a[i] * b[j] + a[j] * b[i]
    rate = [-2 * (s(2, 2) + s(3, 3)), 2 * (s(1, 2) - s(0, 3)), 2 * (s(1, 3) + s(0, 2)), 2 * (s(1, 2) + s(0, 3)), -2 * (s(1, 1) + s(3, 3)), 2 * (s(2, 3) - s(0, 1)), 2 * (s(1, 3) - s(0, 2)), 2 * (s(2, 3) + s(0, 1)), -2 * (s(1, 1) + s(2, 2))]
    S.ensure('turns the matrix at the body rate', eq(rate, [-x for x in mm(skew(W), M)]))


def algebra(S, n, alias):
    """vectors and matrices of n elements; the result may be one of the arguments"""
    S.bounded('vectors of %d elements' % n)
    k = S.real('k')
    m = S.arr('double', n * n, 'mat')
    M = v_(m, n * n)

    def go(f, build):
        b, c, r = [S.arr('double', n, x + ' ' + f) for x in 'bcr']
        to = {'': r, 'b': b, 'c': c}[alias]
        B_, C_ = v_(b, n), v_(c, n)
        x = S.call(U + f, *build(to, b, c))
        return B_, C_, v_(to, n), x
    B_, C_, o, _ = go('addV', lambda t, b, c: (t, b, c, n))
    S.ensure('sum', eq(o, [x + y for x, y in zip(B_, C_)]))
    B_, C_, o, _ = go('subtractV', lambda t, b, c: (t, b, c, n))
    S.ensure('difference', eq(o, [x - y for x, y in zip(B_, C_)]))
    B_, C_, o, _ = go('scaleV', lambda t, b, c: (t, b, k, n))
    S.ensure('multiple', eq(o, [x * k for x in B_]))
    B_, C_, o, _ = go('multiplyMV', lambda t, b, c: (t, m, c, n))
    S.ensure('matrix times vector', eq(o, [dot(M[n * i:n * i + n], C_) for i in range(n)]))
    B_, C_, o, _ = go('multiplyMtV', lambda t, b, c: (t, m, c, n))
    S.ensure('transposed matrix times vector', eq(o, [dot(M[i::n], C_) for i in range(n)]))
    B_, C_, o, x = go('dotV', lambda t, b, c: (b, c, n))
    S.ensure('scalar product', x == dot(B_, C_))
    B_, C_, o, g = go('magV', lambda t, b, c: (b, n))
    S.ensure('length', And(g >= 0, g * g == dot(B_, B_)))
    B_, C_, o, x = go('isNonZeroV', lambda t, b, c: (b, n))
    S.ensure('not all zero', x == disj([y != 0 for y in B_]))
    B_, C_, o, _ = go('setV', lambda t, b, c: (t, c, n))
    S.ensure('copy', eq(o, C_))
    B_, C_, o, _ = go('zeroV', lambda t, b, c: (t, n))
    S.ensure('zero', eq(o, [R(0)] * n))


def cross3(S, alias):
    b, c, r = S.arr('double', 3, 'b'), S.arr('double', 3, 'c'), S.arr('double', 3, 'r')
    to = {'': r, 'b': b, 'c': c}[alias]
    B_, C_ = v_(b, 3), v_(c, 3)
    S.call(U + 'crossV3', to, b, c)
    S.ensure('vector product', eq(v_(to, 3), cross(B_, C_)))
    m = S.arr('double', 9, 'm')
    a = S.arr('double', 3, 'a')
    S.call(U + 'skew', m, a)
    S.ensure('matrix of the vector product', eq(v_(m, 9), skew(v_(a, 3))))


def product(S, n, alias):
    S.bounded('matrices of %d rows' % n)
    N = n * n
    b, c, r = S.arr('double', N, 'b'), S.arr('double', N, 'c'), S.arr('double', N, 'r')
    to = {'': r, 'b': b, 'c': c}[alias]
    B_, C_ = v_(b, N), v_(c, N)
    S.call(U + 'multiplyMM', to, b, c, n)
    S.ensure('matrix product', eq(v_(to, N), [dot(B_[n * i:n * i + n], C_[j::n]) for i in range(n) for j in range(n)]))
    S.call(U + 'setM', to, c, n)
    S.ensure('copy', eq(v_(to, N), v_(c, N)))


def unit(S, kind):
    n = 4 if kind == 'quaternion' else 3
    a = S.arr('double', n, 'a')
    V = v_(a, n)
    d = dot(V, V)
    if kind == 'quaternion':
        S.require(d > D(0.000001))
        S.call(U + 'normalizeQ', a)
        W = v_(a, n)
        e = dot(W, W)
        tol = D(0.00000023842)
        near = abs_(1 - d) < tol
        # 1 - e is the square of (1 - d) / (1 + d), so less than that of the tolerance
        S.ensure('length one, within the square of the tolerance near it', Implies(near, e * (1 + d) * (1 + d) == 4 * d))
        S.ensure('length one', Implies(Not(near), e == 1))
    else:
        g = S.sqrt(d)
        short = g < D(2.220446049250313e-16)
        if kind == 'vector':
            S.call(U + 'normalizeV', a, may_throw=True)
            S.ensure('only a vector without length is refused', S.threw == short)
            settled(S)
        else:
            ok = S.call(U + 'normalizeVSuccess', a, n)
            S.ensure('only a vector without length is refused', ok == Not(short))
            S.ensure('and left as it is', Implies(short, eq(v_(a, n), V)))
            short0 = short
        W = v_(a, n)
        S.ensure('length one', Implies(Not(short), dot(W, W) == 1) if kind != 'vector' else dot(W, W) == 1)
    S.ensure('same direction', conj([W[i] * V[j] == W[j] * V[i] for i in range(n) for j in range(i)]))
    S.ensure('not reversed', dot(V, W) >= 0)


def axis(k, s, c):
    """elementary left-handed rotation of the frame about axis k (1, 2, 3), as a matrix that takes inertial to body components"""
    o, z = R(1), R(0)
    return {1: [o, z, z, z, c, s, z, -s, c], 2: [c, z, -s, z, o, z, s, z, c], 3: [c, s, z, -s, c, z, z, z, o]}[k]


def euler_matrix(seq, sc):
    m = None
    for ch, (s, c) in zip(seq, sc):
        a = axis(int(ch), s, c)
        m = a if m is None else mm(a, m)
    return m


def to_quat(S, seq):
    cls = 'GunnsDynEuler' + seq
    this = S.obj(cls, 'this')
    S.dyn(this, cls)
    q = S.arr('double', 4, 'q')
    e = S.arr('double', 3, 'angles')
    half = []
    for i in range(3):
        h = D(0.5) * e[i]
        s, c = S.fun('sin', h), S.fun('cos', h)
        S.require(s * s + c * c == 1) if S.mode == 'sym' else None
        half.append((s, c))
    S.call('GunnsDynEulerBase::computeQuat', this, q, e)
    Q = v_(q, 4)
    m = S.arr('double', 9, 'm')
    S.ensure('unit quaternion', dot(Q, Q) == 1)
    S.ensure('keeps the angles', And(eq(v_(this.mAngles, 3), v_(e, 3)), eq(v_(this.mPrevAngles, 3), v_(e, 3))))
    S.call(U + 'QtoM', m, q)
    want = euler_matrix(seq, [(2 * s * c, c * c - s * s) for s, c in half])
    M = v_(m, 9)
    for i in range(9):
        S.ensure('the three elementary rotations in the order of the sequence', M[i] == want[i])


def libm(S):
    """atan2 and asin by their defining identities"""
    ident = []

    def ang(K, s, c):
        t = K.fresh_real('angle')
        K.assume(And(S.fun('sin', t) == s, S.fun('cos', t) == c, s * s + c * c == 1))
        return t

    def atan2(K, y, x):
        r, s, c = K.fresh_real('r'), K.fresh_real('s'), K.fresh_real('c')
        K.require('atan2 of a direction', Or(x != 0, y != 0))
        K.assume(And(r > 0, r * r == x * x + y * y, s * r == y, c * r == x))
        return ang(K, s, c)

    def asin(K, x):
        c = K.fresh_real('c')
        K.require('asin within -1 to 1', And(x >= -1, x <= 1))
        K.assume(c >= 0)
        return ang(K, x, c)
    S.use('atan2', atan2)
    S.use('asin', asin)


QUARTER = D(math.pi / 2)


def from_quat(S, seq, where):
    """the angles of the quaternion whose matrix is that of the angles a1, a2, a3: away from, and at, gimbal lock"""
    cls = 'GunnsDynEuler' + seq
    this = S.obj(cls, 'this')
    S.dyn(this, cls)
    q = S.arr('double', 4, 'q')
    if S.mode == 'con':
        e = S.arr('double', 3, 'angles')
        if where:
            S.write(e, 1, where * math.pi / 2)
            S.write(e, 2, 0.0)
        else:
            S.write(e, 1, math.atan(fl(e[1])) * 0.99)
        S.call('GunnsDynEulerBase::computeQuat', this, q, e)
        sc = [(S.fun('sin', e[i]), S.fun('cos', e[i])) for i in range(3)]
    else:
        sc = [(S.real('s%d' % (i + 1)), S.real('c%d' % (i + 1))) for i in range(3)]
        for s, c in sc:
            S.require(s * s + c * c == 1)
        if where:
            sc[1] = (R(where), R(0))
            sc[2] = (R(0), R(1))
        else:
            S.require(And(sc[1][1] > 0, abs_(sc[1][0]) < D(math.sin(math.pi / 2 - 1e-6))))
        libm(S)
    M = euler_matrix(seq, sc)
    if S.mode == 'sym':
        for k in range(9):
            S.use(U + 'QtoM%d' % k, lambda K, p, k=k: z3.simplify(M[k]))
    S.call('GunnsDynEulerBase::update', this, q)
    a = v_(this.mAngles, 3)
    got = [(S.fun('sin', x), S.fun('cos', x)) for x in (a[:1] if where else a)]
    if where:
        S.ensure('second angle a quarter turn, third angle zero', And(a[1] == where * QUARTER, a[2] == 0))
        N = euler_matrix(seq, [got[0], sc[1], (R(0), R(1))])
        for i in range(9):
            S.ensure('the angles give the rotation back at gimbal lock', N[i] == M[i])
    else:
        for i in range(3):
            S.ensure('the angles give the rotation back', And(got[i][0] == sc[i][0], got[i][1] == sc[i][1]))
    S.ensure('remembers the angles', eq(v_(this.mPrevAngles, 3), a))


def no_rotation(S, seq):
    """a quaternion that is no rotation is refused"""
    cls = 'GunnsDynEuler' + seq
    this = S.obj(cls, 'this')
    S.dyn(this, cls)
    q = S.arr('double', 4, 'q')
    m = [S.real('m%d' % k) for k in range(9)]
    if S.mode == 'con':
        raise Reject()
    i = {'123': 6, '132': 3, '213': 7, '231': 1, '312': 5, '321': 2}[seq]
    S.require(abs_(m[i]) > D(1.000001))
    S.use('atan2', lambda K, y, x: K.fresh_real('t'))
    S.use('asin', lambda K, x: K.fresh_real('t'))
    for k in range(9):
        S.use(U + 'QtoM%d' % k, lambda K, p, k=k: m[k])
    S.call('GunnsDynEulerBase::update', this, q, may_throw=True)
    S.ensure('refused', S.threw)


HARNESSES = [('quaternion to matrix', matrix), ('matrix to quaternion', back), ('quaternion rate', qdot)]
HARNESSES += [('vectors %d%s' % (n, ' onto ' + a if a else ''), algebra, (n, a)) for n in (2, 3, 4) for a in ('', 'b', 'c')]
HARNESSES += [('vector product' + (' onto ' + a if a else ''), cross3, (a,)) for a in ('', 'b', 'c')]
HARNESSES += [('matrix product %d%s' % (n, ' onto ' + a if a else ''), product, (n, a)) for n in (2, 3) for a in ('', 'b', 'c')]
HARNESSES += [('normalize ' + k, unit, (k,)) for k in ('quaternion', 'vector', 'vector or not')]
HARNESSES += [('angles to quaternion ' + s, to_quat, (s,)) for s in SEQ]
HARNESSES += [('quaternion to angles %s%s' % (s, {0: '', 1: ' up', -1: ' down'}[w]), from_quat, (s, w)) for s in SEQ for w in (0, 1, -1)]
HARNESSES += [('no rotation ' + s, no_rotation, (s,)) for s in SEQ]


def body(S):
    cls = 'GunnsDynSingleRigidStateDeriv'
    this = S.obj(cls, 'this')
    S.dyn(this, cls)
    mp = S.obj('GunnsDynSingleRigidMassProps', 'massProps')
    st = S.obj('GunnsDynRotationalState', 'rotation')
    S.bind(this, 'mRotationalState', st)
    S.bind(this, 'mMassProps', mp)
    A_, w = S.arr('double', 36, 'A'), S.arr('double', 6, 'w')
    S.bind(this, 'mAdmittanceMatrix', A_)
    S.bind(this, 'mSourceVector', w)
    S.require(mp.mMass >= D(2.220446049250313e-16))
    return this, mp, st, A_, w


def inertia(mp):
    return [mp.mIxx, mp.mIxy, mp.mIxz, mp.mIxy, mp.mIyy, mp.mIyz, mp.mIxz, mp.mIyz, mp.mIzz]


def mv(m, v):
    return [dot(m[3 * i:3 * i + 3], v) for i in range(3)]


def add(*vs):
    r = list(vs[0])
    for v in vs[1:]:
        r = [x + y for x, y in zip(r, v)]
    return r


def times(k, v):
    return [k * x for x in v]


def same_props(a, b):
    return And(a.mMass == b.mMass, eq(v_(a.mCM, 3), v_(b.mCM, 3)), eq(inertia(a), inertia(b)))


def matrix_of(mp, x, y):
    """the mass matrix on accelerations x of the origin and y about it"""
    c, m = v_(mp.mCM, 3), mp.mMass
    f = times(m, add(x, cross(y, c)))
    t = add(mv(inertia(mp), y), cross(c, f))
    return f + t


def mass_matrix(S):
    this, mp, st, A_, w = body(S)
    pre = S.snap()
    last = pre(this).mLastMassProps
    # the matrix is that of the mass properties it was built with
    x, y = [S.real('x%d' % i) for i in range(3)], [S.real('y%d' % i) for i in range(3)]
    if S.mode == 'con':
        raise Reject()
    z = x + y
    rows = lambda: [dot([A_[6 * i + j] for j in range(6)], z) for i in range(6)]
    same = same_props(mp, last)
    old = [A_[i] for i in range(36)]
    S.call('GunnsDynSingleRigidStateDeriv::buildAdmittanceMatrix', this)
    want = matrix_of(mp, x, y)
    R_ = rows()
    for i in range(6):
        S.ensure('the mass matrix of the offset body', Implies(Not(same), R_[i] == want[i]))
    S.ensure('kept while the mass properties are the same', Implies(same, conj([A_[i] == old[i] for i in range(36)])))
    S.ensure('the solver is told to decompose a new matrix', If(same, this.mAdmittanceUpdate == pre(this).mAdmittanceUpdate, this.mAdmittanceUpdate))
    S.ensure('remembers the mass properties', same_props(this.mLastMassProps, mp))


def motion(S, nf, nt):
    this, mp, st, A_, w = body(S)
    S.bounded('%d forces and %d torques' % (nf, nt))
    fs = [S.obj('GunnsDynAppliedForce', 'force%d' % i) for i in range(nf)]
    ts = [S.obj('GunnsDynAppliedTorque', 'torque%d' % i) for i in range(nt)]
    a = S.vec(this, 'mAppliedForces', 'GunnsDynAppliedForce *', nf, 'forces')
    b = S.vec(this, 'mAppliedTorques', 'GunnsDynAppliedTorque *', nt, 'torques')
    for i in range(nf):
        S.bind(a, i, fs[i])
    for i in range(nt):
        S.bind(b, i, ts[i])
    acc, alpha = [S.real('acc%d' % i) for i in range(3)], [S.real('alpha%d' % i) for i in range(3)]
    S.call('GunnsDynSingleRigidStateDeriv::buildSourceVector', this)
    zero = [R(0)] * 3
    on = lambda o, v: [If(o.mActive, x, R(0)) for x in v]
    F = add(zero, *[on(f, v_(f.mForce, 3)) for f in fs])
    c, m, om = v_(mp.mCM, 3), mp.mMass, v_(st.mVelocity, 3)
    sub = lambda p, q: [x - y for x, y in zip(p, q)]
    T = add(zero, *([on(f, cross(sub(v_(f.mLocation, 3), c), v_(f.mForce, 3))) for f in fs] + [on(t, v_(t.mTorque, 3)) for t in ts]))
    S.ensure('total of the active forces', eq(v_(this.mAppliedForce, 3), F))
    if S.mode == 'con':
        raise Reject()
    # what the solver solves: mass matrix (harness 'mass matrix') times accelerations is the source vector
    W = v_(w, 6)
    spin = cross(om, cross(om, c))
    Icm = inertia(mp)
    newton = sub(times(m, add(acc, cross(alpha, c), spin)), F)
    about = sub(add(mv(Icm, alpha), cross(om, mv(Icm, om))), T)
    lhs = matrix_of(mp, acc, alpha)
    res = sub(lhs, W)
    # the residual of the equations is that of Newton's law and, moved to the origin, that of Euler's law
    for i in range(3):
        S.ensure('force is mass times acceleration of the centre of mass', res[i] == newton[i])
    e2 = add(about, cross(c, newton))
    for i in range(3):
        S.ensure('torque about the centre of mass is the rate of angular momentum', res[3 + i] == e2[i])


def props_valid(S):
    this = S.obj('GunnsDynSingleRigidMassProps', 'this')
    S.call('GunnsDynSingleRigidMassProps::validate', this, may_throw=True)
    e = D(2.220446049250313e-16)
    S.ensure('refuses a body without mass or inertia, or with positive products of inertia', S.threw == Or(this.mMass < e, this.mIxx < e, this.mIyy < e, this.mIzz < e, this.mIxy > 0, this.mIxz > 0, this.mIyz > 0))
    that = S.obj('GunnsDynSingleRigidMassProps', 'that')
    S.ensure('equal when every property is', S.call('GunnsDynSingleRigidMassProps::operator==', this, that) == same_props(this, that))


HARNESSES += [('mass matrix', mass_matrix, (), {'max_unroll': 60}), ('motion', motion, (2, 1)), ('motion of one force and two torques', motion, (1, 2)), ('mass properties', props_valid)]
