"""Curve fits, interpolation tables, unit conversions."""
import os
from gcv.api import *
from gcv.lib import *
ID = 'P20'
HEADERS = [os.path.join(os.path.dirname(os.path.abspath(__file__)), 'fits.hh')]
INLINE = ['gcv_get']
A = 'ms-utils/math/approximation/'
FITS = ('CubicFit', 'ExponentialFit', 'InvLinearFit', 'InvQuadraticFit', 'LinearFit', 'PowerFit', 'ProductFit', 'QuadLinFit', 'QuadLinInvFit', 'QuadraticFit', 'QuadraticRootFit', 'QuarticFit', 'QuinticFit', 'QuotientFit', 'RationalFit', 'ShowmateFit', 'SutherlandFit')
SOURCES = [A + x + '.cpp' for x in FITS + ('TsApproximation', 'TsLinearInterpolator', 'TsBilinearInterpolator', 'TsBilinearInterpolatorReverse')] + ['ms-utils/math/UnitConversion.cpp']
META = dict(
    title='Curve fits and tables return their function, and never outside their range',
    statement='A curve fit evaluated anywhere gives the value of its formula at the arguments limited to its valid range, and its set-up refuses an empty range, a nameless fit and a range that holds a singularity of the formula; asked for exceptions, it refuses arguments out of range. A linear or bilinear table gives the interpolated value of the cell that holds the arguments whichever cell the last lookup ended in, keeps each value with its axis points when it is given in descending order, and refuses axes that are out of order or do not cover the range. The reverse table returns the argument at which the surface has the value asked for, or the nearest table point for a value off the curve.',
    over=['inputs', 'histories'],
    quant='every coefficient, range, table and argument, and every cell the last lookup ended in',
    why='unit tests evaluate a few points of each fit and table; a wrong cell, branch or singularity shows only at particular arguments, ranges or lookup histories',
    files=[A + x + '.cpp' for x in FITS + ('TsApproximation', 'TsLinearInterpolator', 'TsBilinearInterpolator', 'TsBilinearInterpolatorReverse')],
    mech=[('fits', A + '*Fit.cpp init, *Fit.hh evaluate'), ('limits', A + 'TsApproximation.hh get, getExceptional'), ('tables', A + 'Ts*Interpolator.cpp init, evaluate; TsBilinearInterpolatorReverse.cpp init, evaluate')],
    note='curve fits: all coefficients, ranges and arguments (exp, pow and sqrt as uninterpreted functions with their defining properties); tables: bounded to 5 points, 4 by 3 points (set-up) and 3 by 2 points (lookup); string names abstracted to empty or not')
EPS = 2.220446049250313e-16
FEPS = 1.1920928955078125e-07
EMPTY = '_ZNKSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE5emptyEv'


def name(S):
    """an object name: empty or not"""
    if S.mode == 'con':
        return S.string('fit'), False
    e = S.bool('nameEmpty')
    S.use(EMPTY, lambda K, s: e)
    return S.string(), e


def given(S, f):
    """from here on"""
    if S.mode == 'sym':
        S.st.pc += (B(f),)
        return
    from gcv.replay import truth
    if not truth(B(f), {}):
        raise Reject()


def poly(c, x):
    r = R(0)
    for a in reversed(c):
        r = a + x * r
    return r


def formula(S, cls, c, x, y):
    a = c
    if cls in ('LinearFit', 'QuadraticFit', 'CubicFit', 'QuarticFit', 'QuinticFit'):
        return [(1, poly(c, x))]
    return {'ProductFit': lambda: [(1, a[0] * x * y)], 'QuotientFit': lambda: [(x, a[0] * y)], 'InvLinearFit': lambda: [(x, a[0] * x * x + a[1] * x + a[2])], 'InvQuadraticFit': lambda: [(x * x, a[0] * x * x + a[1] * x + a[2])],
            'QuadLinFit': lambda: [(1, a[0] + a[1] * y + a[2] * x + a[3] * x * y + a[4] * x * x + a[5] * x * x * y)],
            'QuadLinInvFit': lambda: [(a[1] + a[3] * x + a[5] * x * x, y - a[0] - a[2] * x - a[4] * x * x)], 'RationalFit': lambda: [(1 + a[2] * x + a[3] * x * x, a[0] + a[1] * x)],
            'SutherlandFit': lambda: [(a[1] + x, a[0] * S.sqrt(x * x * x))], 'PowerFit': lambda: [(1, a[0] * S.pow(a[1], x))]}[cls]()


NC = dict(LinearFit=2, QuadraticFit=3, CubicFit=4, QuarticFit=5, QuinticFit=6, ProductFit=1, QuotientFit=1, InvLinearFit=3, InvQuadraticFit=3, ExponentialFit=3, PowerFit=2, QuadLinFit=6, QuadLinInvFit=6, QuadraticRootFit=2, RationalFit=4, ShowmateFit=5, SutherlandFit=2)
TWO = ('ProductFit', 'QuotientFit', 'QuadLinFit', 'QuadLinInvFit')


def fit(S, cls):
    """set up with any coefficients and range, then read anywhere"""
    this = S.obj(cls, 'this')
    S.dyn(this, cls)
    n, two = NC[cls], cls in TWO
    c = [S.real('abcdef'[i]) for i in range(n)]
    lo, hi = S.real('minX'), S.real('maxX')
    rng = [lo, hi]
    y0 = D(FEPS) if cls == 'QuadraticRootFit' else D(EPS)
    ylo, yhi = -y0, y0
    if two:
        ylo, yhi = S.real('minY'), S.real('maxY')
        rng += [ylo, yhi]
    nm, empty = name(S)
    if cls == 'PowerFit':
        S.require(c[1] > 0)
    if cls == 'SutherlandFit':
        S.require(lo >= 0)
    S.call(cls + '::init', this, *(c + rng + [nm]), may_throw=True)
    bad = Or(empty, lo >= hi, ylo >= yhi)
    S.ensure('an empty range is refused', Implies(bad, S.threw))
    if cls in ('LinearFit', 'QuadraticFit', 'CubicFit', 'QuarticFit', 'QuinticFit', 'ProductFit', 'QuadLinFit', 'PowerFit'):
        S.ensure('every other range is taken', S.threw == bad)
    if cls in ('ExponentialFit', 'InvLinearFit', 'InvQuadraticFit', 'ShowmateFit'):
        S.ensure('every range without zero is taken', Implies(And(Not(bad), Or(lo >= D(EPS), hi <= -D(EPS))), Not(S.threw)))
    if S.mode == 'con' and z3.is_true(S.threw):
        raise Reject()
    if S.mode == 'sym':
        S.st.pc += (Not(S.threw),)
    S.ensure('ready with its range', And(this.mInitFlag, this.mMinX == lo, this.mMaxX == hi, this.mMinY == ylo, this.mMaxY == yhi))
    x, y = S.real('x'), S.real('y')
    X, Y = clamp(x, lo, hi), clamp(y, ylo, yhi)
    if cls == 'ExponentialFit' and S.mode == 'con':
        raise Reject()
    S.ensure('range excludes the singularities of the fit', conj([Not(d == 0) for d, _ in forms(S, cls, c, X, Y)]))
    if cls == 'QuadraticRootFit':
        S.ensure('range excludes where the root is not real', c[0] * c[0] + 4 * c[1] * X >= 0)
        given(S, c[0] * c[0] + 4 * c[1] * X >= 0)
    given(S, conj([Not(d == 0) for d, _ in forms(S, cls, c, X, Y)]))
    r = S.call('TsApproximation::get', this, x, y)
    if cls == 'QuadraticRootFit':
        q = 2 * c[1] * r + c[0]
        S.ensure('the upper root of its quadratic', And(c[0] * r + c[1] * r * r == X, q >= 0))
    elif cls == 'ShowmateFit':
        t = D(0.001) * X
        S.ensure('value of its formula at the argument limited to the range', (r - poly(c[:4], t)) * X * X == 1000000 * c[4])
    elif cls == 'ExponentialFit':
        from gcv.exec import uf, RS
        S.ensure('value of its formula at the argument limited to the range', r == S.fun('exp', c[0] + (c[1] + c[2] / X) / X))
    else:
        S.ensure('value of its formula at the argument limited to the range', conj([r * d == v for d, v in formula(S, cls, c, X, Y)]))
    r2 = S.call('TsApproximation::getExceptional', this, x, y, may_throw=True)
    out = Or(x < lo, x > hi, y < ylo, y > yhi)
    S.ensure('asked to, it refuses arguments out of range', S.threw == out)
    S.ensure('and gives the same value in range', Implies(Not(out), r2 == r))


def forms(S, cls, c, X, Y):
    if cls == 'ExponentialFit':
        return [(X, 0)]
    if cls == 'ShowmateFit':
        return [(X, 0)]
    if cls == 'QuadraticRootFit':
        return [(c[1], 0)]
    if cls in ('PowerFit', 'SutherlandFit'):
        return [(c[1] + X, 0)] if cls == 'SutherlandFit' else []
    return [(d, v) for d, v in formula(S, cls, c, X, Y) if not isinstance(d, int)]



def rising(S, a, n):
    for i in range(n - 1):
        S.require(a[i] + D(EPS) <= a[i + 1])


def table(S, cls, m, n=0, prefix='', start=None):
    """a table with any rising axes and any values, last read in any cell"""
    this = S.obj(cls, prefix + 'this')
    S.dyn(this, cls)
    x = S.arr('double', m, prefix + 'x')
    S.bind(this, 'mX', x)
    S.set(this, 'mM', m)
    rising(S, x, m)
    if start:
        S.set(this, 'mI', start[0])
        if n:
            S.set(this, 'mJ', start[1])
    else:
        S.require(And(this.mI >= 0, this.mI <= m - 2))
    S.require(And(this.mMinX < this.mMaxX, x[0] <= this.mMinX, this.mMaxX <= x[m - 1]))
    if not n:
        z = S.arr('double', m, prefix + 'z')
        S.bind(this, 'mZ', z)
        return this, x, None, [z[i] for i in range(m)]
    y = S.arr('double', n, prefix + 'y')
    S.bind(this, 'mY', y)
    S.set(this, 'mN', n)
    rising(S, y, n)
    if not start:
        S.require(And(this.mJ >= 0, this.mJ <= n - 2))
    rows = S.arr('double *', m, prefix + 'z')
    z = []
    for i in range(m):
        r = S.arr('double', n, prefix + 'z%d' % i)
        S.bind(rows, i, r)
        z.append([r[j] for j in range(n)])
    S.bind(this, 'mZ', rows)
    return this, x, y, z


def linear(S, m, i0, w):
    this, x, _, z = table(S, 'TsLinearInterpolator', m, start=(i0,))
    X, i = place(S, S.real('a') if w[0] == 'cell' else None, x, w)
    r = S.call('TsLinearInterpolator::evaluate', this, X, S.real('b'))
    S.bounded('tables of %d points' % m)
    u = (X - x[i]) / (x[i + 1] - x[i])
    if w[0] == 'node':
        u = R(1) if w[1] else R(0)
    S.ensure('the line through the neighbouring points', r == z[i] + u * (z[i + 1] - z[i]))
    S.ensure('ends in a cell of the table', And(this.mI >= 0, this.mI <= m - 2))


def place(S, a, x, w):
    """argument strictly inside cell w, or at point w"""
    if w[0] == 'cell':
        S.require(And(x[w[1]] < a, a < x[w[1] + 1]))
        return a, w[1]
    i = w[1]
    return x[i], max(i - 1, 0)


def bilinear(S, m, n, i0, j0, wx, wy):
    this, x, y, z = table(S, 'TsBilinearInterpolator', m, n, start=(i0, j0))
    X, i = place(S, S.real('a') if wx[0] == 'cell' else None, x, wx)
    Y, j = place(S, S.real('b') if wy[0] == 'cell' else None, y, wy)
    r = S.call('TsBilinearInterpolator::evaluate', this, X, Y)
    S.bounded('tables of %d by %d points' % (m, n))
    dx, dy = x[i + 1] - x[i], y[j + 1] - y[j]
    u, v = (X - x[i]) / dx, (Y - y[j]) / dy
    if wx[0] == 'node':
        u = R(1) if wx[1] else R(0)
    if wy[0] == 'node':
        v = R(1) if wy[1] else R(0)
    at = lambda p, q: (1 - u) * ((1 - v) * z[p][q] + v * z[p][q + 1]) + u * ((1 - v) * z[p + 1][q] + v * z[p + 1][q + 1])
    S.ensure('the bilinear surface through the neighbouring points', r == at(i, j))
    S.ensure('ends in a cell of the table', And(this.mI >= 0, this.mI <= m - 2, this.mJ >= 0, this.mJ <= n - 2))


def reverse(S, m, n, i0, j0, wx):
    this, x, y, z = table(S, 'TsBilinearInterpolatorReverse', m, n, start=(i0, j0))
    X, i = place(S, S.real('a') if wx[0] == 'cell' else None, x, wx)
    Z = S.real('value')
    for q in [Z] + [c for row in z for c in row]:
        S.require(abs_(q) <= 1000000)
    S.bounded('tables of %d by %d points' % (m, n))
    r = S.call('TsBilinearInterpolatorReverse::evaluate', this, X, Z)
    S.ensure('ends in a cell of the table', And(this.mI >= 0, this.mI <= m - 2, this.mJ >= 0, this.mJ <= n - 2))
    u = (X - x[i]) / (x[i + 1] - x[i])
    if wx[0] == 'node':
        u = R(1) if wx[1] else R(0)
    c = [z[i][q] + u * (z[i + 1][q] - z[i][q]) for q in range(n)]
    inside = [Or(And(c[q] <= Z, Z <= c[q + 1]), And(c[q] >= Z, Z >= c[q + 1])) for q in range(n - 1)]
    back = [And(y[q] <= r, r <= y[q + 1], (c[q + 1] - c[q]) * (r - y[q]) == (Z - c[q]) * (y[q + 1] - y[q])) for q in range(n - 1)]
    S.ensure('the surface at the returned argument is the value asked for', Implies(disj(inside), disj(back)))
    near = disj([And(r == y[q], conj([abs_(Z - c[q]) <= abs_(Z - c[k]) for k in range(n)])) for q in range(n)])
    S.ensure('a value off the curve gives its nearest table point', Implies(Not(disj(inside)), near))


def ordered(a):
    n = len(a)
    return Or(conj([a[i] < a[i + 1] for i in range(n - 1)]), conj([a[i] > a[i + 1] for i in range(n - 1)]))


def far(a):
    return conj([abs_(a[i] - a[i + 1]) >= D(EPS) for i in range(len(a) - 1)])


def linear_init(S, m, again):
    """a table of m points replaces whatever the interpolator held"""
    cls = 'TsLinearInterpolator'
    if again:
        this, _, _, _ = table(S, cls, 4, prefix='old')
    else:
        this = S.obj(cls, 'this')
        S.dyn(this, cls)
        S.bind(this, 'mX', None)
        S.bind(this, 'mZ', None)
        S.set(this, 'mM', 0)
        S.set(this, 'mI', 0)
    x, z = S.arr('double', m, 'newx'), S.arr('double', m, 'newz')
    X, Z = [x[i] for i in range(m)], [z[i] for i in range(m)]
    lo, hi = S.real('minX'), S.real('maxX')
    nm, empty = name(S)
    S.call(cls + '::init', this, x, z, m, lo, hi, nm, may_throw=True)
    S.bounded('tables of %d points' % m)
    ok = And(Not(empty), lo < hi, ordered(X), min_(X[0], X[-1]) <= lo, hi <= max_(X[0], X[-1]))
    S.ensure('a table that is out of order, or does not cover the range, is refused', Implies(Not(ok), S.threw))
    S.ensure('every other table is taken', Implies(And(ok, far(X)), Not(S.threw)))
    settled(S)
    up = X[0] < X[-1]
    S.ensure('holds the table in rising order', conj([And(this.mX[i] == If(up, X[i], X[m - 1 - i]), this.mZ[i] == If(up, Z[i], Z[m - 1 - i])) for i in range(m)]))
    S.ensure('ready with its range and in a cell of the table', And(this.mInitFlag, this.mM == m, this.mMinX == lo, this.mMaxX == hi, this.mI >= 0, this.mI <= m - 2))


def settled(S):
    if S.mode == 'con' and z3.is_true(S.threw):
        raise Reject()
    if S.mode == 'sym':
        S.st.pc += (Not(S.threw),)


def bilinear_init(S, m, n):
    cls = 'TsBilinearInterpolator'
    this = S.obj(cls, 'this')
    S.dyn(this, cls)
    for f in ('mX', 'mY', 'mZ'):
        S.bind(this, f, None)
    for f in ('mM', 'mN', 'mI', 'mJ'):
        S.set(this, f, 0)
    x, y, z = S.arr('double', m, 'newx'), S.arr('double', n, 'newy'), S.arr('double', m * n, 'newz')
    X, Y, Z = [x[i] for i in range(m)], [y[i] for i in range(n)], [z[i] for i in range(m * n)]
    r = [S.real(q) for q in ('minX', 'maxX', 'minY', 'maxY')]
    nm, empty = name(S)
    S.call(cls + '::init', this, x, y, z, m, n, *(r + [nm]), may_throw=True)
    S.bounded('tables of %d by %d points' % (m, n))
    ok = And(Not(empty), r[0] < r[1], r[2] < r[3], ordered(X), ordered(Y), min_(X[0], X[-1]) <= r[0], r[1] <= max_(X[0], X[-1]), min_(Y[0], Y[-1]) <= r[2], r[3] <= max_(Y[0], Y[-1]))
    S.ensure('a table that is out of order, or does not cover the range, is refused', Implies(Not(ok), S.threw))
    S.ensure('every other table is taken', Implies(And(ok, far(X), far(Y)), Not(S.threw)))
    settled(S)
    ux, uy = X[0] < X[-1], Y[0] < Y[-1]
    S.ensure('holds its axes in rising order', And(conj([this.mX[i] == If(ux, X[i], X[m - 1 - i]) for i in range(m)]), conj([this.mY[i] == If(uy, Y[i], Y[n - 1 - i]) for i in range(n)])))
    S.ensure('each value stays with its axis points', conj([this.mZ[i][j] == If(ux, If(uy, Z[i * n + j], Z[i * n + n - 1 - j]), If(uy, Z[(m - 1 - i) * n + j], Z[(m - 1 - i) * n + n - 1 - j])) for i in range(m) for j in range(n)]))
    S.ensure('ready with its range and in a cell of the table', And(this.mInitFlag, this.mM == m, this.mN == n, this.mMinX == r[0], this.mMaxX == r[1], this.mMinY == r[2], this.mMaxY == r[3], this.mI == 0, this.mJ == 0))


def reverse_init(S, m, n):
    """the range of the reverse argument is the range of the values in the table"""
    this, x, y, z = table(S, 'TsBilinearInterpolatorReverse', m, n)
    v = [q for r in z for q in r]
    for q in v:
        S.require(abs_(q) < 1000000)
    S.bounded('tables of %d by %d points' % (m, n))
    S.call('TsBilinearInterpolatorReverse::init', this)
    S.ensure('range of the values in the table', And(conj([And(this.mMinY <= q, q <= this.mMaxY) for q in v]), disj([this.mMinY == q for q in v]), disj([this.mMaxY == q for q in v]), this.mInitFlag))


T = ('linear table', 'two-way table', 'reverse table')
ALL = [('fit ' + c[:-3], fit, (c,)) for c in FITS]

def places(n):
    return [('cell', i) for i in range(n - 1)] + [('node', i) for i in range(n)]


for M in (2, 3, 5):
    ALL += [('linear lookup %d from %d at %s %d' % ((M, i) + w), linear, (M, i, w)) for i in range(M - 1) for w in places(M)]
for M, N in ((2, 2), (3, 2), (2, 3)):
    ALL += [('two-way lookup %dx%d from %d %d at %s %d %s %d' % ((M, N, i, j) + wx + wy), bilinear, (M, N, i, j, wx, wy)) for i in range(M - 1) for j in range(N - 1) for wx in places(M) for wy in places(N)]
for M, N in ((2, 2), (3, 2), (2, 3)):
    ALL += [('reverse lookup %dx%d from %d %d at %s %d' % ((M, N, i, j) + wx), reverse, (M, N, i, j, wx)) for i in range(M - 1) for j in range(N - 1) for wx in places(M)]
ALL += [('linear table %d%s' % (m, ' again' if g else ''), linear_init, (m, g)) for m, g in ((2, 0), (3, 0), (4, 0), (5, 0), (3, 1))]
ALL += [('two-way table %dx%d' % a, bilinear_init, a) for a in ((2, 2), (3, 3), (4, 3), (3, 4), (2, 4))]
ALL += [('reverse range %dx%d' % a, reverse_init, a) for a in ((2, 2), (2, 3))]
ALL += [('reverse lookup 2x4 from 0 1 at cell 0', reverse, (2, 4, 0, 1, ('cell', 0)))]


def harnesses(tier):
    if tier != 'thorough':
        return ALL
    return ALL + [('reverse lookup 2x4 from 0 %d at cell 0' % j, reverse, (2, 4, 0, j, ('cell', 0))) for j in (0, 2)] + [('linear lookup 8 from %d at %s %d' % ((i,) + w), linear, (8, i, w)) for i in range(7) for w in places(8)] + [('two-way table 5x6', bilinear_init, (5, 6))]
