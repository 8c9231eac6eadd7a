"""Linear solve: a factorisation / solve / inversion that reports success really solves the given symmetric system."""
from gcv.api import *
from z3 import Sum
ID = 'P01'
LEVEL = 'other'
SOURCES = ['ms-utils/math/linear_algebra/CholeskyLdu.cpp', 'ms-utils/math/linear_algebra/Sor.cpp']
META = dict(
    title='A linear solve that reports success has solved the given system',
    statement='When the network matrix factorisation succeeds for a symmetric matrix, its stored lower, diagonal and upper factors multiply back to the matrix, all pivots are positive, and solving with them yields the exact solution of the linear system (or its inverse); it fails exactly when a pivot is not positive. When the iterative relaxation solver reports convergence, its solution satisfies every equation of the system to within the given tolerance, scaled by the size of the coefficients.',
    over=['inputs'], quant='all symmetric real matrices (positive definite or not), right-hand sides, row selections, relaxation weights and tolerances, up to the bounded sizes',
    why='The unit tests factor a handful of 2x2 to 8x8 matrices with non-positive off-diagonal terms and compare with stored numbers; sign patterns, vanishing pivots and row selections other than those are never exercised.',
    files=['ms-utils/math/linear_algebra/CholeskyLdu.cpp', 'ms-utils/math/linear_algebra/Sor.cpp'],
    mech=[('CholeskyLdu::Decompose', 'ms-utils/math/linear_algebra/CholeskyLdu.cpp'), ('CholeskyLdu::Solve', 'ms-utils/math/linear_algebra/CholeskyLdu.cpp'), ('CholeskyLdu::Invert', 'ms-utils/math/linear_algebra/CholeskyLdu.cpp'), ('Sor::solve', 'ms-utils/math/linear_algebra/Sor.cpp')],
    note='All matrix entries are symbolic reals; matrix size is bounded (1-4, 5-6 in thorough), so the obligations are bounded, not unbounded proofs. Exact real arithmetic is assumed.')

ASSUMPTIONS = ['matrix sizes up to the stated bound; entries are arbitrary reals']


def mat(S, n, name='A', symmetric=True):
    A = S.arr('double', n * n, name)
    if symmetric:
        for i in range(n):
            for j in range(i):
                S.require(A[i * n + j] == A[j * n + i])
    return A


def factors(A, n, idx=None):
    """unit lower factor and diagonal stored in A (restricted to the rows idx)"""
    idx = idx or list(range(n))
    L = lambda i, j: z3.RealVal(1) if i == j else (A[idx[i] * n + idx[j]] if j < i else z3.RealVal(0))
    Dg = lambda k: A[idx[k] * n + idx[k]]
    return L, Dg


def check_factor(S, A, o, n, idx, ok):
    L, Dg = factors(A, n, idx)
    for i in range(len(idx)):
        for j in range(i + 1):
            S.ensure('LDU product equals the matrix [%d][%d]' % (i, j),
                     Implies(ok, Sum([L(i, k) * Dg(k) * L(j, k) for k in range(j + 1)]) == o[idx[i] * n + idx[j]]))
            S.ensure('upper factor is the transpose [%d][%d]' % (i, j), Implies(ok, A[idx[i] * n + idx[j]] == A[idx[j] * n + idx[i]]))
        S.ensure('success implies a positive pivot [%d]' % i, Implies(ok, Dg(i) > 0))


def decompose(S, n):
    S.bounded('matrix size %d' % n)
    this = S.obj('CholeskyLdu', 'this')
    A = mat(S, n)
    pre = S.snap()
    S.call('CholeskyLdu::Decompose(double*, int)', this, A, n, may_throw=True)
    S.cover('can succeed', Not(S.threw))
    S.cover('can fail', S.threw)
    check_factor(S, A, pre(A), n, list(range(n)), Not(S.threw))
    if n == 2:
        o = pre(A)
        S.ensure('positive definite matrices are accepted', Implies(And(o[0] > 0, o[0] * o[3] - o[1] * o[2] > 0), Not(S.threw)))
    if n == 1:
        S.ensure('positive scalars are accepted', S.threw == (pre(A)[0] <= 0))


def decompose_rows(S, n, rows):
    S.bounded('matrix size %d, rows %s' % (n, rows))
    this = S.obj('CholeskyLdu', 'this')
    A = mat(S, n)
    r = S.arr('ulong', 3, 'rv')
    v = S.arr('int', len(rows), 'rows')
    for i, x in enumerate(rows):
        S.set(v, i, x)
    S.bind(r, 0, v)
    end = S.addr_at(v, len(rows))
    S.bind(r, 1, end)
    S.bind(r, 2, end)
    pre = S.snap()
    S.call('CholeskyLdu::Decompose(double*, int, std::vector<int, std::allocator<int> >&)', this, A, n, r, may_throw=True)
    S.cover('can succeed', Not(S.threw))
    ok = Not(S.threw)
    o = pre(A)
    check_factor(S, A, o, n, rows, ok)
    for i in range(n):
        for j in range(n):
            if i not in rows or j not in rows:
                S.ensure('other rows and columns are left alone [%d][%d]' % (i, j), A[i * n + j] == o[i * n + j])


def solve(S, n):
    S.bounded('matrix size %d' % n)
    this = S.obj('CholeskyLdu', 'this')
    A = mat(S, n, 'LDU')
    b = S.arr('double', n, 'b')
    x = S.arr('double', n, 'x')
    pre = S.snap()
    S.call('CholeskyLdu::Solve', this, A, b, x, n, may_throw=True)
    o = pre(A)
    L, Dg = factors(o, n)
    S.ensure('fails exactly on a zero pivot', S.threw == disj([Dg(k) == 0 for k in range(n)]))
    U = [Sum([L(k, j) * x[k] for k in range(j, n)]) for j in range(n)]
    for i in range(n):
        S.ensure('the product of the factors with the solution is the right-hand side [%d]' % i,
                 Implies(Not(S.threw), Sum([L(i, j) * Dg(j) * U[j] for j in range(i + 1)]) == pre(b)[i]))
        S.ensure('right-hand side unchanged [%d]' % i, b[i] == pre(b)[i])
        for j in range(n):
            S.ensure('factors unchanged [%d][%d]' % (i, j), A[i * n + j] == o[i * n + j])


def both(S, n):
    S.bounded('matrix size %d' % n)
    this = S.obj('CholeskyLdu', 'this')
    A = mat(S, n)
    b = S.arr('double', n, 'b')
    x = S.arr('double', n, 'x')
    pre = S.snap()
    S.call('CholeskyLdu::Decompose(double*, int)', this, A, n, may_throw=True)
    t1 = S.threw
    if S.mode == 'con' and z3.is_true(t1):
        raise Reject()
    if S.mode == 'sym':
        S.st.pc = S.st.pc + (Not(t1),)
    S.call('CholeskyLdu::Solve', this, A, b, x, n, may_throw=True)
    S.ensure('a factorised matrix can be solved', Not(S.threw))
    for i in range(n):
        S.ensure('matrix times solution is the right-hand side [%d]' % i, Sum([pre(A)[i * n + j] * x[j] for j in range(n)]) == pre(b)[i])


def invert(S, n):
    S.bounded('matrix size %d' % n)
    this = S.obj('CholeskyLdu', 'this')
    A = mat(S, n)
    pre = S.snap()
    S.call('CholeskyLdu::Decompose(double*, int)', this, A, n, may_throw=True)
    t1 = S.threw
    if S.mode == 'con' and z3.is_true(t1):
        raise Reject()
    if S.mode == 'sym':
        S.st.pc = S.st.pc + (Not(t1),)
    S.call('CholeskyLdu::Invert', this, A, n)
    o = pre(A)
    for i in range(n):
        for j in range(n):
            S.ensure('matrix times inverse is the identity [%d][%d]' % (i, j), Sum([o[i * n + k] * A[k * n + j] for k in range(n)]) == (1 if i == j else 0))


def sor(S, n, iters):
    S.bounded('matrix size %d, at most %d sweeps' % (n, iters))
    x = S.arr('double', n, 'x')
    A = mat(S, n, symmetric=False)
    b = S.arr('double', n, 'b')
    w = S.real('w', 0.125, 2)
    tol = S.real('tol')
    S.require(tol > 0)
    for i in range(n):
        S.require(A[i * n + i] > 0)
        for j in range(n):
            S.require(abs_(A[i * n + j]) <= 1000)
    pre = S.snap()
    r = S.call('Sor::solve', x, A, b, n, w, iters + 1, tol)
    S.ensure('reports the number of sweeps made or a failure', Or(r == -1, And(r >= 1, r <= iters)))
    for i in range(n):
        res = b[i] - Sum([A[i * n + j] * x[j] for j in range(n)])
        S.ensure('an accepted solution satisfies row %d within the tolerance' % i, Implies(r >= 1, abs_(res) <= 1000 * (1 + abs_(1 / w - 1)) * tol * n))
        S.ensure('right-hand side unchanged [%d]' % i, b[i] == pre(b)[i])


def spd(S, n):
    A = mat(S, n, symmetric=False)
    r = S.call('Sor::isPositiveDefinite', A, n)
    S.ensure('accepts only matrices whose whole diagonal is usable', Implies(r, conj([A[i * n + i] > 0 for i in range(n)])))
    S.ensure('rejects only matrices with an unusable diagonal', Implies(Not(r), disj([A[i * n + i] < D(1e-30) for i in range(n)])))


HARNESSES = [('decompose%d' % n, decompose, {'n': n}) for n in (1, 2, 3, 4)] + \
    [('decompose rows %s of %d' % (r, n), decompose_rows, {'n': n, 'rows': r}) for n, r in ((3, [0, 2]), (3, [1, 2]), (4, [0, 1, 3]), (4, [0, 2, 3]), (5, [1, 2, 4]), (4, [0, 1, 2, 3]))] + \
    [('solve%d' % n, solve, {'n': n}) for n in (1, 2, 3, 4)] + \
    [('both%d' % n, both, {'n': n}) for n in (1, 2, 3)] + \
    [('invert%d' % n, invert, {'n': n}) for n in (1, 2, 3)] + \
    [('sor1', sor, {'n': 1, 'iters': 2}), ('sor2', sor, {'n': 2, 'iters': 1})] + \
    [('spd%d' % n, spd, {'n': n}) for n in (1, 3)]


def harnesses(tier):
    h = list(HARNESSES)
    if tier == 'thorough':
        h += [('decompose%d' % n, decompose, {'n': n}) for n in (5, 6)] + [('solve%d' % n, solve, {'n': n}) for n in (5, 6)]
    return h
