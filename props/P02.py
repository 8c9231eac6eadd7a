"""The system the network solves is the sum of what its links contribute, now."""
from gcv.api import *
from props.P03 import network, W
ID = 'P02'
LEVEL = 'other'
SOURCES = ['core/Gunns.cpp', 'core/GunnsBasicLink.cpp', 'core/GunnsBasicNode.cpp', 'core/GunnsBasicFlowOrchestrator.cpp', 'core/GunnsMinorStepLog.cpp',
           'ms-utils/math/linear_algebra/CholeskyLdu.cpp', 'ms-utils/math/linear_algebra/Sor.cpp', W]
META = dict(
    title='Node potentials solve the sum of the current link contributions',
    statement='In normal mode the node potentials of a successful step are the solution of the system whose matrix and source vector are the sums of the current link contributions (those at the boundary node, which stays at zero, dropped), except at nodes a link overrides; only rows that would be singular are conditioned, by less than one part in 1e15. This holds in every step, with or without nonlinear links that change their contributions in its minor steps, whatever earlier steps did: matrix kept or rebuilt, solver or mode changed, a failed or thrown step. A network capacitance request leaves the solution unchanged, slave mode shows the slave potentials, and dummy mode leaves node and link potentials alone.',
    over=['inputs', 'histories', 'configurations'], quant='all link matrices, source vectors, node maps, overrides, modes and prior solver states, for the bounded network sizes',
    why='Whether a retained decomposition still matches the links depends on the history of modes, failures and rebuild requests; unit tests run one fixed sequence on one network.',
    files=['core/Gunns.cpp', 'ms-utils/math/linear_algebra/CholeskyLdu.cpp'],
    mech=[('Gunns::buildAndSolveSystem', 'core/Gunns.cpp'), ('Gunns::buildAdmittanceMatrix', 'core/Gunns.cpp'), ('Gunns::buildSourceVector', 'core/Gunns.cpp'), ('Gunns::conditionAdmittanceMatrix', 'core/Gunns.cpp'),
          ('Gunns::overridePotential', 'core/Gunns.cpp'), ('Gunns::outputPotentialVector', 'core/Gunns.cpp'), ('Gunns::perturbNetworkCapacitances, computeNetworkCapacitances', 'core/Gunns.cpp')],
    note='Real solver code with unconstrained stub links, networks of 1-3 nodes and 1-3 links (bounded). The history claim is an invariant: retained matrix = decomposition of the present sum, or a rebuild is due; every operation preserves it from any state.')
EPS = 2.220446049250313e-16
NORMAL, DUMMY, SLAVE = 0, 1, 2


def sums(links, N, ams=None, svs=None):
    """sum of link contributions as expressions"""
    A = [[0] * N for _ in range(N)]
    w = [0] * N
    for l, am, sv in zip(links, ams, svs):
        for a in range(2):
            for i in range(N):
                w[i] = w[i] + If(l.mNodeMap[a] == i, sv[a], 0)
                for b in range(2):
                    for j in range(N):
                        A[i][j] = A[i][j] + If(And(l.mNodeMap[a] == i, l.mNodeMap[b] == j), am[2 * a + b], 0)
    return A, w


def conditioned(A):
    N = len(A)
    out = [list(r) for r in A]
    for i in range(N):
        s = 0
        for j in range(N):
            s = s + A[i][j]
        out[i][i] = A[i][i] + If(abs_(s) < D(EPS), max_(A[i][i], D(EPS)) * D(1e-15), 0)
    return out


def decomposed(m, A):
    """m (flat) holds the L D L' form of A"""
    N = len(A)
    if N == 1:
        return And(m[0] == A[0][0], m[0] > 0)
    if N == 2:
        return And(m[0] == A[0][0], m[0] > 0, m[2] * m[0] == A[1][0], m[1] * m[0] == A[1][0], m[3] > 0, m[3] + m[0] * m[2] * m[2] == A[1][1])


def ldu_solve(m, w):
    """solution of L D L' x = w by substitution"""
    nz = lambda d: If(d == 0, 1, d)
    if len(w) == 1:
        return [w[0] / nz(m[0])]
    y1 = w[1] - m[2] * w[0]
    x1 = y1 / nz(m[3])
    return [w[0] / nz(m[0]) - m[1] * x1, x1]


def ldu_lemma(S, N):
    """a decomposition of A, substituted, solves A x = w"""
    m = [S.real('m%d' % i) for i in range(N * N)]
    A = [[S.real('A%d%d' % (min(i, j), max(i, j))) for j in range(N)] for i in range(N)]
    w = [S.real('w%d' % i) for i in range(N)]
    x = ldu_solve(m, w)
    S.lemma('substitution through the decomposition solves the system', Implies(decomposed(m, A), conj([z3.Sum([A[i][j] * x[j] for j in range(N)]) == w[i] for i in range(N)])))


def solves(S, what, cond, net, C, w):
    """P is the (cleaned) solution of C P = w: by the decomposition and the lemma above"""
    m, P, N = net.mAdmittanceMatrix, net.mPotentialVector, len(w)
    x = ldu_solve(m, w)
    S.ensure('the decomposition is that of the present system', Implies(cond, decomposed(m, C)))
    for i in range(N):
        S.ensure(what + ' [%d]' % i, Implies(cond, P[i] == clean(x[i])))


def assembly(S, N, L):
    S.bounded('%d nodes, %d links' % (N, L))
    net, nodes, links = network(S, N, L, 2)
    o = S.snap()
    S.call('Gunns::buildSourceVector', net)
    S.call('Gunns::buildAdmittanceMatrix', net)
    A, w = sums(links, N, [o(l).mAdmittanceMatrix for l in links], [o(l).mSourceVector for l in links])
    for i in range(N):
        S.ensure('source vector of node %d is the sum over ports' % i, net.mSourceVector[i] == w[i])
        for j in range(N):
            S.ensure('matrix entry %d,%d is the sum over links' % (i, j), net.mAdmittanceMatrix[i * N + j] == A[i][j])
    b = S.snap()
    S.call('Gunns::conditionAdmittanceMatrix', net)
    m, mb = net.mAdmittanceMatrix, b(net).mAdmittanceMatrix
    for i in range(N):
        s = 0
        for j in range(N):
            s = s + mb[i * N + j]
            if i != j:
                S.ensure('off-diagonal entries are not conditioned', m[i * N + j] == mb[i * N + j])
        S.ensure('only a row that sums to zero is conditioned', Implies(abs_(s) >= D(EPS), m[i * N + i] == mb[i * N + i]))
        S.ensure('conditioning makes a singular diagonal larger, by one part in 1e15', Implies(abs_(s) < D(EPS), m[i * N + i] == mb[i * N + i] + max_(mb[i * N + i], D(EPS)) * D(1e-15)))


def output(S, N, L):
    S.bounded('%d nodes, %d links' % (N, L))
    net, nodes, links = network(S, N, L, 2)
    mode = S.int('mode', 0, 2)
    S.set(net, 'mSolverMode', mode)
    o = S.snap()
    S.call('Gunns::overridePotential', net)
    P = net.mPotentialVector
    for i in range(N):
        exp = o(net).mPotentialVector[i]
        for l in links:
            for k in range(2):
                exp = If(And(o(l).mOverrideVector[k], l.mNodeMap[k] == i), o(l).mPotentialVector[k], exp)
        exp = If(mode == SLAVE, o(net).mSlavePotentialVector[i], If(mode == NORMAL, exp, o(net).mPotentialVector[i]))
        S.ensure('potential of node %d after overrides' % i, P[i] == exp)
    S.call('Gunns::outputPotentialVector', net)
    for i in range(N):
        S.ensure('node %d shows its potential' % i, nodes[i].mPotential == If(mode == DUMMY, o(nodes[i]).mPotential, P[i]))
    S.ensure('the boundary node is at zero', Implies(mode != DUMMY, nodes[N].mPotential == 0))
    for l in links:
        for k in range(2):
            exp = 0
            for i in range(N):
                exp = If(l.mNodeMap[k] == i, P[i], exp)
            S.ensure('a port shows the potential of its node', l.mPotentialVector[k] == If(mode == DUMMY, o(l).mPotentialVector[k], exp))


def clean(x):
    return If(abs_(x) < D(EPS), 0, x)


def rebuild(S, N, L):
    """one build-and-solve from any state of the solver"""
    S.bounded('%d nodes, %d links' % (N, L))
    net, nodes, links = network(S, N, L, 2)
    S.set(net, 'mRebuild', True)
    S.require(net.mLastDecomposition < net.mDecompositionLimit)
    o = S.snap()
    S.call('Gunns::buildAndSolveSystem', net, 1, S.real('dt', 0.001, 10), may_throw=True)
    ok = Not(S.threw)
    S.cover('solved', ok)
    A, w = sums(links, N, [o(l).mAdmittanceMatrix for l in links], [o(l).mSourceVector for l in links])
    C = conditioned(A)
    sym = conj([A[i][j] == A[j][i] for i in range(N) for j in range(i)])
    solves(S, 'the potentials are the solution', And(ok, sym), net, C, w)
    if N == 1:
        S.ensure('a system without a solution is reported', Implies(C[0][0] <= 0, S.threw))
    S.ensure('the system is solved as posed', Implies(ok, conj([net.mSourceVector[i] == w[i] for i in range(N)])))


def history(S, N, L, sor=False, limit=1, iters=1, modes=(0, 2), kept=None):
    """the retained matrix is the decomposition of the present sum of links, or a rebuild is due: preserved by every step"""
    S.bounded('%d nodes, %d links' % (N, L))
    net, nodes, links = network(S, N, L, limit, nonlinear=[False] * L)
    S.set(net, 'mLinearNetwork', True)
    if modes[0] == modes[1]:
        mode = modes[0]
    else:
        mode = S.int('mode', *modes)
        S.set(net, 'mSolverMode', mode)
    if kept is not None:
        S.set(net, 'mRebuild', not kept)
        if kept:
            for l in links:
                S.set(l, 'gNeed', False)
    if sor:
        S.set(net, 'mSorActive', S.bool('sorActive'))
        S.set(net, 'mSorMaxIter', iters)
        S.require(net.mSorWeight == 1)
        S.require(net.mSorTolerance >= 0)
    else:
        S.set(net, 'mSorActive', False)
    for l in links:
        # a link tells the truth about whether its matrix changed
        S.require(Or(l.gNeed, conj([l.gAdmit[1][i] == l.mAdmittanceMatrix[i] for i in range(4)])))
        S.require(And(l.gAdmit[1][1] == l.gAdmit[1][2], l.mAdmittanceMatrix[1] == l.mAdmittanceMatrix[2]))
        for k in range(2):
            S.require(Not(l.mOverrideVector[k]))
    A0, _ = sums(links, N, [l.mAdmittanceMatrix for l in links], [l.mSourceVector for l in links])
    S.require(Or(net.mRebuild, decomposed(net.mAdmittanceMatrix, conditioned(A0))))
    o = S.snap()
    S.call('Gunns::step', net, S.real('dt', 0.001, 10), may_throw=True)
    ok = Not(S.threw)
    S.cover('normal end', ok)
    A, w = sums(links, N, [o(l).gAdmit[1] for l in links], [o(l).gSource[1] for l in links])
    C = conditioned(A)
    S.ensure('a retained matrix belongs to the present links, or a rebuild is due', Or(net.mRebuild, decomposed(net.mAdmittanceMatrix, C)))
    norm = And(ok, mode == NORMAL, Not(o(net).mSorActive), net.mConvergenceFailCount == o(net).mConvergenceFailCount)
    solves(S, 'the potentials solve the present system', norm, net, C, w)
    for i in range(N):
        S.ensure('slave mode shows the slave potentials', Implies(And(ok, mode == SLAVE), nodes[i].mPotential == o(net).mSlavePotentialVector[i]))
        S.ensure('dummy mode leaves node potentials alone', Implies(And(ok, mode == DUMMY), nodes[i].mPotential == o(nodes[i]).mPotential))


def nonlinear(S, N, L, kept):
    """the accepted potentials of a nonlinear network solve the contributions of the minor step that was solved last"""
    S.bounded('%d nodes, %d links, 2 minor steps' % (N, L))
    net, nodes, links = network(S, N, L, 2, nonlinear=[True] + [False] * (L - 1), maps=[(0, N), (0, N)][:L] if N == 1 else [(0, 1)])
    S.set(net, 'mLinearNetwork', False)
    S.set(net, 'mRebuild', not kept)
    for j, l in enumerate(links):
        if kept:
            S.set(l, 'gNeed', False)
        for k in (1, 2):
            S.require(Or(l.gNeed, conj([l.gAdmit[k][i] == l.mAdmittanceMatrix[i] for i in range(4)])))
            S.require(l.gAdmit[k][1] == l.gAdmit[k][2])
        S.require(l.mAdmittanceMatrix[1] == l.mAdmittanceMatrix[2])
    S.require(And(net.mDecompositionLimit >= 1, net.mDecompositionLimit <= 3))
    A0, _ = sums(links, N, [l.mAdmittanceMatrix for l in links], [l.mSourceVector for l in links])
    S.require(Or(net.mRebuild, decomposed(net.mAdmittanceMatrix, conditioned(A0))))
    o = S.snap()
    S.call('Gunns::step', net, S.real('dt', 0.001, 10), may_throw=True)
    ok = And(Not(S.threw), net.mConvergenceFailCount == o(net).mConvergenceFailCount)
    S.cover('normal end', ok)
    # what the nonlinear links contributed last; linear links contribute once per step
    at = lambda l, f, n, nl: [If(l.gMinors >= 1, getattr(o(l), f)[2][i], getattr(o(l), f)[1][i]) if nl else getattr(o(l), f)[1][i] for i in range(n)]
    A, w = sums(links, N, [at(l, 'gAdmit', 4, j == 0) for j, l in enumerate(links)], [at(l, 'gSource', 2, j == 0) for j, l in enumerate(links)])
    C = conditioned(A)
    S.ensure('a retained matrix belongs to the present links, or a rebuild is due', Or(net.mRebuild, decomposed(net.mAdmittanceMatrix, C)))
    S.ensure('the decomposition is that of the present system', Implies(ok, decomposed(net.mAdmittanceMatrix, C)))
    x = ldu_solve(net.mAdmittanceMatrix, w)
    for i in range(N):
        want = clean(x[i])
        for l in links:
            for k in range(2):
                want = If(And(o(l).mOverrideVector[k], o(l).mNodeMap[k] == i), l.mPotentialVector[k], want)
        # two links that force the same node agree
        S.ensure('the accepted potentials solve the present system, or are forced [%d]' % i, Implies(ok, net.mPotentialVector[i] == want))
        S.ensure('node %d shows the accepted potential' % i, Implies(ok, nodes[i].mPotential == net.mPotentialVector[i]))
        if L == 1:
            for k in range(2):
                S.ensure('a forced node has the potential its link forces', Implies(And(ok, links[0].gResets == 0, o(links[0]).mOverrideVector[k], o(links[0]).mNodeMap[k] == i), nodes[i].mPotential == o(links[0]).mPotentialVector[k]))


def netcap(S, N, L, req=None):
    """the potentials found with a network capacitance request are those found without"""
    S.bounded('%d nodes, %d links' % (N, L))
    net, nodes, links = network(S, N, L, 2)
    S.set(net, 'mRebuild', False)
    f = S.real('request', 0.0, 1e6)
    S.set(nodes[0], 'mNetworkCapacitanceRequest', f)
    A = [[net.mAdmittanceMatrix[i * N + j] for j in range(N)] for i in range(N)]
    if N == 1:
        S.require(A[0][0] > 0)
    else:
        S.require(And(A[0][0] > 0, A[1][1] > 0, A[0][1] == A[1][0]))
    dt = S.real('dt', 0.001, 10)
    o = S.snap()
    S.call('Gunns::buildAndSolveSystem', net, 1, dt)
    _, w = sums(links, N, [o(l).mAdmittanceMatrix for l in links], [o(l).mSourceVector for l in links])
    P = net.mPotentialVector
    m = o(net).mAdmittanceMatrix
    if N == 1:
        p = [w[0] / m[0]]
        q = [(w[0] + f) / m[0]]
    else:
        # L D L' x = w by hand
        def solve(b0, b1):
            y1 = b1 - m[2] * b0
            x1 = y1 / m[3]
            return [b0 / m[0] - m[1] * x1, x1]
        p = solve(w[0], w[1])
        q = solve(w[0] + f, w[1])
    for i in range(N):
        S.ensure('the potentials are those of the unperturbed system [%d]' % i, P[i] == clean(p[i]))
        S.ensure('the source vector is restored', net.mSourceVector[i] == w[i])
    dp = abs_(q[0] - P[0])
    C = nodes[0].mNetworkCapacitance
    S.ensure('the capacitance is the flux over the rate of the potential', C == If(And(f > D(EPS), dp > D(EPS)), dt * f / If(dp == 0, 1, dp), 0))
    for j in range(N):
        S.ensure('the recorded potential change is that caused by the perturbation', Implies(f > D(EPS), net.mNetCapDeltaPotential[j] == q[j] - P[j]))
    S.ensure('the request is served once', nodes[0].mNetworkCapacitanceRequest == If(f > D(EPS), 0, f))


HARNESSES = [('assembly1', assembly, {'N': 1, 'L': 1}), ('assembly2', assembly, {'N': 2, 'L': 2}), ('assembly3', assembly, {'N': 3, 'L': 2}), ('output1', output, {'N': 1, 'L': 2}), ('output2', output, {'N': 2, 'L': 2}),
             ('rebuild1', rebuild, {'N': 1, 'L': 2}), ('rebuild2', rebuild, {'N': 2, 'L': 1}), ('history1', history, {'N': 1, 'L': 2}), ('history2 kept', history, {'N': 2, 'L': 1, 'modes': (0, 0), 'kept': True}), ('history2 rebuilt', history, {'N': 2, 'L': 1, 'modes': (0, 0), 'kept': False}), ('history2', history, {'N': 2, 'L': 1, 'modes': (0, 0)}), ('history2 modes', history, {'N': 2, 'L': 1, 'modes': (1, 2)}),
             ('history sor', history, {'N': 2, 'L': 1, 'sor': True, 'modes': (0, 0)}), ('nonlinear kept', nonlinear, {'N': 1, 'L': 1, 'kept': True}), ('nonlinear rebuilt', nonlinear, {'N': 1, 'L': 1, 'kept': False}), ('nonlinear mixed', nonlinear, {'N': 1, 'L': 2, 'kept': False}),
             ('lemma1', ldu_lemma, {'N': 1}), ('lemma2', ldu_lemma, {'N': 2}), ('network capacitance1', netcap, {'N': 1, 'L': 1}), ('network capacitance2', netcap, {'N': 2, 'L': 1})]


def harnesses(tier):
    return HARNESSES + ([('nonlinear2 kept', nonlinear, {'N': 2, 'L': 1, 'kept': True})] if tier == 'thorough' else [])
