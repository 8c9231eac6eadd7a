"""Minor-step acceptance protocol of the network solver."""
from gcv.api import *
import os
W = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'wrap', 'core_stub.cpp')
ID = 'P03'
LEVEL = 'other'
SOURCES = ['core/Gunns.cpp', 'core/GunnsBasicLink.cpp', 'core/GunnsBasicNode.cpp', 'core/GunnsBasicFlowOrchestrator.cpp', 'core/GunnsMinorStepLog.cpp',
           'ms-utils/math/linear_algebra/CholeskyLdu.cpp', 'ms-utils/math/linear_algebra/Sor.cpp', W]
META = dict(
    title='A network step is accepted only if every link and node agreed',
    statement='In a network with nonlinear links, a step is accepted only after all node potentials moved no more than the convergence tolerance and no nonlinear link rejected or delayed that same solution; a rejection by any link overrides delays, and a delay overrides confirmations. Otherwise, within the configured limits on minor steps and matrix decompositions, the step is reported as failed, node potentials (other than those a link forces) return to the last accepted result, and no flows or outputs are produced from the unconverged solution. A linear network is solved in one pass and always accepted.',
    over=['inputs', 'histories', 'configurations'], quant='all link answers at every minor step, link contributions, node maps, tolerances, limits and prior network states, for the bounded network sizes',
    why='Unit tests drive one hand-built network through a few scripted answers; the combinations of reject, delay and confirm answers across links and minor steps and the interaction with the limits are exponential and not enumerated.',
    files=['core/Gunns.cpp', 'core/GunnsBasicLink.hh', 'core/GunnsBasicFlowOrchestrator.cpp'],
    mech=[('Gunns::step', 'core/Gunns.cpp'), ('Gunns::iterateMinorSteps', 'core/Gunns.cpp'), ('Gunns::confirmSolutionAcceptance', 'core/Gunns.cpp'), ('Gunns::checkSystemConvergence', 'core/Gunns.cpp')],
    note='Complete step() executed from source with an unconstrained stub link (all answers symbolic); networks of 1-2 nodes, 1-3 links and 1-3 minor steps, so bounded. Exact real arithmetic; message and log functions trusted.')
REJECT, CONFIRM, DELAY = 0, 1, 2


def network(S, N, L, limit, nonlinear=None, mode=0, maps=None):
    """a network of N nodes plus ground and L two-port links in an arbitrary valid state"""
    net = S.obj('Gunns', 'net')
    for f, v in (('mNumNodes', N + 1), ('mNetworkSize', N), ('mNumLinks', L), ('mIslandMode', 0), ('mGpuMode', 0), ('mSolverMode', mode), ('mRunMode', 0),
                 ('mGpuSizeThreshold', 9999999), ('mMinorStepLimit', limit), ('mDebugDesiredNode', -1), ('mDebugDesiredStep', 0), ('mSorActive', False), ('mWorstCaseTiming', False),
                 ('mStepLog.mIsRecording', False), ('mStepLog.mState', 0), ('mStepLog.mSize', 0), ('mInitFlag', True), ('mVerbose', False),
                 ('mLastSolverMode', mode), ('mLastIslandMode', 0), ('mLastRunMode', 0)):
        S.set(net, f, v)
    for f in ('mMinorStepCount', 'mMajorStepCount', 'mDecompositionCount', 'mConvergenceFailCount', 'mLinkResetStepFailCount', 'mMaxMinorStepCount', 'mMaxDecompositionCount'):
        S.require(And(getattr(net, f) >= 0, getattr(net, f) < 1000000))
    S.require(net.mConvergenceTolerance > 0)
    S.require(And(net.mDecompositionLimit >= 1, net.mDecompositionLimit < 1000))
    for f in ('mSourceVector', 'mPotentialVector', 'mMinorPotentialVector', 'mMajorPotentialVector', 'mSlavePotentialVector', 'mNodesConvergence', 'mSourceVectorIsland', 'mPotentialVectorIsland'):
        S.bind(net, f, S.arr('double', N, f[1:]))
    for f in ('mAdmittanceMatrix', 'mAdmittanceMatrixIsland', 'mNetCapDeltaPotential'):
        S.bind(net, f, S.arr('double', N * N, f[1:]))
    S.bind(net, 'mDebugSavedNode', S.arr('double', limit + 1, 'DebugSavedNode'))
    S.bind(net, 'mDebugSavedSlice', S.arr('double', N, 'DebugSavedSlice'))
    S.bind(net, 'mNodeIslandNumbers', S.arr('int', N, 'NodeIslandNumbers'))
    S.bind(net, 'mLinksConvergence', S.arr('int', L, 'LinksConvergence'))
    solver = S.obj('CholeskyLdu', 'solver')
    S.dyn(solver, 'CholeskyLdu')
    S.bind(net, 'mSolverCpu', solver)
    nodes, links = [], []
    np_ = S.arr('GunnsBasicNode*', N + 1, 'nodes')
    for i in range(N + 1):
        n = S.obj('GunnsBasicNode', 'node%d' % i)
        S.dyn(n, 'GunnsBasicNode')
        S.set(n, 'mNetworkCapacitanceRequest', 0.0)
        S.bind(np_, i, n)
        nodes.append(n)
    S.bind(net, 'mNodes', np_)
    lp = S.arr('GunnsBasicLink*', L, 'links')
    tabs = {f: S.arr(t, L, f[1:]) for f, t in (('mLinkAdmittanceMatrices', 'double*'), ('mLinkPotentialVectors', 'double*'), ('mLinkSourceVectors', 'double*'),
                                               ('mLinkOverrideVectors', 'bool*'), ('mLinkNodeMaps', 'int*'), ('mLinkAdmittanceMaps', 'GunnsBasicLinkAdmittanceMap*'),
                                               ('mLinkNumPorts', 'int'))}
    for f, v in tabs.items():
        S.bind(net, f, v)
    for i in range(L):
        l = S.obj('GcvLink', 'link%d' % i)
        S.dyn(l, 'GcvLink')
        S.bind(lp, i, l)
        S.set(l, 'mNumPorts', 2)
        for k in range(8):
            S.require(And(l.gResult[k] >= 0, l.gResult[k] <= 2))
        if nonlinear is not None:
            S.set(l, 'gNonLinear', nonlinear[i])
        for g in ('gSteps', 'gMinors', 'gConfirms', 'gResets', 'gInputs', 'gOutputs', 'gFlows'):
            S.set(l, g, 0)
        pv = S.arr('double', 2, 'pv%d' % i)
        sv = S.arr('double', 2, 'sv%d' % i)
        am = S.arr('double', 4, 'am%d' % i)
        ov = S.arr('bool', 2, 'ov%d' % i)
        nm = S.arr('int', 2, 'nm%d' % i)
        mp = S.arr('int', 4, 'map%d' % i)
        if maps is not None:
            c = maps[i]
            for a in range(2):
                S.set(nm, a, c[a])
                for b in range(2):
                    S.set(mp, 2 * a + b, c[a] * N + c[b] if c[a] < N and c[b] < N else -1)
        for k in range(2):
            S.require(And(nm[k] >= 0, nm[k] <= N))
        S.require(nm[0] != nm[1])
        for a in range(2):
            for b in range(2):
                S.require(mp[2 * a + b] == If(And(nm[a] < N, nm[b] < N), nm[a] * N + nm[b], -1))
        for f, v, t in (('mPotentialVector', pv, 'mLinkPotentialVectors'), ('mSourceVector', sv, 'mLinkSourceVectors'), ('mAdmittanceMatrix', am, 'mLinkAdmittanceMatrices'),
                        ('mOverrideVector', ov, 'mLinkOverrideVectors'), ('mNodeMap', nm, 'mLinkNodeMaps')):
            S.bind(l, f, v)
            S.bind(tabs[t], i, v)
        S.set(l, 'mAdmittanceMap.mSize', 4)
        S.bind(l, 'mAdmittanceMap.mMap', mp)
        S.bind(tabs['mLinkAdmittanceMaps'], i, S.addr(l, 'mAdmittanceMap'))
        S.set(tabs['mLinkNumPorts'], i, 2)
        links.append(l)
    S.bind(net, 'mLinks', lp)
    orch = S.obj('GunnsBasicFlowOrchestrator', 'orch')
    S.dyn(orch, 'GunnsBasicFlowOrchestrator')
    S.bind(net, 'mFlowOrchestrator', orch)
    S.bind(orch, 'mLinks', lp)
    S.bind(orch, 'mNodes', np_)
    S.bind(orch, 'mNumLinks', S.addr(net, 'mNumLinks'))
    S.bind(orch, 'mNumNodes', S.addr(net, 'mNumNodes'))
    if S.mode == 'sym':
        S.use('_ZN19GunnsInfraFunctions9clockTimeEv', lambda K: K.fresh_real('clock'))
    return net, nodes, links


def acceptance(S, L):
    """REJECT dominates DELAY dominates CONFIRM; a DELAY before convergence is not honoured; linear links are not asked"""
    S.bounded('%d links' % L)
    net, nodes, links = network(S, 1, L, 3)
    conv = S.int('conv', 0, 100)
    a = S.int('absolute', 1, 7)
    pre = S.snap()
    r = S.call('Gunns::confirmSolutionAcceptance', net, conv, a)
    o = [pre(l) for l in links]
    rej = disj([And(l.gNonLinear, l.gResult[a] == REJECT) for l in o])
    dly = disj([And(l.gNonLinear, l.gResult[a] == DELAY, conv > 0) for l in o])
    S.ensure('a rejection by any nonlinear link rejects the solution', (r == REJECT) == rej)
    S.ensure('a delay is honoured only after convergence and without rejection', (r == DELAY) == And(dly, Not(rej)))
    S.ensure('otherwise the solution is confirmed', (r == CONFIRM) == And(Not(dly), Not(rej)))
    for i, l in enumerate(links):
        S.ensure('each nonlinear link is asked exactly once [%d]' % i, l.gConfirms == If(o[i].gNonLinear, 1, 0))
        S.ensure('asking does not change potentials [%d]' % i, conj([l.mPotentialVector[k] == o[i].mPotentialVector[k] for k in range(2)]))


def convergence(S, N):
    S.bounded('%d nodes' % N)
    net, nodes, links = network(S, N, 1, 3)
    st = S.int('minor', 1, 3)
    pre = S.snap()
    r = S.call('Gunns::checkSystemConvergence', net, st)
    o = pre(net)
    S.ensure('converged exactly when every node moved no more than the tolerance',
             r == conj([abs_(o.mMinorPotentialVector[i] - o.mPotentialVector[i]) <= o.mConvergenceTolerance for i in range(N)]))
    for i in range(N):
        S.ensure('recorded change of node %d' % i, net.mNodesConvergence[i] == abs_(o.mMinorPotentialVector[i] - o.mPotentialVector[i]))
        S.ensure('potentials unchanged', And(net.mPotentialVector[i] == o.mPotentialVector[i], net.mMinorPotentialVector[i] == o.mMinorPotentialVector[i]))


def resets(S, N, L):
    S.bounded('%d nodes, %d links' % (N, L))
    net, nodes, links = network(S, N, L, 3)
    c, m = S.int('conv', 0, 10), S.int('minor', 1, 3)
    pre = S.snap()
    S.call('Gunns::resetLinksToMinorStep', net, c, m)
    S.ensure('counts the links that failed to reset', net.mLinkResetStepFailCount ==
             pre(net).mLinkResetStepFailCount + sum([If(And(pre(l).gNonLinear, Not(pre(l).gResetOk)), 1, 0) for l in links]))
    for l in links:
        S.ensure('every nonlinear link is told to go back, once', l.gResets == If(pre(l).gNonLinear, 1, 0))


def steps(S, N, L, limit, lin):
    S.bounded('%d nodes, %d links, minor step limit %d' % (N, L, limit))
    net, nodes, links = network(S, N, L, limit, nonlinear=lin)
    S.set(net, 'mLinearNetwork', not any(lin))
    pre = S.snap()
    r = S.call('Gunns::step', net, S.real('dt', 0.001, 10), may_throw=True)
    ok = Not(S.threw)
    S.cover('normal end', ok)
    o = pre(net)
    fail = net.mConvergenceFailCount != o.mConvergenceFailCount
    S.ensure('the failure counter moves by at most one', Implies(ok, Or(net.mConvergenceFailCount == o.mConvergenceFailCount, net.mConvergenceFailCount == o.mConvergenceFailCount + 1)))
    for i in range(N):
        P, M = net.mPotentialVector[i], net.mMajorPotentialVector[i]
        S.ensure('the step result is saved as the last major result [%d]' % i, Implies(ok, P == M))
        S.ensure('nodes show the step result [%d]' % i, Implies(ok, nodes[i].mPotential == P))
    S.ensure('ground is at zero potential', Implies(ok, nodes[N].mPotential == 0))
    last = net.mLastMinorStep
    S.ensure('never more minor steps than allowed', Implies(ok, last <= limit + 1))
    S.ensure('never more decompositions than allowed', Implies(ok, net.mLastDecomposition <= o.mDecompositionLimit))
    for j, l in enumerate(links):
        S.ensure('inputs processed once', Implies(ok, l.gInputs == 1))
        S.ensure('a major step is taken once', Implies(ok, l.gSteps == 1))
        S.ensure('flows and outputs are produced exactly when the step converged', Implies(ok, And(l.gFlows == If(fail, 0, 1), l.gOutputs == If(fail, 0, 1))))
        if any(lin) and lin[j]:
            S.ensure('an accepted step was not rejected or delayed by any nonlinear link', Implies(And(ok, Not(fail)), pre(l).gResult[last] != REJECT))
            S.ensure('an accepted step was not delayed by any nonlinear link', Implies(And(ok, Not(fail)), pre(l).gResult[last] != DELAY))
            S.ensure('the link confirmed the potentials that are output', Implies(And(ok, Not(fail)), And(l.gSeen[0] == l.mPotentialVector[0], l.gSeen[1] == l.mPotentialVector[1])))
        elif not any(lin):
            S.ensure('a linear network converges in one minor step', Implies(ok, And(Not(fail), l.gMinors == 0)))
    if any(lin):
        for i in range(N):
            ovr = disj([And(pre(l).mOverrideVector[k], pre(l).mNodeMap[k] == i) for l in links for k in range(2)])
            S.ensure('a failed step keeps the last major result [%d]' % i, Implies(And(ok, fail, Not(ovr)), net.mPotentialVector[i] == o.mMajorPotentialVector[i]))


HARNESSES = [('acceptance%d' % l, acceptance, {'L': l}) for l in (1, 2, 3)] + [('convergence%d' % n, convergence, {'N': n}) for n in (1, 3)] + \
    [('resets', resets, {'N': 1, 'L': 3})] + \
    [('step linear', steps, {'N': 1, 'L': 2, 'limit': 2, 'lin': [False, False]}), ('step nonlinear', steps, {'N': 1, 'L': 1, 'limit': 3, 'lin': [True]}),
     ('step mixed', steps, {'N': 1, 'L': 2, 'limit': 2, 'lin': [True, False]}), ('step two', steps, {'N': 1, 'L': 2, 'limit': 2, 'lin': [True, True]}), ('step 2 nodes', steps, {'N': 2, 'L': 1, 'limit': 2, 'lin': [True]})]
