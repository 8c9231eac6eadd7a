"""Network monitors: what they report is what the network holds."""
from gcv.api import *
from gcv.lib import *
from props.P18 import TC
ID = 'P25'
FILES = ['core/GunnsBasicIslandAnalyzer.cpp', 'core/GunnsFluidIslandAnalyzer.cpp', 'core/GunnsFluidVolumeMonitor.cpp', 'core/GunnsFluidFlowIntegrator.cpp']
from props import P18 as X
SOURCES = sorted(set(X.SOURCES + FILES + ['core/GunnsNetworkSpotter.cpp', 'core/GunnsBasicNode.cpp', 'core/GunnsFluidNode.cpp', 'core/GunnsBasicLink.cpp', 'core/GunnsFluidLink.cpp', 'core/GunnsFluidUtils.cpp', 'aspects/fluid/fluid/PolyFluid.cpp', 'aspects/fluid/fluid/MonoFluid.cpp', 'aspects/fluid/fluid/GunnsFluidTraceCompounds.cpp', 'core/GunnsFluidConductor.cpp']))
META = dict(
    title='Network monitors report what the network holds',
    statement='An island analyzer reports for the island of the node it is attached to, and for no other nodes, how many nodes it has, which they are, the sums of net flux, or of volume, mass, mass of each constituent and trace compound, and enthalpy, and the highest and lowest potential, or pressure, temperature and fractions, with a node of the island where each is found; attached to no node or to the boundary it reports an empty island. A flow integrator adds in each step, to the mass of each constituent, flow rate times step times the fraction that constituent had, before the step, in the node the flow comes from. A volume monitor shows mass, volume and fractions of the node at the link port it watches, also after the port is moved, and stays on a port the link has.',
    over=['inputs', 'histories'],
    quant='every state of the nodes, island, attached node, flow rate in either direction, watched port, prior report and time step',
    why='unit tests look at one island of one small network; the reports must follow any state: one-node islands, ties, negative potentials, ground, islands that change between steps',
    files=FILES,
    mech=[('island analyzers', 'core/GunnsBasicIslandAnalyzer.cpp, GunnsFluidIslandAnalyzer.cpp stepPostSolver, analyze, resetStateData'),
          ('flow integrator', 'core/GunnsFluidFlowIntegrator.cpp stepPreSolver, stepPostSolver'),
          ('volume monitor', 'core/GunnsFluidVolumeMonitor.cpp stepPostSolver')],
    note='bounded: networks of 4 nodes, the listed islands and attached nodes, 2 constituents, 2 trace compounds. Real arithmetic stands for floating point; values of potentials, pressures and temperatures between -1e15 and 1e15; the enthalpy correlation uninterpreted.')
VI = 'std::vector<int, std::allocator<int> >'
N = 4
BIG = D(1e15)
ISLANDS = [('pair', (0, 2), 2), ('single', (1,), 1), ('all', (2, 0, 1), 0), ('ground', (0, 2), 3), ('nowhere', (0, 2), -1), ('beyond', (0, 2), 7), ('unknown', None, 1)]


def nodes(S, fluid, tc=False):
    S.bounded('%d nodes' % N)
    cls = 'GunnsFluidNode' if fluid else 'GunnsBasicNode'
    ns = S.arr(cls, N, 'nodes')
    nl = S.obj('GunnsNodeList', 'nodeList')
    S.set(nl, 'mNumNodes', N)
    S.bind(nl, 'mNodes', ns)
    F = T = None
    tcs = []
    if fluid:
        S.bounded('2 constituents')
        F = Fluids(S, 2)
        cfg = S.obj('PolyFluidConfigData', 'fluidConfig')
        S.set(cfg, 'mNTypes', 2)
        T = TC(S, 2) if tc else None
        S.bind(cfg, 'mTraceCompounds', T.cfg if tc else None)
    for i in range(N):
        S.dyn(S.addr_at(ns, i), cls)
        if fluid:
            F.fluid('content%d' % i, obj=ns[i].mContent)
            S.bind(S.addr_at(ns, i), 'mFluidConfig', cfg)
            if tc:
                tcs.append(T.add(ns[i].mContent, 'tc%d' % i, invariant=False, positive=False))
    return ns, nl, F, tcs


def island(S, ns, members, attached):
    if members is None:
        v = None
    else:
        v = S.obj(VI, 'island')
        a = S.vec(v, '_M_impl._M_start', 'int', len(members), 'members')
        for j, m in enumerate(members):
            S.write(a, j, m)
    if 0 <= attached < N:
        S.bind(S.addr_at(ns, attached), 'mIslandVector', v)


def out(S, this, fields):
    r = {}
    for f, (t, n) in fields.items():
        r[f] = S.arr(t, n, f)
        S.bind(this, f, r[f])
    return r


def extreme(S, name, v, i, vals, members, hi):
    """v is the largest (smallest) of vals, found at node i of the island"""
    S.ensure(name, And(*[(v >= vals[j] if hi else v <= vals[j]) for j in members]))
    S.ensure(name + ', found at that node', Or(*[And(i == j, v == vals[j]) for j in members]))


def basic(S, members, attached):
    this = S.obj('GunnsBasicIslandAnalyzer', 'this')
    S.dyn(this, 'GunnsBasicIslandAnalyzer')
    ns, nl, _, _ = nodes(S, False)
    S.bind(this, 'mNodeList', nl)
    flags = out(S, this, {'mIslandNodes': ('bool', N)})['mIslandNodes']
    S.set(this, 'mAttachedNode', attached)
    island(S, ns, members, attached)
    for i in range(N):
        S.require(abs_(ns[i].mPotential) < BIG)
    o = S.snap()
    S.call('GunnsBasicIslandAnalyzer::stepPostSolver', this, S.real('dt', 0, 100))
    m = members if members and 0 <= attached < N - 1 else ()
    S.ensure('size of the island', this.mIslandSize == len(m))
    for i in range(N):
        S.ensure('exactly the nodes of the island', flags[i] if i in m else Not(flags[i]))
    S.ensure('net flux is the sum over the island', this.mIslandNetFlux == sum(o(ns[i]).mNetFlux for i in m) if m else this.mIslandNetFlux == 0)
    if m:
        p = [o(ns[i]).mPotential for i in range(N)]
        extreme(S, 'highest potential', this.mHiPotential, this.mHiPotentialNode, p, m, True)
        extreme(S, 'lowest potential', this.mLoPotential, this.mLoPotentialNode, p, m, False)
    else:
        S.ensure('nothing to report', And(this.mHiPotential == 0, this.mLoPotential == 0, this.mHiPotentialNode == -1, this.mLoPotentialNode == -1))


def fluid(S, members, attached, tc):
    this = S.obj('GunnsFluidIslandAnalyzer', 'this')
    S.dyn(this, 'GunnsFluidIslandAnalyzer')
    ns, nl, F, tcs = nodes(S, True, tc)
    S.bind(this, 'mNodeList', nl)
    fields = {'mIslandNodes': ('bool', N)}
    for x in ('', 'Tc')[:2 if tc else 1]:
        fields.update({'mIslandConstituentMass' if not x else 'mIslandTcMass': ('double', 2)})
        for h in 'Hi', 'Lo':
            fields['m%s%sMoleFraction' % (h, x)] = ('double', 2)
            fields['m%s%sMoleFractionNode' % (h, x)] = ('int', 2)
    a = out(S, this, fields)
    S.set(this, 'mAttachedNode', attached)
    island(S, ns, members, attached)
    for i in range(N):
        c = ns[i].mContent
        S.require(And(abs_(c.mPressure) < BIG, abs_(c.mTemperature) < BIG))
        for j in range(2):
            S.require(abs_(c.mConstituents[j].mMoleFraction) < BIG)
            if tc:
                S.require(abs_(tcs[i][2][j]) < BIG)
    o = S.snap()
    rng = range(N)
    c = [o(ns[i]).mContent for i in rng]
    p, T = [x.mPressure for x in c], [x.mTemperature for x in c]
    mass, vol = [x.mMass for x in c], [o(ns[i]).mVolume for i in rng]
    x = [[o(ns[i]).mContent.mConstituents[j].mMoleFraction for i in rng] for j in range(2)]
    w = [[o(ns[i]).mContent.mConstituents[j].mMassFraction for i in rng] for j in range(2)]
    tm = [[o(tcs[i][1])[j] for i in rng] for j in range(2)] if tc else None
    tx = [[o(tcs[i][2])[j] for i in rng] for j in range(2)] if tc else None
    h = {}
    m = members if members and 0 <= attached < N - 1 else ()
    for i in m:
        h[i] = S.call('PolyFluid::getSpecificEnthalpy', ns[i].mContent)
    S.call('GunnsFluidIslandAnalyzer::stepPostSolver', this, S.real('dt', 0, 100))
    S.ensure('size of the island', this.mIslandSize == len(m))
    for i in range(N):
        S.ensure('exactly the nodes of the island', a['mIslandNodes'][i] if i in m else Not(a['mIslandNodes'][i]))
    tot = lambda v: sum(v[i] for i in m) if m else D(0)
    S.ensure('volume is the sum over the island', this.mIslandVolume == tot(vol))
    S.ensure('mass is the sum over the island', this.mIslandMass == tot(mass))
    S.ensure('energy is the sum over the island', this.mIslandEnergy == tot({i: mass[i] * h[i] for i in m}))
    for j in range(2):
        S.ensure('mass of each constituent is the sum over the island', a['mIslandConstituentMass'][j] == tot([mass[i] * w[j][i] for i in rng]))
        if tc:
            S.ensure('mass of each trace compound is the sum over the island', a['mIslandTcMass'][j] == tot(tm[j]))
    for hi, hl in ((True, 'Hi'), (False, 'Lo')):
        word = 'highest ' if hi else 'lowest '
        sets = [('pressure', getattr(this, 'm%sPressure' % hl), getattr(this, 'm%sPressureNode' % hl), p), ('temperature', getattr(this, 'm%sTemperature' % hl), getattr(this, 'm%sTemperatureNode' % hl), T)]
        for j in range(2):
            sets.append(('fraction', a['m%sMoleFraction' % hl][j], a['m%sMoleFractionNode' % hl][j], x[j]))
            if tc:
                sets.append(('trace fraction', a['m%sTcMoleFraction' % hl][j], a['m%sTcMoleFractionNode' % hl][j], tx[j]))
        for nm, v, i, vals in sets:
            if m:
                extreme(S, word + nm, v, i, vals, m, hi)
            else:
                S.ensure('nothing to report', And(v == 0, i == -1))


def port_link(S, ns, nl, ports=2):
    k = link(S, 'GunnsFluidConductor', ports, name='link', ncls='GunnsFluidNode', nodes=ns, nn=(N - 1, nl))
    return k


def integrator(S, pre):
    this = S.obj('GunnsFluidFlowIntegrator', 'this')
    S.dyn(this, 'GunnsFluidFlowIntegrator')
    ns, nl, F, _ = nodes(S, True)
    k = port_link(S, ns, nl)
    S.bind(this, 'mLink', k.this)
    S.set(this, 'mNumFluidConstituents', 2)
    a = out(S, this, {f: ('double', 2) for f in ('mMassFractionsPort0', 'mMassFractionsPort1', 'mIntegratedMasses')})
    for i, n in enumerate((2, 1)):
        S.write(k.nm, i, n)
        S.bind(k.np, i, S.addr_at(ns, n))
    dt = S.real('dt', 0, 100)
    o = S.snap()
    old = o(a['mIntegratedMasses'])
    if pre:
        S.call('GunnsFluidFlowIntegrator::stepPreSolver', this, dt)
        for j in range(2):
            S.ensure('fractions at both ends before the step', And(a['mMassFractionsPort0'][j] == o(ns[2]).mContent.mConstituents[j].mMassFraction, a['mMassFractionsPort1'][j] == o(ns[1]).mContent.mConstituents[j].mMassFraction))
            S.ensure('nothing is added before the step', a['mIntegratedMasses'][j] == old[j])
    else:
        S.call('GunnsFluidFlowIntegrator::stepPostSolver', this, dt)
        f = o(k.this).mFlowRate
        for j in range(2):
            S.ensure('adds what flowed, as it was at its source', a['mIntegratedMasses'][j] == old[j] + f * dt * If(f > 0, o(a['mMassFractionsPort0'])[j], o(a['mMassFractionsPort1'])[j]))
            S.ensure('fractions kept', And(*[a['mMassFractionsPort%d' % p][j] == o(a['mMassFractionsPort%d' % p])[j] for p in range(2)]))


def monitor(S, where, tc):
    this = S.obj('GunnsFluidVolumeMonitor', 'this')
    S.dyn(this, 'GunnsFluidVolumeMonitor')
    ns, nl, F, tcs = nodes(S, True, tc)
    k = port_link(S, ns, nl)
    S.bind(this, 'mLink', k.this)
    S.bind(this, 'mNodeList', nl)
    S.set(this, 'mNumFluidConstituents', 2)
    a = out(S, this, {f: ('double', 2) for f in ('mNodeMassFractions', 'mNodeMoleFractions')})
    for i, n in enumerate(where):
        S.write(k.nm, i, n)
        S.bind(k.np, i, S.addr_at(ns, n))
    o = S.snap()
    S.call('GunnsFluidVolumeMonitor::stepPostSolver', this, S.real('dt', 0, 100))
    t = o(this)
    port = clamp(t.mLinkPort, 0, 1)
    S.ensure('watches a port the link has', this.mLinkPort == port)
    pick = lambda g: If(port == 0, g(where[0]), g(where[1]))
    c = lambda i: o(ns[i]).mContent
    S.ensure('mass and volume of the node', And(this.mNodeMass == pick(lambda i: c(i).mMass), this.mNodeVolume == pick(lambda i: o(ns[i]).mVolume)))
    for j in range(2):
        S.ensure('fractions of the node', And(a['mNodeMassFractions'][j] == pick(lambda i: c(i).mConstituents[j].mMassFraction), a['mNodeMoleFractions'][j] == pick(lambda i: c(i).mConstituents[j].mMoleFraction)))
        if tc:
            S.ensure('trace fractions of the node', this.mNodeTcMoleFractions[j] == pick(lambda i: o(tcs[i][2])[j]))


HARNESSES = [('island %s' % n, basic, (m, a)) for n, m, a in ISLANDS]
HARNESSES += [('fluid island %s' % n, fluid, (m, a, False)) for n, m, a in ISLANDS]
HARNESSES += [('trace island %s' % n, fluid, (m, a, True)) for n, m, a in ISLANDS if n in ('pair', 'all', 'ground')]
HARNESSES += [('integrator before', integrator, (True,)), ('integrator after', integrator, (False,))]
HARNESSES += [('monitor %s%s' % (n, ' trace' if t else ''), monitor, (w, t)) for n, w in (('inside', (0, 2)), ('boundary', (1, 3))) for t in (False, True)]
