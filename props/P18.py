"""Trace compounds: what rides along with the fluid is conserved like the fluid."""
from gcv.api import *
from gcv.lib import *
from props import P07 as M, P09 as L, P15 as T, P16 as X
from props.P07 import uf_
ID = 'P18'
SOURCES = sorted(set(X.SOURCES + M.SOURCES + ['aspects/fluid/fluid/GunnsFluidTraceCompounds.cpp', 'aspects/fluid/source/GunnsFluidFireSource.cpp', 'core/GunnsFluidDistributedIf.cpp']))
FILES = ['aspects/fluid/fluid/GunnsFluidTraceCompounds.cpp', 'aspects/fluid/fluid/PolyFluid.cpp', 'core/GunnsFluidNode.cpp', 'core/GunnsFluidUtils.cpp'] + ['aspects/fluid/source/GunnsFluid%s.cpp' % c for c in ('Adsorber', 'MultiAdsorber', 'AdsorptionCompound', 'MultiSeparator', 'SourceBoundary', 'FireSource')]
META = dict(
    title='Trace compounds are carried, mixed, stored and removed without loss or gain',
    statement='The masses of the trace compounds in a fluid and their mole fractions always describe the same amounts: each mass is its fraction of the moles of the fluid times its own molecular weight, never negative, and amounts too small to represent are none. A fluid that mixes in another, or a node that takes in and gives out flow, holds afterwards of each compound what it held, plus what came with the inflow or was put in directly, less what left with the outflow. What an adsorber or separator takes of a compound out of the flow is what its bed or the other node gains, for flow in either direction, and a boundary or fire source puts into its node the rates it was given.',
    over=['inputs', 'histories'],
    quant='every composition of fluid and compounds, every flow in either direction, every efficiency, fraction and rate the models accept and every time step',
    why='compounds are tracked by mass in some places and by mole fraction of a fluid whose moles change in others; unit tests sample single calls, while agreement must survive every order of mixing, outflow, removal and direct injection',
    files=FILES,
    mech=[('compound object', 'aspects/fluid/fluid/GunnsFluidTraceCompounds.cpp updateMasses, updateMoleFractions, flowIn, flowOut, limitPositive'),
          ('mixtures', 'aspects/fluid/fluid/PolyFluid.cpp addState, setState, resetState, setMass; core/GunnsFluidUtils.cpp mixFluidMasses'),
          ('node', 'core/GunnsFluidNode.cpp collectTc, resetFlows, integrateFlows'),
          ('links', 'aspects/fluid/source/GunnsFluidAdsorber.cpp adsorb; GunnsFluidMultiAdsorber.cpp updateFluid; GunnsFluidMultiSeparator.cpp transportFlows; GunnsFluidSourceBoundary.cpp transportFlows; GunnsFluidFireSource.cpp')],
    note='bounded: 2 trace compounds and 2 fluid constituents. Real arithmetic stands for floating point. In the node harness the mixture operations of the bulk fluid are replaced by contracts that leave bulk properties arbitrary (P07 proves them).')
EPS, FEPS, LIM = X.EPS, X.FEPS, X.LIM
N = 2


class TC:
    """configuration shared by all trace compounds of a harness"""
    def __init__(self, S, n=N):
        self.S, self.n = S, n
        S.bounded('%d trace compounds' % n)
        self.cfg = S.obj('GunnsFluidTraceCompoundsConfigData', 'tcConfig')
        S.set(self.cfg, 'mNTypes', n)
        v = S.vec(self.cfg, 'mCompounds', 'ChemicalCompound*', n, 'compounds')
        self.c = []
        for i in range(n):
            c = S.obj('ChemicalCompound', 'compound%d' % i)
            S.bind(v, i, c)
            S.require(And(c.mMWeight >= D(0.5), c.mMWeight <= 500))
            self.c.append(c)

    def mw(self, i):
        return self.c[i].mMWeight

    def add(self, fl, name, invariant=True, positive=True):
        """give a fluid trace compounds in an arbitrary (consistent) state"""
        S = self.S
        t = S.obj('GunnsFluidTraceCompounds', name)
        S.dyn(t, 'GunnsFluidTraceCompounds')
        S.bind(t, 'mConfig', self.cfg)
        S.bind(t, 'mFluidMoles', S.addr(fl, 'mMole'))
        m, x = S.arr('double', self.n, name + '.mass'), S.arr('double', self.n, name + '.fraction')
        S.bind(t, 'mMass', m)
        S.bind(t, 'mMoleFraction', x)
        S.bind(fl, 'mTraceCompounds', t)
        if positive:
            S.require(conj([And(m[i] >= 0, Or(x[i] == 0, x[i] >= D(EPS))) for i in range(self.n)]))
        if invariant:
            S.require(conj([m[i] == x[i] * fl.mMole * self.mw(i) for i in range(self.n)]))
        return t, m, x


def own(S):
    """a fluid reduced to its moles, with trace compounds"""
    tc = TC(S)
    fl = S.obj('PolyFluid', 'fluid')
    return tc, fl


def small(m, x, moles, mw):
    return And(m == 0, x == 0)


def basic(S, what):
    tc, fl = own(S)
    t, m, x = tc.add(fl, 'tc', invariant=what not in ('masses', 'fractions', 'positive', 'set'), positive=what not in ('positive', 'fractions'))
    mole = fl.mMole
    S.require(mole >= 0)
    o = S.snap()
    om, ox = o(m), o(x)
    rng = range(N)
    C = 'GunnsFluidTraceCompounds::'
    agree = lambda: conj([Implies(mole > 0, m[i] == x[i] * mole * tc.mw(i)) for i in rng])
    nonneg = lambda: conj([And(m[i] >= 0, x[i] >= 0) for i in rng])

    def kept(want, name):
        """mass is want, or nothing when that is too little of the fluid to represent"""
        S.ensure(name, conj([Implies(mole > 0, If(want[i] >= D(EPS) * mole * tc.mw(i), m[i] == want[i], m[i] == 0)) for i in rng]))
        S.ensure('fractions and masses agree', agree())
        S.ensure('no compound is negative', Implies(mole > 0, nonneg()))
    if what == 'masses':
        S.call(C + 'updateMasses', t)
        S.ensure('each mass is its fraction of the moles by its molecular weight', conj([m[i] == ox[i] * mole * tc.mw(i) for i in rng]))
        S.ensure('the fractions are kept', conj([x[i] == ox[i] for i in rng]))
    elif what == 'fractions':
        S.call(C + 'updateMoleFractions', t)
        kept([om[i] for i in rng], 'masses are kept unless too small')
    elif what == 'positive':
        S.call(C + 'limitPositive', t)
        kept([max_(0, om[i]) for i in rng], 'masses are kept, or none if negative or too small')
    elif what == 'rates':
        r = S.arr('double', N, 'rates')
        dt = S.real('dt', 0, 100)
        S.call(C + 'flowIn(double const*, double)', t, r, dt)
        kept([max_(0, om[i] + r[i] * dt) for i in rng], 'what the rates put in or take out is added, down to none')
    elif what == 'in':
        src = S.obj('PolyFluid', 'source')
        u, um, ux = tc.add(src, 'sourceTc', invariant=False)
        n = S.real('moles in', 0, 1e6)
        S.require(conj([ux[i] >= 0 for i in rng]))
        S.call(C + 'flowIn(GunnsFluidTraceCompounds const&, double)', t, u, n)
        kept([om[i] + n * ux[i] * tc.mw(i) for i in rng], 'the compounds of the moles that flow in are added')
        S.ensure('the source is kept', conj([And(um[i] == o(um)[i], ux[i] == o(ux)[i]) for i in rng]))
    elif what == 'out':
        n = S.real('moles out', 0, 1e6)
        S.require(n <= mole)
        S.call(C + 'flowOut', t, n)
        S.ensure('the compounds of the moles that flow out are taken away', conj([m[i] == om[i] - If(n > D(EPS), n * ox[i] * tc.mw(i), 0) for i in rng]))
        S.ensure('the composition of what remains is the same', conj([x[i] == ox[i] for i in rng]))
        S.ensure('no compound is negative', conj([m[i] >= 0 for i in rng]))
    elif what == 'set':
        v = S.arr('double', N, 'values')
        S.call(C + 'setMasses', t, v)
        S.ensure('masses are those given', conj([And(m[i] == v[i], x[i] == ox[i]) for i in rng]))
        S.call(C + 'setMoleFractions', t, v)
        S.ensure('fractions are those given', conj([x[i] == v[i] for i in rng]))
        S.call(C + 'setMasses', t, None)
        S.call(C + 'setMoleFractions', t, None)
        S.ensure('or none', conj([And(m[i] == 0, x[i] == 0) for i in rng]))


def index(S, what):
    tc, fl = own(S)
    t, m, x = tc.add(fl, 'tc', invariant=False)
    i, v = S.int('index', -3, 5), S.real('value')
    o = S.snap()
    S.call('GunnsFluidTraceCompounds::set%s(int, double)' % what, t, i, v, may_throw=True)
    a = m if what == 'Mass' else x
    bad = Or(i < 0, i >= N)
    S.ensure('refuses a compound that is not there', B(S.threw) == bad)
    S.ensure('sets that compound and no other', conj([a[j] == If(i == j, v, o(a)[j]) for j in range(N)]))
    b = x if what == 'Mass' else m
    S.ensure('and nothing else', conj([b[j] == o(b)[j] for j in range(N)]))


def mixture(S, what):
    """the trace compounds of a mixture"""
    F, tc = Fluids(S, 2), TC(S)
    a, b = F.fluid('this'), F.fluid('source')
    t, m, x = tc.add(a, 'tc', invariant=what == 'mass')
    u, um, ux = tc.add(b, 'sourceTc', invariant=False)
    S.require(conj([And(m[i] >= 0, ux[i] >= 0) for i in range(N)]))
    if S.mode == 'con':
        raise Reject()
    if what == 'state':
        o = S.snap()
        S.call('PolyFluid::setState', a, b)
        S.ensure('takes over the fractions of the other fluid', conj([x[i] == ux[i] for i in range(N)]))
    elif what == 'reset':
        S.call('PolyFluid::resetState', a)
        S.ensure('holds none after a reset', conj([And(x[i] == 0, m[i] == 0) for i in range(N)]))
    elif what == 'mass':
        w = S.real('mass', 0, 1e6)
        S.require(a.mMWeight >= D(0.5))
        o = S.snap()
        S.call('PolyFluid::setMass(double)', a, w)
        S.ensure('keeps its composition when its mass changes', conj([And(x[i] == o(x)[i], m[i] * a.mMWeight == o(x)[i] * w * tc.mw(i)) for i in range(N)]))
    elif what == 'masses':
        w0, w1 = S.real('mass', 0, 1e6), S.real('mass in', 0, 1e6)
        S.require(And(w0 + w1 >= D(EPS), b.mMWeight >= D(0.5), b.mMWeight <= 500, *[And(f.mConstituents[i].mMassFraction >= 0, f.mConstituents[i].mMassFraction <= 1) for f in (a, b) for i in (0, 1)]))
        n = S.real('moles after', 0, 1e6)
        S.require(n > D(EPS))
        S.use('PolyFluid::setMassAndMassFractions', lambda K, this, w, y: K.assign(this, 'mMole', n))
        o = S.snap()
        S.call('GunnsFluidUtils::mixFluidMasses', a, w0, b, w1, 2)
        want = [o(m)[i] + w1 / b.mMWeight * ux[i] * tc.mw(i) for i in range(N)]
        S.ensure('gains the compounds of the moles mixed in', conj([If(want[i] >= D(EPS) * n * tc.mw(i), m[i] == want[i], m[i] == 0) for i in range(N)]))
        S.ensure('fractions and masses agree', conj([m[i] == x[i] * n * tc.mw(i) for i in range(N)]))
    elif what == 'flows':
        w = S.real('flow', 0, 1e6)
        S.require(And(w >= D(1e-9), a.mFlowRate >= 0, a.mFlowRate <= D(1e6), b.mMWeight >= D(0.5), b.mMWeight <= 500))
        for f in (a, b):
            d = f.mConstituents
            S.require(And(d[0].mMassFraction + d[1].mMassFraction == 1, *[And(Or(d[i].mMassFraction == 0, d[i].mMassFraction >= D(1e-9)), d[i].mFluid.mFlowRate == d[i].mMassFraction * f.mFlowRate) for i in (0, 1)]))
        S.require(And(Or(a.mFlowRate == 0, a.mFlowRate >= D(1e-9)), *[And(F.mw(i) >= D(0.5), F.mw(i) <= 500) for i in (0, 1)]))
        S.use('PolyFluid::computeTemperature', lambda K, this, h: uf_('T', h))
        o = S.snap()
        S.call('PolyFluid::addState', a, b, w)
        moles = a.mFlowRate / a.mMWeight
        want = [o(m)[i] + w / b.mMWeight * ux[i] * tc.mw(i) for i in range(N)]
        S.ensure('the flow gains the compounds of the flow mixed in', conj([If(want[i] >= D(EPS) * moles * tc.mw(i), m[i] == want[i], m[i] == 0) for i in range(N)]))
        S.ensure('fractions are those of the moles that flow', conj([m[i] == x[i] * moles * tc.mw(i) for i in range(N)]))
        S.ensure('moles held are kept', a.mMole == o(a).mMole)


def node(S, case):
    S.bounded('2 fluid constituents in the node')
    F, tc = Fluids(S, 2), TC(S)
    nd = S.obj('GunnsFluidNode', 'node')
    S.dyn(nd, 'GunnsFluidNode')
    for x in ('mContent', 'mInflow', 'mOutflow'):
        F.fluid('node.' + x, obj=S.addr(nd, x))
    S.set(nd, 'mNumFluidTypes', 2)
    c, d = nd.mContent, nd.mInflow
    t, m, x = tc.add(c, 'contentTc')
    u, um, ux = tc.add(d, 'inflowTc', invariant=False)
    q = S.arr('double', N, 'rates')
    S.bind(S.addr(nd, 'mTcInflow'), 'mState', q)
    rng = range(N)
    if case == 'collect':
        i, r = S.int('index', -3, 5), S.real('rate')
        o = S.snap()
        S.call('GunnsFluidNode::collectTc', nd, i, r, may_throw=True)
        S.ensure('refuses a compound that is not there', B(S.threw) == Or(i < 0, i >= N))
        S.ensure('adds the rate to that compound and no other', conj([q[j] == o(q)[j] + If(i == j, r, 0) for j in rng]))
        return
    if S.mode == 'con':
        raise Reject()
    S.use('PolyFluid::setState', lambda K, this, src: None)
    if case == 'reset':
        S.call('GunnsFluidNode::resetFlows', nd)
        S.ensure('nothing has come in after a reset', conj([And(q[j] == 0, um[j] == 0, ux[j] == 0) for j in rng]))
        return
    dt = S.real('dt', 0, 100)
    after = S.real('moles after', 0, 1e9)
    S.require(And(dt >= D(0.001), after > D(EPS), c.mMWeight >= D(0.5), c.mMWeight <= 500, d.mMWeight >= D(0.5), d.mMWeight <= 500, c.mMass >= 0, c.mMole * c.mMWeight == c.mMass))
    for f in (c, d):
        S.require(conj([And(f.mConstituents[i].mMassFraction >= 0, f.mConstituents[i].mMassFraction <= 1) for i in rng]))
    S.require(And(nd.mInfluxRate >= 0, nd.mInfluxRate <= D(1e6), nd.mScheduledOutflux >= 0, nd.mScheduledOutflux <= D(1e6), nd.mThermalDampingMass >= 0, nd.mExpansionScaleFactor >= 0, nd.mExpansionScaleFactor <= 1))
    S.require(conj([ux[i] >= 0 for i in rng]))
    mass = {}

    def set_fractions(K, this, w, y):
        K.assign(this, 'mMole', after)
        K.assign(this, 'mMass', w)

    def set_mass(K, this, w):
        # what the harness "mixture mass" proves of it
        K.assign(this, 'mMass', w)
        K.assign(this, 'mMole', w / this.mMWeight)
        for i in rng:
            K.assign(this.mTraceCompounds.mMass, '[%d]' % i, this.mTraceCompounds.mMoleFraction[i] * this.mMole * tc.mw(i))
    S.use('PolyFluid::setMassAndMassFractions', set_fractions)
    S.use('PolyFluid::setMass(double)', set_mass)
    S.use('PolyFluid::addState', lambda K, this, *a: None)
    S.use('PolyFluid::resetState', lambda K, this, *a: None)
    S.use('PolyFluid::setTemperature', lambda K, this, T: None)
    S.use('PolyFluid::computeTemperature', lambda K, this, h: K.fresh_real('temperature'))
    S.use('PolyFluid::computeSpecificEnthalpy', lambda K, this, *a: K.fresh_real('enthalpy'))
    S.use('GunnsFluidUtils::computeIsentropicTemperature', lambda K, *a: K.fresh_real('isentropic'))
    S.use('GunnsFluidUtils::normalizeArray', lambda K, *a: K.fresh_bool('normal'))
    S.use('GunnsFluidNode::computeMassError', lambda K, this: None)
    if case == 'massless':
        S.require(And(nd.mVolume == 0, nd.mInfluxRate > 0))
    else:
        S.require(nd.mVolume > 0)
        S.require(nd.mInfluxRate * dt > D(EPS) if case == 'mix' else nd.mInfluxRate == 0)
    o = S.snap()
    oc = o(c)
    S.call('GunnsFluidNode::integrateFlows', nd, dt)
    if case == 'massless':
        S.ensure('a node without volume holds none', conj([m[i] == 0 for i in rng]))
        return
    sched = nd.mScheduledOutflux * dt
    out = min_(sched, oc.mMole)
    inM = nd.mInfluxRate * dt
    inN = inM / d.mMWeight - min_(inM / d.mMWeight, sched - out) if case == 'mix' else R(0)
    got = oc.mMass - out * oc.mMWeight + inN * d.mMWeight
    if case == 'mix':
        held = [o(m)[i] - If(out > D(EPS), out * o(x)[i] * tc.mw(i), 0) + inN * ux[i] * tc.mw(i) for i in rng]
        ok = And(got >= D(EPS), conj([Or(h == 0, h >= D(1e-15) * after * tc.mw(i)) for i, h in enumerate(held)]))
    else:
        # the fluid of a node is never less than a minimum mass: its compounds are topped up with it
        held = [(oc.mMole - out) * o(x)[i] * tc.mw(i) for i in rng]
        ok = got >= D(EPS)
    want = [max_(0, held[i] + q[i] * dt) for i in rng]
    S.ensure('holds what it held and what came in with the flow or directly, less what left', Implies(ok, conj([If(want[i] >= D(EPS) * c.mMole * tc.mw(i), m[i] == want[i], m[i] == 0) for i in rng])))
    S.ensure('fractions and masses agree', conj([m[i] == x[i] * c.mMole * tc.mw(i) for i in rng]))
    S.ensure('no compound is negative', conj([And(m[i] >= 0, x[i] >= 0) for i in rng]))


def tcnode(S, tc, nd, name):
    """a node of a network with trace compounds; compounds that come in with the fluid or directly are counted apart"""
    t, _, cx = tc.add(nd.mContent, name + '.contentTc', invariant=False)
    u, um, ux = tc.add(nd.mInflow, name + '.inflowTc', invariant=False)
    v, _, x = tc.add(nd.mOutflow, name + '.outflowTc', invariant=False)
    q = S.arr('double', N, name + '.direct')
    S.bind(S.addr(nd, 'mTcInflow'), 'mState', q)
    return dict(carried=um, direct=q, x=x)


def carry(S, tc, n=2):
    """contracts of the operations that move fluids: P07, and the harnesses "mixture" here, prove them"""
    def collect(K, this, w, fl):
        X.collect(K, this, w, fl, n)
        if not S.isnull(fl.mTraceCompounds):
            for i in range(N):
                a = this.mInflow.mTraceCompounds.mMass
                K.assign(a, '[%d]' % i, a[i] + If(fl.mMWeight > D(EPS), w / fl.mMWeight, 0) * fl.mTraceCompounds.mMoleFraction[i] * tc.mw(i))

    def set_state(K, this, src):
        X.set_state2(K, this, src)
        K.assign(this, 'mMWeight', src.mMWeight)
        for i in range(N):
            K.assign(this.mTraceCompounds.mMoleFraction, '[%d]' % i, src.mTraceCompounds.mMoleFraction[i])
    S.use('GunnsFluidNode::collectInflux', collect)
    S.use('PolyFluid::setState', set_state)
    S.use('PolyFluid::setTemperature', L.set_temperature)
    S.use('PolyFluid::setPressure', lambda K, this, p: K.assign(this, 'mPressure', p))


def gained(o, nd, i, how='both'):
    a = nd['carried'][i] - o(nd['carried'])[i] if how != 'direct' else R(0)
    b = nd['direct'][i] - o(nd['direct'])[i] if how != 'carried' else R(0)
    return a + b


def adsorber(S, cls='GunnsFluidAdsorber'):
    k = X.start(S, cls)
    this, fl, F = k.this, k.fl, k.F
    tc = TC(S)
    t, m, x = tc.add(fl, 'tc', invariant=False)
    S.set(this, 'mGasIndex', 1)
    eff, top, bed = [S.arr('double', N, v) for v in ('tcEfficiency', 'tcCapacity', 'tcHeld')]
    for f, v in (('mTcEfficiency', eff), ('mTcMaxAdsorbedMass', top), ('mTcAdsorbedMass', bed)):
        S.bind(this, f, v)
    rng = range(N)
    S.require(conj([And(eff[i] >= 0, eff[i] <= 1, top[i] >= 0, bed[i] >= 0) for i in rng]))
    dt, w, e = S.real('dt', 0, 100), S.real('rate', 0, 1e6), S.real('efficiency', 0, 1)
    S.require(And(dt > D(EPS), this.mFlux != 0))
    o = S.snap()
    S.call('GunnsFluidAdsorber::adsorb', this, dt, w, e)
    q = abs_(this.mFlux)
    past = [q * o(x)[i] * tc.mw(i) for i in rng]
    share = [eff[i] * If(top[i] > D(EPS), max_(0, (top[i] - o(bed)[i]) / If(top[i] > D(EPS), top[i], 1)), 1) for i in rng]
    taken = [If(share[i] > D(EPS), past[i] * share[i], 0) for i in rng]
    left = [past[i] - taken[i] for i in rng]
    S.ensure('takes of each compound its efficiency and room of what flows past', conj([bed[i] - o(bed)[i] == taken[i] * dt for i in rng]))
    S.ensure('what the bed gains the flow loses', conj([If(left[i] >= D(EPS) * q * tc.mw(i), q * x[i] * tc.mw(i) == left[i], x[i] == 0) for i in rng]))
    S.ensure('takes no more than flows past', conj([And(taken[i] >= 0, taken[i] <= past[i]) for i in rng]))


def sorb(S):
    """a trace compound of the multi adsorber"""
    F, tc = Fluids(S, 2, phase=0), TC(S)
    this, fl = S.obj('GunnsFluidAdsorptionCompound', 'this'), F.fluid('fluid')
    S.dyn(this, 'GunnsFluidAdsorptionCompound')
    t, m, x = tc.add(fl, 'tc', invariant=False)
    S.bind(this, 'mFluid', fl)
    S.bind(this, 'mDependentCompound', None)
    S.set(this, 'mTraceCompound', True)
    S.set(this, 'mTaperOffFlag', False)
    S.set(this, 'mIndex', 1)
    dt, T, p, w = S.real('dt', 0, 100), S.real('T', 0, 5000), S.real('p', 0, 1e6), S.real('flow')
    S.require(And(dt > D(EPS), this.mAdsorbedMass >= 0, this.mAdsorbedMass <= this.mMaxAdsorbedMass, this.mMaxAdsorbedMass >= D(EPS), this.mDesorbRateFactor >= 0, this.mMalfEfficiencyValue >= 0, this.mMalfEfficiencyValue <= 1, this.mMWeight > 0))
    o = S.snap()
    S.call('GunnsFluidAdsorptionCompound::sorb', this, dt, T, p, w)
    b = o(this)
    e = clamp(b.mEfficiencyCoeff0 + b.mEfficiencyCoeff1 * T, -1, 1)
    pp = p * x[1]
    out = Or(pp < b.mDesorbPartialPressure, e < 0)
    past = If(abs_(w) > D(LIM), m[1], 0)
    r = If(out, min_(0, pp - b.mDesorbPartialPressure) * b.mDesorbRateFactor * abs_(e), e * past) * If(b.mMalfEfficiencyFlag, b.mMalfEfficiencyValue, 1)
    rate = this.mAdsorptionRate
    S.ensure('rate by efficiency or desorption pressure of this compound, and the room left', rate == If(r > 0, min_(r, (b.mMaxAdsorbedMass - b.mAdsorbedMass) / dt), max_(r, -b.mAdsorbedMass / dt)))
    S.ensure('the bed takes what is taken from the flow, down to rounding', abs_(this.mAdsorbedMass - b.mAdsorbedMass - rate * dt) <= D(EPS))
    S.ensure('bed stays between empty and full', And(this.mAdsorbedMass >= 0, this.mAdsorbedMass <= b.mMaxAdsorbedMass))
    S.ensure('takes no more than flows past, nothing without flow', And(rate <= past, Implies(abs_(w) <= D(LIM), rate <= 0)))
    S.ensure('the flow is not changed yet', conj([And(m[i] == o(m)[i], x[i] == o(x)[i]) for i in range(N)]))


def multi_adsorber(S):
    """transport of a flow with trace compounds, one of which is sorbed besides one bulk fluid"""
    k = X.start(S, 'GunnsFluidMultiAdsorber')
    this, fl, F = k.this, k.fl, k.F
    tc = TC(S)
    t, m, x = tc.add(fl, 'tc', invariant=False)
    sf = F.fluid('sorbed')
    S.bind(this, 'mSorptionFluid', sf)
    c = S.arr('GunnsFluidAdsorptionCompound', 2, 'compounds')
    S.bind(this, 'mCompounds', c)
    S.set(this, 'mNCompounds', 2)
    for i in range(2):
        S.set(S.addr_at(c, i), 'mTraceCompound', i == 1)
        S.set(S.addr_at(c, i), 'mIndex', 1)
    S.bounded('1 sorbed fluid, 1 sorbed trace compound')
    nd = [tcnode(S, tc, k.n[i], 'node%d' % i) for i in (0, 1)]
    dt = S.real('dt', 0, 100)
    if S.mode == 'con':
        raise Reject()
    carry(S, tc)
    S.use('GunnsFluidUtils::computeConvectiveHeatFlux(PolyFluid*, double, double, double, double, double)', lambda K, *a: K.fresh_real('wall'))
    r = [S.real('fluid rate'), S.real('compound rate')]
    S.require(Or(r[0] == 0, abs_(r[0]) >= D(1000 * EPS)))
    calls = []

    def sorbed(K, this, dt, T, p, w):
        i = len(calls)
        calls.append((K.snap()(m)[1], w))
        K.assign(this, 'mAdsorptionRate', r[i])
        K.assign(this, 'mSorptionHeat', 0)
    S.use('GunnsFluidAdsorptionCompound::sorb', sorbed)
    q = abs_(this.mFlux)
    up = X.upstream(k, this.mFlux)
    S.require(And(dt > D(EPS), q > D(EPS), this.mFlux * this.mFlowRate > 0))
    S.require(conj([k.n[i].mOutflow.mMWeight >= D(0.5) for i in (0, 1)] + [k.n[i].mOutflow.mMWeight <= 500 for i in (0, 1)]))
    src = [If(up == 1, nd[1]['x'][i], nd[0]['x'][i]) for i in range(N)]
    S.require(conj([k.nm[i] != k.N for i in (0, 1)]))
    S.require(this.mFlowRate == this.mFlux * If(up == 1, k.n[1].mOutflow.mMWeight, k.n[0].mOutflow.mMWeight))
    S.require(r[1] <= q * src[1] * tc.mw(1))
    o = S.snap()
    S.call('GunnsFluidMultiAdsorber::transportFlows', this, dt)
    w = abs_(o(this).mFlowRate)
    S.ensure('the bed sees the rate of the compound that flows past', And(*[Implies(w > D(LIM), v == q * src[1] * tc.mw(1)) for v, _ in calls]))
    passed = [q * src[i] * tc.mw(i) - (r[1] if i == 1 else 0) for i in range(N)]
    big = conj([Or(passed[i] == 0, passed[i] >= D(2 * EPS) * q * tc.mw(i)) for i in range(N)])
    for i in range(N):
        S.ensure('compound %d goes on to the downstream node less what the bed takes' % i, Implies(big, And(*[gained(o, nd[j], i) == If(up == j, 0, If(w > D(LIM), passed[i], -r[1] if i == 1 else 0)) for j in (0, 1)])))


def multi_separator(S, bulk, traces):
    """2 nodes of flow, a port for the separated"""
    k = X.start(S, 'GunnsFluidMultiSeparator', 3)
    this, fl, F = k.this, k.fl, k.F
    tc = TC(S)
    t, m, x = tc.add(fl, 'tc', invariant=False)
    nd = [tcnode(S, tc, k.n[i], 'node%d' % i) for i in (0, 1, 2)]
    S.set(this, 'mNumSepTypes', bulk)
    S.set(this, 'mNumTcTypes', traces)
    S.bounded('%d separated fluid, %d separated trace compound, 3 ports' % (bulk, traces))
    bt, be, fr, wm, wt, tf = [S.arr('double', 2, v) for v in ('thru', 'exit', 'fraction', 'work', 'workTc', 'tcFraction')]
    ix, pt, tx, tp = [S.arr('int', 1, v) for v in ('sepIndex', 'sepPort', 'tcIndex', 'tcPort')]
    for f, v in (('mSepBufferThru', bt), ('mSepBufferExit', be), ('mSepFraction', fr), ('mSepIndex', ix), ('mSepPort', pt), ('mWorkMoleFractions', wm), ('mWorkTcMassFlowRates', wt), ('mTcFraction', tf), ('mTcIndex', tx), ('mTcPort', tp)):
        S.bind(this, f, v)
    for a, v in ((ix, 1), (pt, 2), (tx, 1), (tp, 2)):
        S.write(a, 0, v)
    if S.mode == 'con':
        raise Reject()
    sf = S.arr('PolyFluid', 1, 'sepFluid')
    S.bind(this, 'mSepFluid', sf)
    F.fluid('sep', obj=S.addr_at(sf, 0))
    S.require(And(tf[0] >= 0, tf[0] <= 1, bt[0] >= 0, be[0] >= 0, *[And(F.mw(i) >= D(0.5), F.mw(i) <= 500) for i in (0, 1)]))
    carry(S, tc)

    def set_mole(K, this, n, y):
        w = y[0] * F.mw(0) + y[1] * F.mw(1)
        K.assign(this, 'mMWeight', w)
        K.assign(this, 'mMole', n)
    S.use('PolyFluid::setMoleAndMoleFractions', set_mole)
    q = abs_(this.mFlux)
    up = X.upstream(k, this.mFlux)
    so = lambda f: If(up == 1, f(k.n[1].mOutflow), f(k.n[0].mOutflow))
    ys = [so(lambda f: f.mConstituents[i].mMoleFraction) for i in (0, 1)]
    S.require(And(ys[0] >= 0, ys[1] >= 0, ys[0] + ys[1] == 1, so(lambda f: f.mMWeight) == ys[0] * F.mw(0) + ys[1] * F.mw(1), this.mFlowRate == this.mFlux * so(lambda f: f.mMWeight)))
    S.require(And(bt[0] <= q * ys[1], Or(q <= D(EPS), q - (bt[0] if bulk else 0) > D(EPS))))
    src = [If(up == 1, nd[1]['x'][i], nd[0]['x'][i]) for i in range(N)]
    o = S.snap()
    S.call('GunnsFluidMultiSeparator::transportFlows', this, S.real('dt', 0, 100))
    E = q > D(EPS)
    past = [q * src[i] * tc.mw(i) for i in range(N)]
    cut = [R(0), tf[0] * past[1] if traces else R(0)]
    exit_ = q - (bt[0] if bulk else 0)
    for i in range(N):
        left = past[i] - cut[i]
        S.ensure('the separated part of compound %d enters the node of its port' % i, gained(o, nd[2], i) == If(E, cut[i], 0))
        S.ensure('compound %d enters downstream less what was separated' % i, Implies(Or(left == 0, left >= D(EPS) * exit_ * tc.mw(i)), And(*[gained(o, nd[j], i) == If(And(E, up != j), left, 0) for j in (0, 1)])))


def boundary(S, mode):
    k = X.start(S, 'GunnsFluidSourceBoundary', 1)
    this, F, n, fl = k.this, k.F, k.n[0], k.fl
    tc = TC(S)
    t, m, x = tc.add(fl, 'tc', invariant=False)
    nd = tcnode(S, tc, n, 'node')
    r, ro = S.arr('double', N, 'rates'), S.arr('double', N, 'overrideRates')
    S.bind(this, 'mTraceCompoundRates', r)
    S.bind(this, 'mOverrideTcFlowRates', ro)
    S.set(this, 'mOverrideMode', mode == 'override')
    if mode != 'override':
        S.set(this, 'mTraceCompoundsOnly', mode == 'only')
    rng = range(N)
    S.require(conj([r[i] >= 0 for i in rng]))
    dt = S.real('dt', 0, 100)
    S.require(And(dt >= D(0.001), fl.mMWeight >= D(0.5), fl.mMWeight <= 500))
    if S.mode == 'con':
        raise Reject()
    carry(S, tc)
    if mode == 'override':
        # the rates of the last pass are not in the flow, which is reset in each pass
        S.require(conj([x[i] == 0 for i in rng]))
    else:
        S.require(Not(this.mMalfBlockageFlag))
    w = this.mFlowRate
    if mode == 'only':
        S.require(this.mFlux == 0)
    else:
        S.require(this.mFlux * fl.mMWeight == w)
    o = S.snap()
    S.call('GunnsFluidSourceBoundary::transportFlows', this, dt)
    if mode == 'override':
        S.ensure('the node gets the rates given, in their direction', conj([gained(o, nd, i) == ro[i] * If(o(this).mFlipFlowSign, -1, 1) for i in rng]))
    else:
        lim = D(EPS) if mode == 'only' else D(LIM)
        S.ensure('the node gets its rate of each compound for the flow', conj([Implies(And(abs_(w) > lim, Or(r[i] == 0, r[i] * fl.mMWeight >= D(EPS) * tc.mw(i))), gained(o, nd, i) == w * r[i]) for i in rng]))
        S.ensure('nothing without flow', Implies(w == 0, conj([gained(o, nd, i) == 0 for i in rng])))


def boundary_reset(S):
    """in override mode no compounds are left in the flow from earlier passes"""
    k = X.start(S, 'GunnsFluidSourceBoundary', 1)
    this, F, n, fl = k.this, k.F, k.n[0], k.fl
    tc = TC(S)
    t, m, x = tc.add(fl, 'tc', invariant=False)
    S.set(this, 'mOverrideMode', True)
    cfg = S.obj('PolyFluidConfigData', 'fluidConfig')
    S.bind(n, 'mFluidConfig', cfg)
    S.set(cfg, 'mNTypes', 2)
    S.bind(this, 'mOverrideFlowRates', S.arr('double', 2, 'bulkRates'))
    if S.mode == 'con':
        raise Reject()
    S.use('PolyFluid::updateMass', lambda K, this: None)
    S.call('GunnsFluidSourceBoundary::updateState', this, S.real('dt', 0, 100))
    S.ensure('flow holds no compounds of its own', conj([And(x[i] == 0, m[i] == 0) for i in range(N)]))


def fire(S, what):
    k = X.start(S, 'GunnsFluidFireSource', 1)
    this, F, n, fl = k.this, k.F, k.n[0], k.fl
    tc = TC(S)
    t, m, x = tc.add(fl, 'tc', invariant=False)
    r, g = S.arr('double', N, 'rates'), S.arr('double', N, 'massRates')
    S.bind(this, 'mTraceCompoundRates', r)
    S.bind(this, 'mTraceCompoundMassRates', g)
    rng = range(N)
    o = S.snap()
    if what == 'rates':
        S.call('GunnsFluidFireSource::calculateFlowRate', this)
        S.ensure('compounds are made in proportion to the heat of the fire', conj([g[i] == If(this.mMalfFireFlag, r[i] * this.mMalfFireHeat, o(g)[i]) for i in rng]))
    elif what == 'out':
        S.call('GunnsFluidFireSource::zeroGenValues', this)
        S.ensure('a fire that is out makes none', conj([g[i] == 0 for i in rng]))
    else:
        S.require(conj([g[i] >= 0 for i in rng]))
        S.require(fl.mMole > 0)
        S.call('GunnsFluidFireSource::setTCMasses', this)
        S.ensure('the flow carries them', conj([If(g[i] >= D(EPS) * fl.mMole * tc.mw(i), x[i] * fl.mMole * tc.mw(i) == g[i], x[i] == 0) for i in rng]))


HARNESSES = [('compounds ' + x, basic, (x,)) for x in ('masses', 'fractions', 'positive', 'rates', 'in', 'out', 'set')] + [('index ' + x, index, (x,)) for x in ('Mass', 'MoleFraction')]
HARNESSES += [('mixture ' + x, mixture, (x,)) for x in ('state', 'reset', 'mass', 'masses', 'flows')]
HARNESSES += [('node ' + x, node, (x,)) for x in ('collect', 'reset', 'mix', 'out', 'massless')]
HARNESSES += [('adsorber', adsorber), ('sorb', sorb), ('multi adsorber', multi_adsorber)]
HARNESSES += [('multi separator %d fluid %d trace' % x, multi_separator, x) for x in ((0, 1), (1, 1), (1, 0))]
HARNESSES += [('boundary ' + x, boundary, (x,)) for x in ('bulk', 'only', 'override')] + [('boundary reset', boundary_reset)] + [('fire ' + x, fire, (x,)) for x in ('rates', 'out', 'flow')]
