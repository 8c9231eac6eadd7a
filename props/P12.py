"""Interfaces that split one network over two simulations."""
from gcv.api import *
from gcv.lib import *
from props import P09 as L
ID = 'P12'
IO = 'ms-utils/interop/'
SOURCES = [IO + 'Distributed2WayBusBase.cpp', IO + 'Distributed2WayBusElect.cpp', IO + 'Distributed2WayBusFluid.cpp']
LINK = ['core/GunnsFluidDistributedIf.cpp', 'aspects/electrical/PowerBus/GunnsElectDistributedIf.cpp']
E_ = 'aspects/electrical/'
SOURCES += LINK + [E_ + 'Converter/GunnsElectConverterInput.cpp', E_ + 'Converter/GunnsElectConverterOutput.cpp', E_ + 'TripLogic/GunnsTripLogic.cpp', 'core/GunnsBasicConductor.cpp', 'core/GunnsBasicPotential.cpp'] + [x for x in L.SOURCES if x not in SOURCES]
INLINE = ['Distributed2WayBusElect::getRemoteLoad', 'Distributed2WayBusElect::getRemoteSupply', 'Distributed2WayBusBase::resetForceRole', 'Distributed2WayBusBase::forceSupplyRole', 'Distributed2WayBusBase::forceDemandRole']
HEADERS = [IO + 'Distributed2WayBusElect.hh', IO + 'Distributed2WayBusFluid.hh']
META = dict(
    title='Distributed interfaces keep one supplier and pass on flow, power and fluid exact',
    statement='Each side of a network split over two simulations takes the role that forcing, a hand-over by the other side or the smaller capacitance (electrical: the higher available voltage) gives it, so that a pair that starts or hands over has exactly one demand side, and a role changed by capacitance waits until the other side must have seen the previous change. Data of a role is sent only in that role, used only when valid and from the opposite role, and arrives unchanged with missing fractions as zero; a demand never exceeds the flow that equalises both sides, and capacitance sent excludes what the interfaces themselves supply. The fluid link moves exactly the flow demanded, with the composition and energy received from the other side, and the electrical link powers its network in the demand role, draws the remote load in the supply role, and rejects a solution in which it became the demand side.',
    over=['inputs', 'histories'],
    quant='every role, forced role, frame history, latency, received and sent data (valid or not), capacitance, time step, fluid state and blockage on either side; pairs of interfaces exchanging their data',
    why='unit tests run one side against a few recorded frames; which side supplies, and what arrives at the other side, has to be right for every interleaving of frames, flips and invalid data and for every mixture',
    files=['ms-utils/interop/Distributed2WayBusFluid.cpp', 'ms-utils/interop/Distributed2WayBusElect.cpp', 'ms-utils/interop/Distributed2WayBusBase.cpp', 'core/GunnsFluidDistributedIf.cpp', 'aspects/electrical/PowerBus/GunnsElectDistributedIf.cpp'],
    mech=[('roles', 'ms-utils/interop/Distributed2WayBusFluid.cpp Distributed2WayBusFluid::processInputs, processOutputs; Distributed2WayBusElect::update'),
          ('fluid link', 'core/GunnsFluidDistributedIf.cpp GunnsFluidDistributedIf::processInputs, inputFluid, step, transportFlows, processOutputs'),
          ('electrical link', 'aspects/electrical/PowerBus/GunnsElectDistributedIf.cpp GunnsElectDistributedIf::minorStep, confirmSolutionAcceptable, updateSupplyData')],
    note='unbounded in the data of each side; bounded: 2 fluid constituents (up to 3 in the interface state), 1 trace compound in the bus and none in the link, up to 2 other interfaces and 2 voltage supplies. Real arithmetic stands for floating point; frame counters below a million. Messages to the user are left out (processIfNotifications, pushNotification). Assumed callee contracts: PolyFluid::setState, GunnsFluidNode::collectInflux (P07).')
NONE, SUPPLY, DEMAND = 0, 1, 2
BASE = 'Distributed2WayBusBaseInterfaceData'
RATIO, FA, FB = D(1.25), D(1.5), D(0.75)


def quiet(S):
    if S.mode == 'sym':
        S.use('Distributed2WayBusBase::pushNotification', lambda K, *a: None)


def bus(S, name='this', kind='Fluid', n=(2, 1), this=None):
    quiet(S)
    this = this if this is not None else S.obj('Distributed2WayBus' + kind, name)
    S.bind(this, 'mInDataPtr', S.base(this, 'mInData', BASE, 'mFrameCount'))
    S.bind(this, 'mOutDataPtr', S.base(this, 'mOutData', BASE, 'mFrameCount'))
    S.require(And(this.mForcedRole >= 0, this.mForcedRole <= 2))
    S.require(this.mInData.mFrameLoopback <= this.mOutData.mFrameCount)
    for d in ('mInData', 'mOutData'):
        v = S.addr(this, d)
        S.require(And(v.mFrameCount < 1000000, v.mFrameLoopback < 1000000))
        if kind == 'Fluid':
            S.dyn(v, 'Distributed2WayBusFluidInterfaceData')
            S.dyn(S.base(v, '', BASE, 'mFrameCount'), 'Distributed2WayBusFluidInterfaceData')
            mixture(S, v, n, name + '.' + d)
        else:
            S.dyn(v, 'Distributed2WayBusElectInterfaceData')
    S.require(And(this.mFramesSinceFlip >= 0, this.mFramesSinceFlip < 1000000))
    return this


def mixture(S, v, n, name):
    S.set(v, 'mNumFluid', n[0])
    S.set(v, 'mNumTc', n[1])
    S.bind(v, 'mMoleFractions', S.arr('double', n[0], name + '.x') if n[0] else None)
    S.bind(v, 'mTcMoleFractions', S.arr('double', n[1], name + '.tc') if n[1] else None)


def valid(d):
    """data that can be used"""
    f = [d.mMoleFractions[i] >= 0 for i in range(2)] + [d.mTcMoleFractions[i] >= 0 for i in range(1)]
    return And(d.mFrameCount >= 1, d.mEnergy > 0, d.mCapacitance >= 0, Or(d.mSource >= 0, d.mDemandMode), *f)


def counts(S, kind):
    this = bus(S, kind=kind)
    o = S.snap()
    S.call('Distributed2WayBusBase::updateFrameCounts', this)
    t = o(this)
    S.ensure('counts the frames sent and since the last flip', And(this.mOutData.mFrameCount == t.mOutData.mFrameCount + 1, this.mFramesSinceFlip == t.mFramesSinceFlip + 1))
    S.ensure('latency is the age of the frame that came back', this.mLoopLatency == t.mOutData.mFrameCount + 1 - t.mInData.mFrameLoopback)
    S.ensure('sends back the frame it received', this.mOutData.mFrameLoopback == t.mInData.mFrameCount)
    S.ensure('role and received data are kept', And(this.mOutData.mDemandMode == t.mOutData.mDemandMode, this.mInData.mFrameCount == t.mInData.mFrameCount))


def role_in(t):
    """the role of a fluid bus after it saw the other side's data"""
    i, u = t.mInData, t.mOutData
    smaller = Or(u.mCapacitance < i.mCapacitance, And(t.mIsPairMaster, u.mCapacitance == i.mCapacitance))
    free = If(valid(i), If(And(u.mDemandMode, i.mDemandMode, Not(t.mInDataLastDemandMode)), False,
              If(And(Not(i.mDemandMode), Not(u.mDemandMode), smaller), True, u.mDemandMode)), u.mDemandMode)
    return If(t.mForcedRole == DEMAND, True, If(t.mForcedRole == SUPPLY, False, free))


def fluid_in(S):
    this = bus(S)
    o = S.snap()
    S.call('Distributed2WayBusFluid::processInputs', this)
    t = o(this)
    new = this.mOutData.mDemandMode
    S.ensure('role: forced, handed over, or the smaller side takes the demand', new == role_in(t))
    S.ensure('frames since the last change of role', this.mFramesSinceFlip == If(new == t.mOutData.mDemandMode, t.mFramesSinceFlip + 1, 0))
    S.ensure('what it sends is otherwise kept', And(this.mOutData.mSource == t.mOutData.mSource, this.mOutData.mEnergy == t.mOutData.mEnergy, this.mOutData.mCapacitance == t.mOutData.mCapacitance))
    S.ensure('remembers the last valid role of the other side', Implies(And(t.mForcedRole == NONE, valid(t.mInData)), this.mInDataLastDemandMode == t.mInData.mDemandMode))


def fluid_out(S):
    this = bus(S)
    c = S.real('capacitance', 0)
    o = S.snap()
    S.call('Distributed2WayBusFluid::processOutputs', this, c)
    t = o(this)
    flip = And(Not(t.mOutData.mDemandMode), t.mForcedRole != SUPPLY, t.mFramesSinceFlip > t.mLoopLatency, c * RATIO < t.mInData.mCapacitance)
    S.ensure('takes the demand when its capacitance has become the smaller one, once the other side knows its role', this.mOutData.mDemandMode == Or(t.mOutData.mDemandMode, flip))
    S.ensure('a pressure is never sent as a flow demand, and not dropped otherwise', this.mOutData.mSource == If(flip, 0, t.mOutData.mSource))
    S.ensure('sends its capacitance', this.mOutData.mCapacitance == c)
    S.ensure('frames since the last change of role', this.mFramesSinceFlip == If(flip, 0, t.mFramesSinceFlip))


def state(S, cls, n, name='state'):
    v = S.obj('Distributed2WayBusFluid%sState' % cls, name)
    S.dyn(v, 'Distributed2WayBusFluid%sState' % cls)
    mixture(S, v, n, name)
    return v


def padded(a, n, m):
    return [a[i] if i < m else 0 for i in range(n)]


def fluid_set(S, cls, n):
    """the state is sent as it is in the matching role, and nothing changes in the other"""
    this = bus(S)
    v = state(S, cls, n)
    src = lambda x: x.mPressure if cls == 'Fluid' else x.mFlowRate
    o = S.snap()
    S.call('Distributed2WayBusFluid::set%sState' % cls, this, v)
    t = o(this)
    u, w = this.mOutData, t.mOutData
    ok = Not(w.mDemandMode) if cls == 'Fluid' else w.mDemandMode
    S.ensure('pressure or flow and energy are sent in its role only', And(u.mSource == If(ok, src(v), w.mSource), u.mEnergy == If(ok, v.mEnergy, w.mEnergy)))
    x, y = padded(v.mMoleFractions, 2, n[0]), padded(v.mTcMoleFractions, 1, n[1])
    S.ensure('every fraction is sent, missing ones as zero', And(*[u.mMoleFractions[i] == If(ok, x[i], w.mMoleFractions[i]) for i in range(2)] + [u.mTcMoleFractions[0] == If(ok, y[0], w.mTcMoleFractions[0])]))
    S.ensure('role and capacitance are kept', And(u.mDemandMode == w.mDemandMode, u.mCapacitance == w.mCapacitance))


def fluid_get(S, cls, n):
    this = bus(S)
    v = state(S, cls, n)
    src = lambda x: x.mPressure if cls == 'Fluid' else x.mFlowRate
    o = S.snap()
    r = S.call('Distributed2WayBusFluid::get%sState' % cls, this, v)
    t, b = o(this), o(v)
    i = t.mInData
    dem = t.mOutData.mDemandMode
    ok = And(valid(i), dem if cls == 'Fluid' else Not(dem), Not(i.mDemandMode) if cls == 'Fluid' else i.mDemandMode)
    S.ensure('delivers only valid data of the opposite role', r == ok)
    S.ensure('delivers what was received', And(src(v) == If(ok, i.mSource, src(b)), v.mEnergy == If(ok, i.mEnergy, b.mEnergy)))
    x, y = padded(i.mMoleFractions, n[0], 2), padded(i.mTcMoleFractions, n[1], 1)
    S.ensure('every fraction is delivered, missing ones as zero', And(*[v.mMoleFractions[j] == If(ok, x[j], b.mMoleFractions[j]) for j in range(n[0])] + [v.mTcMoleFractions[j] == If(ok, y[j], b.mTcMoleFractions[j]) for j in range(n[1])]))
    S.ensure('the bus is kept', And(this.mOutData.mSource == t.mOutData.mSource, this.mInData.mSource == i.mSource, this.mOutData.mDemandMode == dem))


def limit(S):
    this = bus(S)
    dt, p = S.real('dt', 0, 1000), S.real('p')
    o = S.snap()
    r = S.call('Distributed2WayBusFluid::computeDemandLimit', this, dt, p)
    t = o(this)
    i, u = t.mInData, t.mOutData
    on = And(u.mDemandMode, Not(i.mDemandMode), dt > D(DBL_EPS), u.mCapacitance > D(DBL_EPS), i.mCapacitance > D(DBL_EPS))
    S.ensure('the gain lets no more flow than would equalise the pressures', And(this.mDemandLimitGain >= 0, this.mDemandLimitGain <= 1))
    S.ensure('flow limit is the gain times the equalising flow', Implies(on, r * dt * (1 / u.mCapacitance + 1 / i.mCapacitance) == this.mDemandLimitGain * abs_(p - i.mSource)))
    S.ensure('no demand outside the demand role or without data', Implies(Not(on), And(r == 0, this.mDemandLimitGain == 0)))
    S.ensure('full gain when the other side is much larger', Implies(And(on, i.mCapacitance >= RATIO * u.mCapacitance), this.mDemandLimitGain == 1))
    S.ensure('returns the limit', this.mDemandLimitFlowRate == r)


DBL_EPS = 2.220446049250313e-16


def copy(S, kind):
    cls = 'Distributed2WayBus%sInterfaceData' % kind
    a, b = S.obj(cls, 'this'), S.obj(cls, 'that')
    for v, n in ((a, 'this'), (b, 'that')):
        if kind == 'Fluid':
            mixture(S, v, (2, 1), n)
    o = S.snap()
    S.call(cls + '::operator=', a, b)
    f = ['mFrameCount', 'mFrameLoopback', 'mDemandMode'] + (['mEnergy', 'mCapacitance', 'mSource'] if kind == 'Fluid' else ['mDemandPower', 'mSupplyVoltage'])
    S.ensure('everything is copied', And(*[getattr(a, x) == getattr(b, x) for x in f] + ([a.mMoleFractions[i] == b.mMoleFractions[i] for i in range(2)] + [a.mTcMoleFractions[0] == b.mTcMoleFractions[0]] if kind == 'Fluid' else [])))
    S.ensure('the source of the copy is kept', And(*[getattr(b, x) == getattr(o(b), x) for x in f]))


def exchange(S, a, b, kind):
    """what one side sent arrives at the other"""
    f = ['mFrameCount', 'mFrameLoopback', 'mDemandMode'] + (['mEnergy', 'mCapacitance', 'mSource'] if kind == 'Fluid' else ['mDemandPower', 'mSupplyVoltage'])
    o = S.snap()
    for x, y in ((a, b), (b, a)):
        for g in f:
            S.write(x, 'mInData.' + g, getattr(o(y).mOutData, g))
        if kind == 'Fluid':
            for i in range(2):
                S.write(x.mInData.mMoleFractions, i, o(y).mOutData.mMoleFractions[i])
            S.write(x.mInData.mTcMoleFractions, 0, o(y).mOutData.mTcMoleFractions[0])


def pair_start(S):
    """both sides begin in the supply role"""
    a, b = bus(S, 'a'), bus(S, 'b')
    exchange(S, a, b, 'Fluid')
    S.require(And(valid(a.mInData), valid(b.mInData), a.mForcedRole == NONE, b.mForcedRole == NONE, a.mIsPairMaster != b.mIsPairMaster, Not(a.mOutData.mDemandMode), Not(b.mOutData.mDemandMode)))
    o = S.snap()
    S.call('Distributed2WayBusFluid::processInputs', a)
    S.call('Distributed2WayBusFluid::processInputs', b)
    S.ensure('exactly one side takes the demand: the smaller one, or the master', And(a.mOutData.mDemandMode != b.mOutData.mDemandMode, Implies(a.mOutData.mDemandMode, o(a).mOutData.mCapacitance <= o(b).mOutData.mCapacitance),
             Implies(b.mOutData.mDemandMode, o(b).mOutData.mCapacitance <= o(a).mOutData.mCapacitance)))


def pair_handover(S):
    """a demands, b supplies, and b's capacitance becomes the smaller one"""
    a, b = bus(S, 'a'), bus(S, 'b')
    S.require(And(a.mForcedRole == NONE, b.mForcedRole == NONE, a.mOutData.mDemandMode, Not(b.mOutData.mDemandMode)))
    c = S.real('capacitance', 0)
    S.call('Distributed2WayBusFluid::processOutputs', b, c)
    S.require(b.mOutData.mDemandMode)
    exchange(S, a, b, 'Fluid')
    S.require(And(valid(a.mInData), valid(b.mInData), Not(a.mInDataLastDemandMode), b.mInDataLastDemandMode))
    S.call('Distributed2WayBusFluid::processInputs', a)
    S.call('Distributed2WayBusFluid::processInputs', b)
    S.ensure('the roles are exchanged and one side supplies', And(Not(a.mOutData.mDemandMode), b.mOutData.mDemandMode))


def elect(S, n=2):
    this = bus(S, kind='Elect')
    S.bounded('%d voltage supplies' % n)
    ptr = S.vec(this, 'mSupplyDatas', 'Distributed2WayBusElectSupplyData*', n, 'supplies')
    d = []
    for i in range(n):
        x = S.obj('Distributed2WayBusElectSupplyData', 'supply%d' % i)
        S.bind(ptr, i, x)
        d.append(x)
    return this, d


def elect_update(S):
    this, d = elect(S)
    v, p = S.real('voltage'), S.real('power')
    o = S.snap()
    S.call('Distributed2WayBusElect::update', this, v, p)
    t = o(this)
    i, u, w = t.mInData, t.mOutData, this.mOutData
    av = 0
    for x in d:
        av = If(x.mAvailable, max_(av, x.mMaximumVoltage), av)
    free = If(i.mFrameLoopback > 0, If(u.mDemandMode, Not(And(i.mDemandMode, t.mFramesSinceFlip > t.mLoopLatency)), av < i.mSupplyVoltage), u.mDemandMode)
    role = If(t.mForcedRole == SUPPLY, False, If(t.mForcedRole == DEMAND, True, free))
    S.ensure('role: forced, yielded when the other side takes the demand, or taken when the other side has more voltage', w.mDemandMode == role)
    S.ensure('sends its power demand in the demand role only', w.mDemandPower == If(role, p, 0))
    S.ensure('sends its voltage, or what its supplies could give', w.mSupplyVoltage == If(role, av, v))
    S.ensure('frames since the last change of role', Implies(t.mForcedRole == NONE, this.mFramesSinceFlip == If(role == u.mDemandMode, t.mFramesSinceFlip, 0)))
    r = S.call('Distributed2WayBusElect::getRemoteLoad', this)
    S.ensure('carries the load of the other side in the supply role only', r == If(role, 0, i.mDemandPower))
    S.ensure('sees the voltage of the other side', S.call('Distributed2WayBusElect::getRemoteSupply', this) == i.mSupplyVoltage)


def forced(S, k):
    this = bus(S)
    o = S.snap()
    S.call('Distributed2WayBusBase::' + ('resetForceRole', 'forceSupplyRole', 'forceDemandRole')[k], this)
    S.ensure('remembers the forced role', this.mForcedRole == k)
    S.call('Distributed2WayBusFluid::processInputs', this)
    if k:
        S.ensure('takes the forced role', this.mOutData.mDemandMode == (k == DEMAND))
        S.call('Distributed2WayBusFluid::processOutputs', this, S.real('c', 0))
        S.ensure('and keeps it', this.mOutData.mDemandMode == (k == DEMAND))


def fluid_link(S, **kw):
    k = link(S, 'GunnsFluidDistributedIf', 1, ncls='GunnsFluidNode', **kw)
    S.set(k.this, 'mUserPortSetControl', 0)
    k.bus = bus(S, this=S.addr(k.this, 'mInterface'))
    k.n0 = k.nodes[k.nm[0]]
    return k


def fluid_step(S):
    k = fluid_link(S)
    t0 = k.this
    dt = S.real('dt', 0, 100)
    i, u = k.bus.mInData, k.bus.mOutData
    S.require(And(i.mCapacitance >= 0, u.mCapacitance >= 0, t0.mMalfBlockageValue >= 0, t0.mMalfBlockageValue <= 1))
    o = S.snap()
    S.call('GunnsFluidDistributedIf::step', k.this, dt)
    t, b = o(k.this), o(k.bus)
    dem = b.mOutData.mDemandMode
    on = And(dem, dt > D(EPS))
    ci, cu = b.mInData.mCapacitance, b.mOutData.mCapacitance
    both = And(cu > D(EPS), ci > D(EPS))
    g = k.am[0]
    S.ensure('conducts to the other side in the demand role only', And(Implies(Not(on), g == 0), g >= 0, g <= D(COND)))
    S.ensure('the conductance moves no more than the other side can hold in the step', g * dt <= If(on, ci, 0))
    S.ensure('less blockage', Implies(And(t.mMalfBlockageFlag, t.mMalfBlockageValue == 1), g == 0))
    S.ensure('announces a changed conductance', k.this.mAdmittanceUpdate == Or(t.mAdmittanceUpdate, o(k.am)[0] != g))
    S.ensure('source is the pressure of the other side in the demand role and its demand in the supply role', k.sv[0] == t.mSourcePressure * g + t.mDemandFlux)
    S.ensure('knows the capacitance it gives the network', k.this.mSuppliedCapacitance == If(dem, g * dt, 0))
    S.ensure('asks for the network capacitance', Implies(o(k.n0).mNetworkCapacitanceRequest <= 0, k.n0.mNetworkCapacitanceRequest > 0))


TYPES = [5, 2]


def config(S, F, nm='fluidConfig'):
    """configuration of the network's fluid: constituents F in the order of TYPES"""
    c = S.obj('PolyFluidConfigData', nm)
    d = S.obj('DefinedFluidProperties', nm + '.defined')
    ty = S.arr('int', F.n, nm + '.types')
    for i in range(F.n):
        S.write(ty, i, TYPES[i])
        S.bind(d, 'mProperties[%d]' % TYPES[i], F.props[i])
    S.bind(c, 'mProperties', d)
    S.bind(c, 'mTypes', ty)
    S.set(c, 'mNTypes', F.n)
    S.bind(c, 'mTraceCompounds', None)
    return c


def mixed_link(S, n=2, tc=0, nif=None):
    """the link with the fluids of its node"""
    S.bounded('%d fluid constituents, no trace compounds' % n)
    k = fluid_link(S)
    this = k.this
    F = k.F = Fluids(S, n, phase=0)
    nd = k.node = S.obj('GunnsFluidNode', 'node')
    S.dyn(nd, 'GunnsFluidNode')
    S.set(nd, 'mNumFluidTypes', n)
    for x in ('mContent', 'mInflow', 'mOutflow'):
        F.fluid('node.' + x, obj=S.addr(nd, x))
    S.bind(nd, 'mFluidConfig', config(S, F))
    S.bind(k.np, 0, nd)
    S.bind(this, 'mInternalFluid', F.fluid('internal'))
    F.fluid('state', obj=S.addr(this, 'mFluidState'))
    for x in ('mTempMassFractions', 'mTempMoleFractions'):
        S.bind(this, x, S.arr('double', n, x))
    S.bind(this, 'mTempTcMoleFractions', None)
    for x, c in (('mWorkFluidState', 'Distributed2WayBusFluidFluidState'), ('mWorkFlowState', 'Distributed2WayBusFluidFlowState'), ('mInData', 'GunnsFluidDistributedIfData'), ('mOutData', 'GunnsFluidDistributedIfData')):
        v = S.addr(this, x)
        S.dyn(v, c)
        mixture(S, v, (2, 1), 'link.' + x)
    S.require(conj([f.mMWeight > 0 for f in (nd.mContent, nd.mInflow, this.mInternalFluid)]))
    return k


def silent(S):
    """messages to the user are not part of the state"""
    if S.mode == 'sym':
        S.use('GunnsFluidDistributedIf::processIfNotifications', lambda K, *a: None)
        S.use('GunnsElectDistributedIf::processIfNotifications', lambda K, *a: None)


def received(S, k, x, fluid, e, enthalpy):
    """the fluid is the mixture x with the energy e"""
    F, c = k.F, fluid.mConstituents
    m = sum([x[i] * F.mw(i) for i in range(1, F.n)], x[0] * F.mw(0))
    out = [('composition as received', conj([c[i].mMassFraction * m == x[i] * F.mw(i) for i in range(F.n)]))]
    if not enthalpy:
        return out + [('temperature as received', fluid.mTemperature == e)]
    if S.mode == 'con':
        t = S.call('PolyFluid::computeTemperature', fluid, e)
    else:
        t = T_uf(e, c[0].mMassFraction)
    return out + [('temperature for the received enthalpy', fluid.mTemperature == t)]


def T_uf(*a):
    from gcv.exec import uf, RS
    return uf('T', *([RS] * (len(a) + 1)))(*[R(x) for x in a])


def input_fluid(S, demand, enthalpy):
    k = mixed_link(S)
    this = k.this
    S.set(S.addr(k.bus, 'mOutData'), 'mDemandMode', bool(demand))
    S.set(this, 'mUseEnthalpy', bool(enthalpy))
    w = S.addr(this, 'mWorkFluidState' if demand else 'mWorkFlowState')
    x = [w.mMoleFractions[i] for i in range(2)]
    S.require(And(x[0] >= 0, x[1] >= 0, w.mEnergy > 0))
    if S.mode == 'sym' and enthalpy:
        S.use('PolyFluid::computeTemperature', lambda K, f, h: T_uf(h, f.mConstituents[0].mMassFraction))
    p = S.real('pressure', 0)
    fl = this.mInternalFluid
    o = S.snap()
    r = S.call('GunnsFluidDistributedIf::inputFluid', this, p, fl, may_throw=True)
    S.ensure('data without any fluid is refused', S.threw == (x[0] + x[1] < D(EPS)))
    if S.mode == 'con' and z3.is_true(S.threw):
        raise Reject()
    if S.mode == 'sym':
        S.st.pc += (Not(S.threw),)
    S.ensure('total of the bulk fractions', r == x[0] + x[1])
    S.ensure('pressure is set', fl.mPressure == p)
    ow = o(w)
    for nm, f in received(S, k, [ow.mMoleFractions[i] for i in range(2)], fl, ow.mEnergy, enthalpy):
        S.ensure(nm, f)
    S.ensure('the received data is kept', And(w.mEnergy == ow.mEnergy, conj([w.mMoleFractions[i] == ow.mMoleFractions[i] for i in range(2)])))


def process_in(S, demand):
    """what the other side sent becomes the pressure and fluid of the node or the flow out of it"""
    silent(S)
    k = mixed_link(S)
    this, b = k.this, k.bus
    S.set(this, 'mUseEnthalpy', False)
    role = []
    vol = S.obj('GunnsFluidCapacitor', 'capacitor')
    S.bind(this, 'mCapacitorLink', vol)
    if S.mode == 'sym':
        S.use('PolyFluid::setState', L.set_state)
    S.require(b.mForcedRole == (DEMAND if demand else SUPPLY))
    S.require(Implies(valid(this.mInData), this.mInData.mMoleFractions[0] + this.mInData.mMoleFractions[1] > D(EPS)))
    o = S.snap()
    S.call('GunnsFluidDistributedIf::processInputs', this)
    t = o(this)
    i = t.mInData
    was = o(b).mOutData.mDemandMode
    ok = And(valid(i), i.mDemandMode != bool(demand))
    if demand:
        S.ensure('the pressure of the other side drives the node, or its own when there is no data', this.mSourcePressure == If(ok, D(0.001) * i.mSource, o(k.node).mPotential))
        fl = k.node.mContent
        S.ensure('no flow is demanded', this.mDemandFlux == 0)
        S.ensure('entering the demand role empties the node and remembers its volume', Implies(Not(was), And(vol.mEditVolumeFlag, vol.mEditVolume == 0, this.mSupplyVolume == o(k.node).mVolume)))
        S.ensure('the volume is kept in the role', Implies(was, And(this.mSupplyVolume == t.mSupplyVolume, vol.mEditVolume == o(vol).mEditVolume)))
    else:
        S.ensure('the demand of the other side leaves the node, per mole of bulk fluid', this.mDemandFlux == If(ok, -D(0.001) * i.mSource * (i.mMoleFractions[0] + i.mMoleFractions[1]), 0))
        S.ensure('no source pressure', this.mSourcePressure == 0)
        fl = this.mInternalFluid
        S.ensure('leaving the demand role restores the volume', Implies(was, And(vol.mEditVolumeFlag, vol.mEditVolume == t.mSupplyVolume, this.mSupplyVolume == 0)))
        S.ensure('the volume is kept in the role', Implies(Not(was), And(this.mSupplyVolume == t.mSupplyVolume, vol.mEditVolume == o(vol).mEditVolume)))
    for nm, f in received(S, k, [i.mMoleFractions[j] for j in range(2)], fl, i.mEnergy, False):
        S.ensure(nm, Implies(ok, f))


def process_out(S, demand, enthalpy):
    """the state of the node, or the flow into it, is sent"""
    silent(S)
    k = mixed_link(S)
    this, b, nd = k.this, k.bus, k.node
    S.set(S.addr(b, 'mOutData'), 'mDemandMode', bool(demand))
    S.set(this, 'mUseEnthalpy', bool(enthalpy))
    vol = S.obj('GunnsFluidCapacitor', 'capacitor')
    S.bind(this, 'mCapacitorLink', vol)
    S.vec(this, 'mOtherIfs', 'GunnsFluidDistributedIf*', 0, 'others')
    if S.mode == 'sym':
        S.use('PolyFluid::setState', L.set_state)
    cap = S.call('GunnsFluidDistributedIf::outputCapacitance', this)
    fr = lambda f: [f.mConstituents[j].mMassFraction for j in range(2)]
    for f in (nd.mContent, nd.mInflow):
        S.require(conj([x >= 0 for x in fr(f)] + [fr(f)[0] + fr(f)[1] == 1]))
    S.require(b.mForcedRole == (DEMAND if demand else SUPPLY))
    o = S.snap()
    S.call('GunnsFluidDistributedIf::processOutputs', this)
    t, u, n0 = o(this), this.mOutData, o(nd)
    S.ensure('what is sent is what the interface sends', And(u.mSource == b.mOutData.mSource, u.mEnergy == b.mOutData.mEnergy, u.mDemandMode == b.mOutData.mDemandMode, u.mCapacitance == b.mOutData.mCapacitance, conj([u.mMoleFractions[j] == b.mOutData.mMoleFractions[j] for j in range(2)])))
    S.ensure('the capacitance is sent', u.mCapacitance == cap)
    en = lambda f: f.mSpecificEnthalpy if enthalpy else f.mTemperature
    if demand:
        neg = Or(n0.mInflow.mConstituents[0].mMoleFraction < 0, n0.mInflow.mConstituents[1].mMoleFraction < 0)
        use = And(n0.mInflow.mTemperature > 0, Not(neg))
        S.ensure('the flow is sent', u.mSource == 1000 * t.mFlux)
        S.ensure('with the energy of the inflow', u.mEnergy == If(use, en(n0.mInflow), en(n0.mContent)))
        src = [If(use, fr(n0.mInflow)[j], fr(n0.mContent)[j]) for j in range(2)]
    else:
        S.ensure('the pressure is sent', u.mSource == 1000 * n0.mPotential)
        S.ensure('with the energy of the content', u.mEnergy == en(n0.mContent))
        src = fr(n0.mContent)
    m = src[0] / k.F.mw(0) + src[1] / k.F.mw(1)
    S.ensure('with its composition by moles', conj([u.mMoleFractions[j] * m == src[j] / k.F.mw(j) for j in range(2)]))
    S.ensure('the mole fractions sent add up to one', u.mMoleFractions[0] + u.mMoleFractions[1] == 1)


def supplied(S, n):
    """capacitance the other side may rely on"""
    S.bounded('%d other interfaces in the network' % n)
    k = fluid_link(S)
    ptr = S.vec(k.this, 'mOtherIfs', 'GunnsFluidDistributedIf*', n, 'others') if n else S.vec(k.this, 'mOtherIfs', 'GunnsFluidDistributedIf*', 0, 'others')
    d = []
    dv = S.arr('double', k.N, 'deltaPotential')
    nd = S.obj('GunnsFluidNode', 'node')
    S.bind(k.np, 0, nd)
    S.bind(nd, 'mNetCapDeltaPotential', dv)
    for i in range(n):
        x = S.obj('GunnsFluidDistributedIf', 'other%d' % i)
        S.bind(ptr, i, x)
        nm = S.arr('int', 1, 'other%d.map' % i)
        S.require(And(nm[0] >= 0, nm[0] < k.N))
        S.bind(x, 'mNodeMap', nm)
        d.append((x, nm))
    S.require(k.nm[0] < k.N)
    r = S.call('GunnsFluidDistributedIf::outputCapacitance', k.this)
    c = nd.mNetworkCapacitance - k.this.mSuppliedCapacitance
    own = dv[k.nm[0]]
    for x, nm in d:
        o = dv[nm[0]]
        on = And(x.mSuppliedCapacitance > D(EPS), o > D(EPS))
        c = c - If(on, x.mSuppliedCapacitance * (o / If(on, max_(own, D(EPS)), 1)), 0)
    S.ensure('the network capacitance less what the interfaces themselves supply, never negative', r == max_(0, c))


def fluid_flows(S):
    k = fluid_link(S)
    o = S.snap()
    S.call('GunnsFluidDistributedIf::computeFlows', k.this, S.real('dt', 0, 100))
    f = k.this.mFlux
    dem = k.bus.mOutData.mDemandMode
    S.ensure('flux into the node from the solved potential', f == k.sv[0] - k.am[0] * k.pv[0])
    S.ensure('outflow is scheduled at the node in the demand role only', k.n0.mScheduledOutflux - o(k.n0).mScheduledOutflux == If(And(dem, f < -D(EPS)), -f, 0))
    S.ensure('port direction', k.pd[0] == If(f > D(EPS), 2, If(f < -D(EPS), If(dem, 1, 2), 0)))
    S.ensure('no other node is touched', S.forall(0, k.N + 1, lambda i: Or(i == k.nm[0], k.nodes[i].mScheduledOutflux == o(k.nodes[i]).mScheduledOutflux)))


def fluid_transport(S):
    k = mixed_link(S)
    this, nd = k.this, k.node
    if S.mode == 'sym':
        S.use('GunnsFluidNode::collectInflux', L.collect)
    o = S.snap()
    S.call('GunnsFluidDistributedIf::transportFlows', this, S.real('dt', 0, 100))
    t, n0 = o(this), o(nd)
    dem = k.bus.mOutData.mDemandMode
    q = t.mFlux
    w = this.mFlowRate
    lim = D(100 * EPS)
    S.ensure('mass flow is the molar flux of the node fluid in the demand role, and of the demanded fluid in the supply role', w == q * If(dem, n0.mContent.mMWeight, t.mInternalFluid.mMWeight))
    di, do = nd.mInfluxRate - n0.mInfluxRate, nd.mOutfluxRate - n0.mOutfluxRate
    S.ensure('the node gains the flow', di - do == If(abs_(w) > lim, w, 0))
    S.ensure('in the supply role the demanded fluid is exchanged in both directions', Implies(Not(dem), do == 0))
    if S.mode == 'sym':
        h = nd.mInflowHeatFlux - n0.mInflowHeatFlux
        S.ensure('with its heat', h == If(dem, If(w > lim, w * n0.mContent.mSpecificEnthalpy, 0), If(abs_(w) > lim, w * t.mInternalFluid.mSpecificEnthalpy, 0)))


def elect_link(S, n=1):
    silent(S)
    k = link(S, 'GunnsElectDistributedIf', 1)
    S.set(k.this, 'mUserPortSetControl', 0)
    k.bus, k.data = bus(S, kind='Elect', this=S.addr(k.this, 'mInterface')), []
    S.bounded('%d voltage supplies' % n)
    pd = S.vec(k.bus, 'mSupplyDatas', 'Distributed2WayBusElectSupplyData*', n, 'busSupplies')
    ps = S.vec(k.this, 'mSupplies', 'GunnsElectDistributedIfSupplyData', n, 'supplies')
    S.require(k.nm[0] < k.N)
    nd = k.node = S.obj('GunnsBasicNode', 'node')
    S.bind(k.np, 0, nd)
    dv = k.dv = S.arr('double', k.N, 'deltaPotential')
    S.bind(nd, 'mNetCapDeltaPotential', dv)
    for i in range(n):
        d = S.obj('Distributed2WayBusElectSupplyData', 'supply%d' % i)
        x = S.obj('GunnsElectConverterOutput', 'converter%d' % i)
        nm = S.arr('int', 1, 'converter%d.map' % i)
        S.require(And(nm[0] >= 0, nm[0] < k.N))
        S.bind(x, 'mNodeMap', nm)
        S.bind(pd, i, d)
        S.bind(S.addr_at(ps, i), 'mSupplyData', d)
        S.bind(S.addr_at(ps, i), 'mLink', x)
        k.data.append((d, x, nm))
    return k


def role_fields(k, dem, t, load, under):
    this = k.this
    v, p = this.mVoltageSource, this.mPowerLoad
    out = [v.mEnabled == And(dem, Not(t.mMalfVoltageSource)), p.mEnabled == And(Not(dem), Not(t.mMalfPowerLoad)), p.mInputPower == If(dem, 0, load)]
    return out + ([p.mInputUnderVoltageTrip.mLimit == If(dem, 0, under)] if under is not None else [])


def elect_minor(S):
    k = elect_link(S, 0)
    o = S.snap()
    S.call('GunnsElectDistributedIf::minorStep', k.this, S.real('dt', 0, 100), S.int('minorStep', 1, 100))
    t = o(k.this)
    dem = o(k.bus).mOutData.mDemandMode
    S.ensure('the voltage source powers the network in the demand role, the load of the other side is drawn in the supply role', And(*role_fields(k, dem, t, o(k.bus).mInData.mDemandPower, D(0.9) * k.pv[0])))
    S.ensure('the link itself adds nothing to the network', And(k.am[0] == 0, k.sv[0] == 0))
    S.ensure('the role is kept', k.bus.mOutData.mDemandMode == dem)


def elect_step(S):
    k = elect_link(S)
    o = S.snap()
    S.call('GunnsElectDistributedIf::step', k.this, S.real('dt', 0, 100))
    t, b = o(k.this), o(k.bus)
    dem = k.bus.mOutData.mDemandMode
    S.ensure('one more frame is counted', k.bus.mOutData.mFrameCount == b.mOutData.mFrameCount + 1)
    S.ensure('the voltage of the other side feeds the voltage source', k.this.mVoltageSource.mInputVoltage == b.mInData.mSupplyVoltage)
    S.ensure('source and load follow the role', And(*role_fields(k, dem, t, b.mInData.mDemandPower, D(0.9) * k.pv[0])))


def elect_data(S, n):
    k = elect_link(S, n)
    o = S.snap()
    lim = [S.call('GunnsElectConverterOutput::getControlVoltage', x) for d, x, nm in k.data]
    S.call('GunnsElectDistributedIf::updateSupplyData', k.this)
    ps = k.this
    for i, (d, x, nm) in enumerate(k.data):
        S.ensure('maximum voltage is what the supply controls to', d.mMaximumVoltage == lim[i])
        S.ensure('available when enabled and able to raise the voltage of the node', d.mAvailable == And(x.mEnabled, k.dv[nm[0]] > k.this.mNetCapDvThreshold))
    on = Or(*[And(x.mEnabled, lim[i] > D(1.1920928955078125e-07)) for i, (d, x, nm) in enumerate(k.data)])
    S.ensure('asks for the network capacitance when any supply is on', k.node.mNetworkCapacitanceRequest == If(on, 1, o(k.node).mNetworkCapacitanceRequest))


def elect_confirm(S):
    k = elect_link(S)
    o = S.snap()
    r = S.call('GunnsElectDistributedIf::confirmSolutionAcceptable', k.this, S.int('convergedStep', 1, 100), S.int('absoluteStep', 1, 100))
    t, b = o(k.this), o(k.bus)
    was, dem = b.mOutData.mDemandMode, k.bus.mOutData.mDemandMode
    rej = And(dem, Not(was))
    S.ensure('the solution is rejected when the role changes to demand', r == If(rej, 0, 1))
    S.ensure('and the voltage source takes over from the load', Implies(rej, And(*role_fields(k, True, t, 0, None))))
    v = t.mVoltageSource
    S.ensure('sends the power drawn in the demand role when it is valid', k.bus.mOutData.mDemandPower == If(And(dem, v.mInputPowerValid), v.mInputPower, 0))
    S.ensure('sends its voltage in the supply role', Implies(Not(dem), k.bus.mOutData.mSupplyVoltage == k.pv[0]))


EPS, COND = 2.220446049250313e-16, 1e15
HARNESSES = [('counts fluid', counts, ('Fluid',)), ('counts elect', counts, ('Elect',)), ('fluid inputs', fluid_in), ('fluid outputs', fluid_out), ('demand limit', limit), ('copy fluid', copy, ('Fluid',)), ('copy elect', copy, ('Elect',)),
             ('pair start', pair_start), ('pair handover', pair_handover), ('elect update', elect_update), ('forced supply', forced, (1,)), ('forced demand', forced, (2,)), ('role reset', forced, (0,)),
             ('fluid step', fluid_step), ('fluid flows', fluid_flows), ('fluid transport', fluid_transport), ('elect minor step', elect_minor), ('elect confirm', elect_confirm), ('elect step', elect_step), ('elect supply data 1', elect_data, (1,)), ('elect supply data 2', elect_data, (2,))]
for _n in ((2, 1), (1, 0), (3, 2)):
    for _c in ('Fluid', 'Flow'):
        HARNESSES += [('set %s %d,%d' % ((_c.lower(),) + _n), fluid_set, (_c, _n)), ('get %s %d,%d' % ((_c.lower(),) + _n), fluid_get, (_c, _n))]
HARNESSES += [('input fluid %s %s' % (('supply', 'demand')[d], ('temperature', 'enthalpy')[e]), input_fluid, (d, e)) for d in (0, 1) for e in (0, 1)]
HARNESSES += [('process inputs ' + ('supply', 'demand')[d], process_in, (d,)) for d in (0, 1)] + [('process outputs %s %s' % (('supply', 'demand')[d], ('temperature', 'enthalpy')[e]), process_out, (d, e)) for d in (0, 1) for e in (0, 1)]
HARNESSES += [('supplied capacitance %d' % n, supplied, (n,)) for n in (0, 1, 2)]
