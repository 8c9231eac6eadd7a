"""Fluid links that transfer substances: adsorbers, separators, membranes, evaporation, boundary and fire sources, reactors."""
from gcv.api import *
from gcv.lib import *
from gcv.sym import R
from props import P09 as L, P15 as T
from props.P07 import uf_
ID = 'P16'
CLS = ('Adsorber', 'HotAdsorber', 'AdsorptionCompound', 'MultiAdsorber', 'SeparatorGas', 'SeparatorLiquid', 'MultiSeparator', 'SelectiveMembrane', 'Evaporation', 'PhaseChangeSource', 'SourceBoundary', 'FireSource', 'Heater', 'Reactor', 'HotReactor', 'SimpleH2Redox', 'Sublimator', 'SorptionBed')
SOURCES = L.SOURCES + ['ms-utils/properties/SorbantProperties.cpp', 'aspects/fluid/fluid/GunnsFluidTraceCompounds.cpp'] + ['aspects/fluid/source/GunnsFluid%s.cpp' % c for c in CLS] + ['aspects/fluid/capacitor/GunnsFluidAccum.cpp']
META = dict(
    title='Links that absorb, separate, evaporate or react neither make nor lose matter',
    statement='What an adsorber, separator, membrane, evaporator, boundary source, fire, reactor or fuel cell takes out of one node, bed or pool appears in the other, substance by substance: the stored mass changes by exactly what the nodes are given and stays between empty and full, no more is taken than flows past, is there or the rate limit allows, and blockage and malfunctions scale it as set. What the solver is told of the flow, by source, port and direction, is what is then moved, on the port the flow really leaves by in either direction, and nothing when nothing is exchanged. Heat goes with the matter that moved and the heat of sorption, evaporation or reaction has the sign and size of the amount exchanged, and a sublimator vents the ice its heat sublimates.',
    over=['inputs', 'histories'],
    quant='every state of bed, pool and nodes, every configuration and malfunction the models accept, flow in either direction or none, and every time step',
    why='unit tests run each link on two fixed nodes with one or two flows; reverse flow, flows that stop, beds that fill up, several compounds and ports and malfunctions on top of them have to conserve mass in every combination',
    files=['aspects/fluid/source/GunnsFluid%s.cpp' % c for c in CLS],
    mech=[('adsorbers', 'aspects/fluid/source/GunnsFluidAdsorber.cpp GunnsFluidAdsorber::updateFluid, adsorb, desorb; GunnsFluidMultiAdsorber.cpp updateFluid; GunnsFluidAdsorptionCompound.cpp sorb'),
          ('separators', 'aspects/fluid/source/GunnsFluidSeparatorGas.cpp updateFluid; GunnsFluidMultiSeparator.cpp step, computeFlows, transportFlows'),
          ('membrane', 'aspects/fluid/source/GunnsFluidSelectiveMembrane.cpp step, computeFlows, transportFlows'),
          ('evaporation and boundary sources', 'aspects/fluid/source/GunnsFluidEvaporation.cpp, GunnsFluidPhaseChangeSource.cpp, GunnsFluidSourceBoundary.cpp, GunnsFluidFireSource.cpp'),
          ('reactors', 'aspects/fluid/source/GunnsFluidReactor.cpp GunnsFluidReactor::updateFluid; GunnsFluidSimpleH2Redox.cpp step, transportFlows'),
          ('sublimator', 'aspects/fluid/source/GunnsFluidSublimator.cpp step, computeFlows, transportFlows'), ('sorption bed', 'aspects/fluid/source/GunnsFluidSorptionBed.cpp updateLoadingEquil, updateLoading, updateLoadedMass, GunnsFluidSorptionBedSegment::update, exchangeFluid, updateSegments, transportFlows, computeAdsorbOutputs')],
    note='bounded: 2 fluid constituents, up to 2 compounds in the multi adsorber and 2 separated types in the multi separator. Real arithmetic stands for floating point; property correlations of fluids uninterpreted. Callee contracts assumed: collectInflux (P07, P09), computeConvectiveHeatFlux (P09) and the mixture operations setState, setTemperature, setMoleAndMoleFractions (P07).')
EPS = L.EPS
FEPS = 1.1920928955078125e-07
LIM = 100 * EPS


def start(S, cls, ports=2, n=2, own=True, phase=0):
    """a link of cls on nodes of its own, each with n constituents"""
    S.bounded('%d fluid constituents' % n)
    F = Fluids(S, n, phase=phase)
    k = link(S, cls, ports, ncls='GunnsFluidNode')
    S.set(k.this, 'mUserPortSetControl', 0)
    k.n = []
    for i in range(ports):
        nd = T.node(S, F, 'node%d' % i)
        S.bind(k.np, i, nd)
        k.n.append(nd)
        S.require(conj([And(f.mDensity >= 0, f.mMWeight >= 0, f.mPressure >= 0, f.mTemperature >= 0) for f in (nd.mOutflow, nd.mContent)]))
    k.F = F
    k.fl = None
    if own:
        k.fl = F.fluid('internal')
        S.bind(k.this, 'mInternalFluid', k.fl)
    return k


def collect(K, this, w, fl, n=2):
    """mass, heat and each constituent enter the node's inflow (P07 proves this of the real node)"""
    L.collect(K, this, w, fl)
    a, b = this.mInflow.mConstituents, fl.mConstituents
    for i in range(n):
        K.assign(a[i], 'mFluid.mMass', a[i].mFluid.mMass + w * b[i].mMassFraction)


def contracts(S, heat=True, n=2):
    if S.mode == 'con':
        return
    S.use('GunnsFluidNode::collectInflux', lambda K, this, w, fl: collect(K, this, w, fl, n))
    if heat:
        S.use('GunnsFluidUtils::computeConvectiveHeatFlux(PolyFluid*, double, double, double, double, double)', lambda K, f, w, rd, d, a, tw: (K.assign(f, 'mSpecificEnthalpy', K.fresh_real('h')), K.assign(f, 'mTemperature', T_(K)), K.fresh_real('wall'))[-1])


def T_(K):
    t = K.fresh_real('T')
    K.assume(t >= 0)
    return t


def into(o, nd, i=None):
    """rate of mass (of constituent i) put into the node"""
    if i is None:
        return nd.mInfluxRate - o(nd).mInfluxRate - (nd.mOutfluxRate - o(nd).mOutfluxRate)
    return nd.mInflow.mConstituents[i].mFluid.mMass - o(nd.mInflow.mConstituents)[i].mFluid.mMass


def props(S, fl, mw=None):
    """the class invariant of a mixture, as far as these links use it"""
    c = fl.mConstituents
    S.require(conj([And(c[i].mMassFraction >= 0, c[i].mMassFraction <= 1) for i in range(2)]))


def adsorber(S, cls, desorb):
    k = start(S, cls)
    this, fl, F = k.this, k.fl, k.F
    sf = F.fluid('sorbed')
    S.bind(this, 'mSorbtionFluid', sf)
    S.set(this, 'mGasIndex', 1)
    if cls == 'GunnsFluidAdsorber':
        S.set(this, 'mDesorbtionCycle', desorb)
    props(S, fl)
    dt = S.real('dt', 0, 100)
    S.require(And(this.mAdsorbedMass >= 0, this.mAdsorbedMass <= this.mMaxAdsorbedMass, this.mMaxAdsorbtionRate >= 0, this.mDesorbtionRate >= 0))
    hot = cls == 'GunnsFluidHotAdsorber'
    contracts(S)
    o = S.snap()
    S.call('GunnsFluidAdsorber::updateFluid', this, dt, S.real('flow'))
    t = o(this)
    w = t.mFlowRate
    bed = this.mAdsorbedMass - t.mAdsorbedMass
    on = dt > D(EPS)
    eff = If(t.mMalfEfficiencyFlag, t.mMalfEfficiencyValue, clamp(t.mEfficiencyBias + t.mEfficiencyScaleFactor * this.mFluidTemperature, -1, 1) if hot else R(-1) if desorb else t.mEfficiency)
    de = And(on, eff < 0) if hot else desorb
    past = o(fl.mConstituents)[1].mMassFraction * abs_(w) * dt
    S.ensure('bed stays between empty and full', And(this.mAdsorbedMass >= 0, this.mAdsorbedMass <= t.mMaxAdsorbedMass))
    S.ensure('takes up the efficient part of what flows past, limited by its rate and its room', Implies(And(on, Not(B(de))), bed == max_(0, min_(past * eff, min_(t.mMaxAdsorbtionRate * dt, t.mMaxAdsorbedMass - t.mAdsorbedMass)))))
    S.ensure('gives off no faster than its rate and no more than it holds', Implies(And(on, B(de)), -bed == max_(0, min_(t.mAdsorbedMass, -eff * t.mDesorbtionRate * dt))))
    S.ensure('nothing in a vanishing time step', Implies(Not(on), bed == 0))
    if hot:
        S.ensure('knows whether it adsorbs or desorbs', Implies(on, this.mDesorbtionCycle == (eff < 0)))
    S.require(Or(abs_(bed) >= D(1000 * EPS), bed == 0))
    rate = If(on, -bed / If(on, dt, 1), 0)
    moved = If(abs_(rate) > D(LIM), rate, 0)
    ex = lambda i: If((w >= 0) if i == 1 else (w < 0), moved, 0)
    S.ensure('the node the flow leaves to gets what the bed gives up and loses what it takes', And(*[into(o, k.n[i]) == ex(i) for i in (0, 1)]))
    if S.mode == 'sym':
        S.ensure('it is the sorbed gas', And(*[And(into(o, k.n[i], 1) == ex(i), into(o, k.n[i], 0) == 0) for i in (0, 1)]))
    S.ensure('the solver is told of it at the same node in moles, and of nothing else', And(*[k.sv[i] * F.mw(1) == ex(i) for i in (0, 1)]))


def sorb(S, kind):
    """one compound of the multi adsorber"""
    F = Fluids(S, 2, phase=0)
    this, fl = S.obj('GunnsFluidAdsorptionCompound', 'this'), F.fluid('fluid')
    S.dyn(this, 'GunnsFluidAdsorptionCompound')
    S.bind(this, 'mFluid', fl)
    S.set(this, 'mTraceCompound', False)
    S.set(this, 'mIndex', 1)
    dep = S.obj('GunnsFluidAdsorptionCompound', 'dependent') if kind == 'dependent' else None
    S.bind(this, 'mDependentCompound', dep)
    if kind != 'taper':
        S.set(this, 'mTaperOffFlag', False)
    props(S, fl)
    dt, T, p, w = S.real('dt', 0, 100), S.real('T', 0, 5000), S.real('p', 0, 1e6), S.real('flow')
    S.require(And(dt > D(EPS), this.mAdsorbedMass >= 0, this.mAdsorbedMass <= this.mMaxAdsorbedMass, this.mMaxAdsorbedMass >= D(EPS), this.mDesorbRateFactor >= 0, this.mMalfEfficiencyValue >= 0, this.mMalfEfficiencyValue <= 1, this.mMWeight > 0,
                  fl.mConstituents[1].mMoleFraction >= 0, fl.mConstituents[1].mMoleFraction <= 1, this.mFillFraction * this.mMaxAdsorbedMass == this.mAdsorbedMass))
    if dep is not None:
        S.require(And(dep.mFillFraction >= 0, dep.mFillFraction <= 1))
    o = S.snap()
    S.call('GunnsFluidAdsorptionCompound::sorb', this, dt, T, p, w)
    t, c = o(this), o(fl.mConstituents)[1]
    e = clamp(t.mEfficiencyCoeff0 + t.mEfficiencyCoeff1 * T, -1, 1)
    pp = p * c.mMoleFraction
    out = Or(pp < t.mDesorbPartialPressure, e < 0)
    r = If(out, min_(0, pp - t.mDesorbPartialPressure) * t.mDesorbRateFactor * abs_(e), e * (c.mMassFraction * abs_(w)))
    rate = this.mAdsorptionRate
    past = c.mMassFraction * abs_(w)
    S.ensure('bed stays between empty and full', And(this.mAdsorbedMass >= 0, this.mAdsorbedMass <= t.mMaxAdsorbedMass))
    S.ensure('the bed takes what is taken from the flow, down to rounding', abs_(this.mAdsorbedMass - t.mAdsorbedMass - rate * dt) <= D(EPS))
    S.ensure('fill fraction is that of the bed', this.mFillFraction * t.mMaxAdsorbedMass == this.mAdsorbedMass)
    S.ensure('takes no more than flows past', rate <= past)
    S.ensure('takes only while it may adsorb and gives only while it may desorb', And(Implies(out, rate <= 0), Implies(Not(out), rate >= 0)))
    S.ensure('no more than there is room for or it holds', And(rate * dt <= t.mMaxAdsorbedMass - t.mAdsorbedMass, rate * dt >= -t.mAdsorbedMass))
    S.ensure('heat of sorption of the moles taken', this.mSorptionHeat * t.mMWeight == -t.mHeatOfAdsorption * rate * 1000000)
    if kind == 'dependent':
        f = o(dep).mFillFraction
        r = r * If(r > 0, f, 1 - f)
    if kind == 'taper':
        return
    r = If(t.mMalfEfficiencyFlag, r * t.mMalfEfficiencyValue, r)
    S.ensure('rate by efficiency or desorption pressure, what the other compound leaves of it, and the room left', rate == If(r > 0, min_(r, (t.mMaxAdsorbedMass - t.mAdsorbedMass) / dt), max_(r, -t.mAdsorbedMass / dt)))


def multi_adsorber(S):
    k = start(S, 'GunnsFluidMultiAdsorber')
    this, fl, F = k.this, k.fl, k.F
    sf = F.fluid('sorbed')
    S.bind(this, 'mSorptionFluid', sf)
    c = S.arr('GunnsFluidAdsorptionCompound', 2, 'compounds')
    S.bind(this, 'mCompounds', c)
    S.set(this, 'mNCompounds', 2)
    for i in range(2):
        S.set(S.addr_at(c, i), 'mTraceCompound', False)
        S.set(S.addr_at(c, i), 'mIndex', 1 - i)
    S.bounded('2 sorbed compounds')
    dt = S.real('dt', 0, 100)
    contracts(S)
    if S.mode == 'con':
        raise Reject()
    r, q = [S.real('rate%d' % i) for i in (0, 1)], [S.real('heat%d' % i) for i in (0, 1)]
    calls = []

    def sorbed(K, this, dt, T, p, w):
        i = len(calls)
        calls.append((T, p, w))
        K.assign(this, 'mAdsorptionRate', r[i])
        K.assign(this, 'mSorptionHeat', q[i])
    S.use('GunnsFluidAdsorptionCompound::sorb', sorbed)
    # masses this small are lost in the rounding of the mixture (PolyFluid::updateMass)
    S.require(Or(And(r[0] == 0, r[1] == 0), And(abs_(r[0] + r[1]) >= D(1000 * EPS), abs_(r[0] / F.mw(1) + r[1] / F.mw(0)) >= D(EPS))))
    o = S.snap()
    S.call('GunnsFluidMultiAdsorber::updateFluid', this, dt, S.real('flow'))
    t = o(this)
    w, on = t.mFlowRate, dt > D(EPS)
    net = r[0] + r[1]
    ex = lambda i, x: If(And(on, (w >= 0) if i == 1 else (w < 0), abs_(net) > D(LIM)), -x, 0)
    S.ensure('each compound sees the mean pressure and the flow', And(*[Implies(on, And(p == (k.pv[0] + k.pv[1]) / 2, x == w)) for T, p, x in calls]))
    S.ensure('the node the flow leaves to loses what the beds take', And(*[into(o, k.n[i]) == ex(i, net) for i in (0, 1)]))
    S.ensure('compound by compound', And(*[And(into(o, k.n[i], 1) == ex(i, r[0]), into(o, k.n[i], 0) == ex(i, r[1])) for i in (0, 1)]))
    S.ensure('the solver is told of the moles at the same node, and of nothing else', Implies(on, And(*[k.sv[i] == ex(i, r[0] / F.mw(1) + r[1] / F.mw(0)) for i in (0, 1)])))
    S.ensure('heat of sorption of all compounds', this.mSorptionHeat == If(on, q[0] + q[1], 0))


def gas_separator(S):
    k = start(S, 'GunnsFluidSeparatorGas')
    this, fl, F = k.this, k.fl, k.F
    sl = F.fluid('liquid')
    S.bind(this, 'mSeparatedLiquid', sl)
    S.set(this, 'mGasIndex', 1)
    props(S, fl)
    lc = sl.mConstituents
    dt = S.real('dt', 0, 100)
    S.require(And(this.mLiquidMass >= 0, this.mLiquidMass <= this.mMaxLiquidMass, this.mSeparatorSpeed >= 0, this.mRemovalRateCoefficient > 0, lc[0].mMassFraction == 0, lc[1].mMassFraction == 1, sl.mMWeight == F.mw(1)))
    if S.mode == 'con':
        raise Reject()
    rh = S.real('humidity')
    S.use('GunnsFluidUtils::computeRelativeHumidityH2O', lambda K, f: rh)
    S.use('PolyFluid::setTemperature', L.set_temperature)
    contracts(S)
    o = S.snap()
    S.call('GunnsFluidSeparatorGas::updateFluid', this, dt, S.real('flow'))
    t = o(this)
    w = t.mFlowRate
    on = And(dt >= D(EPS), w >= D(LIM), rh >= 1)
    drawn = max_(0, t.mTransferFlowRate * dt)
    pool = max_(0, t.mLiquidMass - drawn)
    cond = min_(o(fl.mConstituents)[1].mMassFraction * abs_(w) * dt, t.mRemovalRateCoefficient * t.mSeparatorSpeed * dt)
    sep = If(on, min_(cond, t.mMaxLiquidMass - pool), 0)
    S.ensure('condensate is what flows past, limited by the speed and the room', this.mLiquidMass == pool + sep)
    S.ensure('pool stays between empty and full', And(this.mLiquidMass >= 0, this.mLiquidMass <= t.mMaxLiquidMass))
    S.ensure('liquid drawn beyond the pool is accounted', this.mLiquidMassError - t.mLiquidMassError == max_(0, drawn - t.mLiquidMass))
    S.ensure('overflow is flagged', this.mLiquidOverflow == And(on, cond > t.mMaxLiquidMass - pool))
    S.ensure('the rate fills the pool', this.mSeparationRate * dt == sep)
    S.ensure('nothing separates in reverse, from dry gas or in a vanishing time step', Implies(Not(on), this.mSeparationRate == 0))
    g = If(this.mSeparationRate > D(LIM), this.mSeparationRate, 0)
    S.ensure('the gas loses it at its exit', And(into(o, k.n[1]) == -g, into(o, k.n[1], 1) == -g, into(o, k.n[1], 0) == 0, into(o, k.n[0]) == 0))
    S.ensure('the solver is told of it there in moles', And(k.sv[1] * F.mw(1) == -g, k.sv[0] == 0))


def multi_separator(S, what):
    """2 separated types on 4 ports"""
    k = start(S, 'GunnsFluidMultiSeparator', 4)
    this, fl, F = k.this, k.fl, k.F
    S.bounded('2 separated fluids, 4 ports')
    S.set(this, 'mNumSepTypes', 2)
    S.set(this, 'mNumTcTypes', 0)
    bt, be, fr = [S.arr('double', 2, x) for x in ('thru', 'exit', 'fraction')]
    ix, pt, wm = S.arr('int', 2, 'sepIndex'), S.arr('int', 2, 'sepPort'), S.arr('double', 2, 'work')
    for f, v in (('mSepBufferThru', bt), ('mSepBufferExit', be), ('mSepFraction', fr), ('mSepIndex', ix), ('mSepPort', pt), ('mWorkMoleFractions', wm)):
        S.bind(this, f, v)
    for i in range(2):
        S.write(ix, i, 1 - i)
        S.write(pt, i, 3 - i)
        S.require(And(fr[i] >= 0, fr[i] <= 1, bt[i] >= 0, be[i] >= 0))
    dt = S.real('dt', 0, 100)
    a = k.am
    if what == 'step':
        f0, f1 = k.n[0].mContent, k.n[1].mContent
        S.require(this.mMinLinearizationPotential >= 0)
        S.require(conj([a[1] == -a[0], a[4] == -a[0], a[5] == a[0]] + [a[i] == 0 for i in range(16) if i not in (0, 1, 4, 5)]))
        o = S.snap()
        S.call('GunnsFluidMultiSeparator::step', this, dt)
        t = o(this)
        g = clamp(L.admittance(S, L.blocked(t, t.mMaxConductance), t.mMinLinearizationPotential, f0, f1), 0, D(L.COND))
        L.stamp(S, k, o, g, 4)
        L.vec_kept(S, k, o, P=4)
        b = o(bt)
        ex = If(k.pv[0] >= k.pv[1], 1, 0)
        S.ensure('what was separated from the flow last pass leaves by its own port now', And(k.sv[3] == b[0], k.sv[2] == b[1], be[0] == b[0], be[1] == b[1]))
        S.ensure('and is taken from the exit of the flow', And(k.sv[1] == If(ex == 1, -b[0] - b[1], 0), k.sv[0] == If(ex == 0, -b[0] - b[1], 0)))
        return
    q = S.real('flux') if what == 'transport' else None
    for n in k.n:
        props(S, n.mOutflow)
    if what == 'flows':
        o = S.snap()
        S.call('GunnsFluidMultiSeparator::computeFlows', this, dt)
        drop = k.pv[0] - k.pv[1]
        fx = If(abs_(drop) < max_(k.pv[0], k.pv[1]) * (100 * D(EPS)), 0, drop * k.am[0])
        S.ensure('flux by the conductance', And(this.mPotentialDrop == drop, this.mFlux == fx))
        up = If(Or(And(fx < 0, k.nm[1] != k.N), And(fx > 0, k.nm[0] == k.N)), 1, 0)
        so = lambda f: If(up == 1, f(k.n[1].mOutflow), f(k.n[0].mOutflow))
        S.ensure('mass flow is the flux of the fluid that flows', this.mFlowRate == fx * so(lambda f: f.mMWeight))
        S.ensure('separates its fraction of each type from what flows', And(*[bt[i] == o(fr)[i] * abs_(fx) * so(lambda f: f.mConstituents[1 - i].mMoleFraction) for i in (0, 1)]))
        E = abs_(fx) > D(EPS)
        S.ensure('port directions of the flow follow the flux', And(*[k.pd[i] == If(E, If(up == i, 1, 2), 0) for i in (0, 1)]))
        S.ensure('separation ports are where fluid enters the nodes', And(*[k.pd[3 - i] == If(be[i] > D(EPS), 2, 0) for i in (0, 1)]))
        S.ensure('the flow is scheduled at the node it leaves', And(*[k.n[i].mScheduledOutflux - o(k.n[i]).mScheduledOutflux == If(And(E, up == i), abs_(fx), 0) for i in (0, 1, 2, 3)]))
        return
    if S.mode == 'con':
        raise Reject()
    sf = S.arr('PolyFluid', 2, 'sepFluid')
    S.bind(this, 'mSepFluid', sf)
    for i in range(2):
        f = F.fluid('sep%d' % i, obj=S.addr_at(sf, i))
        S.require(And(sf[i].mMWeight == F.mw(1 - i), sf[i].mConstituents[1 - i].mMassFraction == 1, sf[i].mConstituents[i].mMassFraction == 0))
    S.use('PolyFluid::setTemperature', L.set_temperature)
    S.use('PolyFluid::setState', set_state2)

    def set_mole(K, this, n, x):
        c = this.mConstituents
        m = x[0] * F.mw(0) + x[1] * F.mw(1)
        K.assign(this, 'mMWeight', m)
        K.require('mole fractions are fractions', And(x[0] >= 0, x[1] >= 0, x[0] + x[1] == 1))
        for i in range(2):
            K.assign(c[i], 'mMoleFraction', x[i])
            K.assign(c[i], 'mMassFraction', x[i] * F.mw(i) / m)
    S.use('PolyFluid::setMoleAndMoleFractions', set_mole)
    contracts(S, False)
    up = If(Or(And(this.mFlux < 0, k.nm[1] != k.N), And(this.mFlux > 0, k.nm[0] == k.N)), 1, 0)
    so = lambda f: If(up == 1, f(o(k.n[1]).mOutflow), f(o(k.n[0]).mOutflow))
    o = S.snap()
    fx = abs_(this.mFlux)
    xs = [so(lambda f: o(f.mConstituents)[i].mMoleFraction) for i in (0, 1)]
    S.require(And(xs[0] >= 0, xs[1] >= 0, xs[0] + xs[1] == 1, so(lambda f: f.mMWeight) == xs[0] * F.mw(0) + xs[1] * F.mw(1)))
    S.require(And(*[so(lambda f: o(f.mConstituents)[i].mMassFraction) * so(lambda f: f.mMWeight) == xs[i] * F.mw(i) for i in (0, 1)]))
    # what computeFlows of this pass left
    S.require(And(this.mFlowRate == this.mFlux * so(lambda f: f.mMWeight), *[bt[i] == fr[i] * fx * xs[1 - i] for i in (0, 1)]))
    left = fx - bt[0] - bt[1]
    S.require(Or(fx <= D(EPS), left > D(EPS)))
    S.call('GunnsFluidMultiSeparator::transportFlows', this, dt)
    E = fx > D(EPS)
    b = o(be)
    m = [b[i] * F.mw(1 - i) for i in (0, 1)]
    S.ensure('each separated fluid enters the node at its port', And(*[into(o, k.n[3 - i]) == If(m[i] > D(EPS), m[i], 0) for i in (0, 1)]))
    S.ensure('as the pure substance', And(*[And(into(o, k.n[3 - i], 1 - i) == If(m[i] > D(EPS), m[i], 0), into(o, k.n[3 - i], i) == 0) for i in (0, 1)]))
    S.ensure('the flow leaves the upstream node', And(*[k.n[i].mOutfluxRate - o(k.n[i]).mOutfluxRate == If(And(E, up == i), abs_(o(this).mFlowRate), 0) for i in (0, 1)]))
    for j in (0, 1):
        S.ensure('constituent %d enters downstream less what was separated' % j, And(*[into(o, k.n[i], j) == If(And(E, up != i), fx * xs[j] * F.mw(j) - bt[1 - j] * F.mw(j), 0) for i in (0, 1)]))
    S.ensure('mass is conserved', And(*[k.n[i].mInfluxRate - o(k.n[i]).mInfluxRate == If(And(E, up != i), abs_(o(this).mFlowRate) - bt[0] * F.mw(1) - bt[1] * F.mw(0), 0) for i in (0, 1)]))


def set_state2(K, this, src):
    L.set_state(K, this, src)
    c, d = this.mConstituents, src.mConstituents
    for i in range(2):
        for x in ('mMassFraction', 'mMoleFraction'):
            K.assign(c[i], x, getattr(d[i], x))


def prop(S, F, *names):
    """correlations of a fluid (saturation pressure, heat of vaporization, ...) as arbitrary functions of one argument"""
    for nm in names:
        def f(K, this, x, nm=nm):
            return F._uf(K, nm, this, x, R(0))
        S.use('FluidProperties::get' + nm, f)
    return lambda nm, i, x: F.get(nm, i, x, R(0))


def upstream(k, f):
    return If(Or(And(f < 0, k.nm[1] != k.N), And(f > 0, k.nm[0] == k.N)), 1, 0)


def membrane(S, what, same=False):
    k = start(S, 'GunnsFluidSelectiveMembrane', 3)
    this, F = k.this, k.F
    S.set(this, 'mInternalType', 0)
    S.set(this, 'mExternalType', 0 if same else 1)
    I, X = 0, 0 if same else 1
    S.require(And(this.mMinLinearizationPotential >= 0, this.mAbsorptionCoeff >= 0, *[k.pv[i] >= 0 for i in range(3)]))
    for n in k.n:
        props(S, n.mContent)
        props(S, n.mOutflow)
    a = k.am
    n = k.n
    if what == 'step':
        if S.mode == 'con':
            raise Reject()
        P = prop(S, F, 'SaturationPressure', 'HeatOfVaporization')
        S.require(conj([a[1] == -a[0], a[3] == -a[0], a[4] == a[0]] + [a[i] == 0 for i in (2, 5, 6, 7, 8)]))
        o = S.snap()
        S.call('GunnsFluidSelectiveMembrane::step', this, S.real('dt', 0, 100))
        t = o(this)
        g = clamp(L.admittance(S, L.blocked(t, t.mMaxConductance), t.mMinLinearizationPotential, n[0].mContent, n[1].mContent), 0, D(L.COND))
        L.stamp(S, k, o, g, 3)
        up = upstream(k, t.mFlux)
        pick = lambda c, f: If(c == 1, f(n[1]), f(n[0]))
        x = [k.pv[i] * n[i].mContent.mConstituents[I].mMoleFraction for i in (0, 1)]
        px = k.pv[2] * n[2].mContent.mConstituents[X].mMoleFraction
        d = [x[i] - px for i in (0, 1)]
        du, dd = If(up == 1, d[1], d[0]), If(up == 1, d[0], d[1])
        avail = D(0.99) * abs_(t.mFlowRate) * pick(up, lambda m: m.mContent.mConstituents[I].mMassFraction)
        deg = If(t.mMalfMembraneDegradeFlag, 1 - clamp(t.mMalfMembraneDegradeValue, 0, 1), 1)
        w = If(dd * du < 0, 0, deg * If(du > 0, min_(du * t.mAbsorptionCoeff, avail), min_(dd * t.mAbsorptionCoeff, 0)))
        S.ensure('flow through the membrane by the partial pressures, no more than flows past, less degradation', this.mMembraneFlowRate == w)
        S.ensure('never more leaves the flow than it holds', this.mMembraneFlowRate <= avail)
        v = this.mMembraneFlowRate / F.mw(X)
        S.ensure('what crosses leaves one side and enters the other', And(k.sv[2] == v, k.sv[0] + k.sv[1] == -v))
        S.ensure('it leaves the upstream end, or enters the downstream end', And(*[k.sv[i] == If((up == i) == (v > 0), -v, 0) for i in (0, 1)]))
        sat = lambda f, T, p: p > P('SaturationPressure', f, T)
        xs = sat(X, n[2].mContent.mTemperature, px)
        is_ = If(du > 0, If(up == 1, sat(I, n[1].mContent.mTemperature, x[1]), sat(I, n[0].mContent.mTemperature, x[0])), If(up == 1, sat(I, n[0].mContent.mTemperature, x[0]), sat(I, n[1].mContent.mTemperature, x[1])))
        ch = And(dd * du >= 0, is_ != xs)
        S.ensure('a phase change where one side is saturated and the other not', this.mPhaseChange == ch)
        Lh = If(w < 0, P('HeatOfVaporization', I, n[2].mContent.mTemperature), If(up == 1, P('HeatOfVaporization', I, n[1].mContent.mTemperature), P('HeatOfVaporization', I, n[0].mContent.mTemperature)))
        S.ensure('the stream is saturated or not at the end that matters', Implies(dd * du >= 0, this.mInternalSaturated == is_))
        S.ensure('the vent is saturated or not', this.mExternalSaturated == xs)
        w, is_, xs, ch = this.mMembraneFlowRate, this.mInternalSaturated, this.mExternalSaturated, this.mPhaseChange
        Lh = If(w < 0, P('HeatOfVaporization', I, n[2].mContent.mTemperature), If(up == 1, P('HeatOfVaporization', I, n[1].mContent.mTemperature), P('HeatOfVaporization', I, n[0].mContent.mTemperature)))
        S.ensure('heat of vaporization of the mass that changes phase', abs_(this.mPhaseChangeHeat) == If(ch, abs_(Lh * w * 1000), 0))
        S.ensure('liquid that leaves the stream takes heat, vapor gives it', Implies(w >= 0, this.mPhaseChangeHeat == If(ch, If(is_, -1, 1) * Lh * w * 1000, 0)))
        S.ensure('liquid that enters the stream as vapor takes heat, vapor gives it', Implies(w < 0, this.mPhaseChangeHeat == If(ch, If(xs, -1, 1) * Lh * -w * 1000, 0)))
        return
    mf = this.mMembraneFlowRate
    if what == 'flows':
        o = S.snap()
        S.call('GunnsFluidSelectiveMembrane::computeFlows', this, S.real('dt', 0, 100))
        drop = k.pv[0] - k.pv[1]
        fx = If(abs_(drop) < max_(k.pv[0], k.pv[1]) * (100 * D(EPS)), 0, drop * k.am[0])
        S.ensure('flux by the conductance', And(this.mPotentialDrop == drop, this.mFlux == fx))
        up = upstream(k, fx)
        v = mf / F.mw(X)
        pure = lambda nd, c: nd.mContent.mConstituents[c].mMassFraction == 1
        pu = If(up == 1, pure(n[1], I), pure(n[0], I))
        E, M = abs_(fx) > D(EPS), D(LIM)
        S.ensure('direction of the vent follows the membrane flow', k.pd[2] == If(v > M, 2, If(v < -M, If(pure(n[2], X), 1, 2), 0)))
        S.ensure('upstream end is a source of flow, unless one constituent is taken out of its mixture', And(*[Implies(up == i, k.pd[i] == If(v > M, If(pu, 1, 2), If(E, 1, 0))) for i in (0, 1)]))
        S.ensure('downstream end is a sink of what flows or enters', And(*[Implies(up != i, k.pd[i] == If(Or(E, v < -M), 2, 0)) for i in (0, 1)]))
        sch = lambda i: n[i].mScheduledOutflux - o(n[i]).mScheduledOutflux
        S.ensure('outflows are scheduled at the node they leave', And(sch(2) == If(And(v < -M, pure(n[2], X)), -v, 0), *[sch(i) == If(up == i, If(E, abs_(fx), 0) + If(And(v > M, pu), v, 0), 0) for i in (0, 1)]))
        return
    if S.mode == 'con':
        raise Reject()
    S.bind(this, 'mInternalFluid', None)
    ix, ex = F.fluid('intMembrane'), F.fluid('extMembrane')
    S.bind(this, 'mInternalMembraneFluid', ix)
    S.bind(this, 'mExternalMembraneFluid', ex)
    for f, j in ((ix, I), (ex, X)):
        S.require(And(*[f.mConstituents[i].mMassFraction == (1 if i == j else 0) for i in (0, 1)]))
    S.use('PolyFluid::setTemperature', L.set_temperature)
    contracts(S, False)
    o = S.snap()
    S.call('GunnsFluidSelectiveMembrane::transportFlows', this, S.real('dt', 0, 100))
    t = o(this)
    up = upstream(k, t.mFlux)
    u = lambda f: If(up == 1, f(o(n[1]).mOutflow), f(o(n[0]).mOutflow))
    w = this.mFlowRate
    S.ensure('mass flow is the flux of the fluid that flows', w == t.mFlux * u(lambda f: f.mMWeight))
    M = D(LIM)
    q = If(abs_(mf) > M, mf, 0)
    thru = If(abs_(w) > M, w, 0)
    net = lambda nd: into(o, nd)
    S.ensure('what flows past leaves one end and enters the other, and what crosses goes out of or into the stream', And(net(n[0]) + net(n[1]) == -q, net(n[2]) == q))
    S.ensure('end by end', And(*[net(n[i]) == (thru if i else -thru) - If(If(q > 0, up == i, up != i), q, 0) for i in (0, 1)]))


def membrane_heat(S):
    """the heat of the phase change goes into one node"""
    k = start(S, 'GunnsFluidSelectiveMembrane', 3)
    this, F, n = k.this, k.F, k.n
    S.set(this, 'mInternalType', 0)
    S.set(this, 'mExternalType', 1)
    if S.mode == 'con':
        raise Reject()
    S.bind(this, 'mInternalFluid', None)
    ix, ex = F.fluid('intMembrane'), F.fluid('extMembrane')
    S.bind(this, 'mInternalMembraneFluid', ix)
    S.bind(this, 'mExternalMembraneFluid', ex)
    S.use('PolyFluid::setTemperature', lambda K, this, T: K.assign(this, 'mSpecificEnthalpy', 0))
    contracts(S, False)
    for x in n:
        S.require(x.mOutflow.mSpecificEnthalpy == 0)
    o = S.snap()
    S.call('GunnsFluidSelectiveMembrane::transportFlows', this, S.real('dt', 0, 100))
    d = lambda x: x.mInflowHeatFlux - o(x).mInflowHeatFlux
    t = o(this)
    S.ensure('heat of the phase change goes into the nodes once', d(n[0]) + d(n[1]) + d(n[2]) == If(t.mPhaseChange, t.mPhaseChangeHeat, 0))


def evaporation(S, what):
    k = start(S, 'GunnsFluidEvaporation', 2, own=False)
    this, F, n = k.this, k.F, k.n
    G = 1
    S.set(this, 'mGasType', G)
    acc = S.obj('GunnsFluidAccum', 'pool')
    S.dyn(acc, 'GunnsFluidAccum')
    S.bind(this, 'mLiquidPoolAccum', acc)
    afl = F.fluid('poolFluid')
    S.bind(acc, 'mInternalFluid', afl)
    S.require(And(acc.mLiquidVolume >= acc.mMinChamberVol, acc.mMinChamberVol > 0, afl.mMass >= 0, this.mEvaporationCoeff >= 0, this.mGasMWeight == F.mw(G)))
    for x in n:
        props(S, x.mOutflow)
        props(S, x.mContent)
    dt = S.real('dt', 0, 100)
    if what == 'step':
        if S.mode == 'con':
            raise Reject()
        P = prop(S, F, 'SaturationPressure', 'HeatOfVaporization')
        o = S.snap()
        S.call('GunnsFluidEvaporation::step', this, dt)
        t = o(this)
        g1, g0 = k.nm[1] != k.N, k.nm[0] != k.N
        gas = n[1].mContent
        dp = If(g1, P('SaturationPressure', G, gas.mTemperature) - k.pv[1] * gas.mConstituents[G].mMoleFraction, t.mPotentialDrop)
        S.ensure('driven by the saturation pressure over the vapor pressure in the gas', this.mPotentialDrop == dp)
        pool = afl.mMass * (1 - acc.mMinChamberVol / acc.mLiquidVolume)
        ml = n[0].mContent.mMWeight
        on = And(g0, ml > D(EPS), F.mw(G) > D(EPS), dt > D(EPS), pool > D(FEPS))
        w = this.mFlowRate
        blk = If(t.mMalfBlockageFlag, 1 - clamp(t.mMalfBlockageValue, 0, 1), 1)
        want = max_(dp, 0) * t.mEvaporationCoeff * S.pow(If(on, pool, 1), t.mPoolMassExponent) * blk
        S.ensure('evaporates by its coefficient and the pool, less blockage, and never more than the pool holds', Implies(And(on), w == min_(want, pool / If(on, dt, 1) * F.mw(G) / If(on, ml, 1))))
        S.ensure('nothing from a vapor that is saturated', Implies(And(on, dp <= 0), w == 0))
        S.ensure('nothing without a pool', Implies(And(g0, Not(on)), w == 0))
        S.ensure('a link without a pool keeps the rate it was given', Implies(Not(g0), w == t.mFlowRate))
        S.ensure('equal moles leave the liquid and enter the gas', And(this.mFlux * F.mw(G) == w, k.sv[0] == -this.mFlux, k.sv[1] == this.mFlux))
        S.ensure('takes the heat of vaporization', Implies(g1, this.mPower == P('HeatOfVaporization', G, gas.mTemperature) * 1000 * w))
        S.ensure('the pool is pressed by the gas', Implies(g0, And(acc.mSpringCoeff0 == t.mGasTotalPressure, acc.mSpringCoeff1 == D(1e-6), acc.mSpringCoeff2 == 0)))
        return
    if what == 'flows':
        o = S.snap()
        S.call('GunnsFluidEvaporation::computeFlows', this, dt)
        f = this.mFlux
        sch = lambda i: n[i].mScheduledOutflux - o(n[i]).mScheduledOutflux
        S.ensure('port directions follow the flux', And(k.pd[0] == If(f > D(EPS), 1, If(f < -D(EPS), 2, 0)), k.pd[1] == If(f > D(EPS), 2, If(f < -D(EPS), 1, 0))))
        S.ensure('the outflow is scheduled at the node it leaves', And(sch(0) == If(f > D(EPS), f, 0), sch(1) == If(f < -D(EPS), -f, 0)))
        return
    if S.mode == 'con':
        raise Reject()
    ef = F.fluid('vapor')
    S.bind(this, 'mEvaporationFluid', ef)
    S.require(And(ef.mConstituents[G].mMassFraction == 1, ef.mConstituents[0].mMassFraction == 0, this.mFlux * F.mw(G) == this.mFlowRate, n[0].mOutflow.mMWeight > 0))
    S.use('PolyFluid::setTemperature', L.set_temperature)
    contracts(S, False)
    o = S.snap()
    S.call('GunnsFluidEvaporation::transportFlows', this, dt)
    t = o(this)
    g = If(t.mFlowRate > D(LIM), t.mFlowRate, 0)
    g1, g0 = k.nm[1] != k.N, k.nm[0] != k.N
    S.ensure('vapor enters the gas node', And(into(o, n[1]) == If(g1, g, 0), into(o, n[1], G) == If(g1, g, 0), into(o, n[1], 0) == 0))
    S.ensure('with the heat of the gas temperature', n[1].mInflowHeatFlux - o(n[1]).mInflowHeatFlux == If(And(g1, g > 0), g * ef.mSpecificHeat * o(n[1]).mOutflow.mTemperature, 0))
    S.ensure('the same moles of liquid leave the pool', into(o, n[0]) * F.mw(G) == If(g0, -g * n[0].mOutflow.mMWeight, 0))


def phase_change(S, what):
    """boiler or condenser driven by power"""
    k = start(S, 'GunnsFluidPhaseChangeSource', 2, own=False)
    this, F, n = k.this, k.F, k.n
    S.set(this, 'mLiquidType', 0)
    S.set(this, 'mGasType', 1)
    for x in n:
        props(S, x.mContent)
        props(S, x.mOutflow)
    dt = S.real('dt', 0, 100)
    if what == 'flows':
        o = S.snap()
        S.call('GunnsFluidPhaseChangeSource::computeFlows', this, dt)
        f = this.mFlux
        pure = n[1].mContent.mConstituents[1].mMassFraction == 1
        back = And(f < -D(EPS), pure)
        sch = lambda i: n[i].mScheduledOutflux - o(n[i]).mScheduledOutflux
        S.ensure('port directions follow the flux; a constituent condensed out of a mixture is no outflow', And(k.pd[0] == If(f > D(EPS), 1, If(f < -D(EPS), 2, 0)), k.pd[1] == If(f > D(EPS), 2, If(back, 1, 0))))
        S.ensure('the outflow is scheduled at the node it leaves', And(sch(0) == If(f > D(EPS), f, 0), sch(1) == If(back, -f, 0)))
        return
    if S.mode == 'con':
        raise Reject()
    P = prop(S, F, 'SaturationTemperature', 'HeatOfVaporization')
    if what == 'step':
        S.use('FluidProperties::getSpecificEnthalpy', lambda K, this, t, p: F._uf(K, 'enthalpy', this, t, R(0)))
        from gcv.exec import uf, RS
        hm = uf('mixtureEnthalpy', RS, RS)
        S.use('PolyFluid::computeSpecificEnthalpy', lambda K, this, t, p: hm(R(t)))
        o = S.snap()
        S.call('GunnsFluidPhaseChangeSource::step', this, dt)
        t = o(this)
        p = t.mPowerInput * t.mEfficiency * If(t.mMalfBlockageFlag, 1 - t.mMalfBlockageValue, 1)
        S.ensure('power in is the input times efficiency, less blockage', this.mPower == p)
        ts = If(p > 0, P('SaturationTemperature', 1, k.pv[1]), P('SaturationTemperature', 0, k.pv[0]))
        lat = 1000 * If(p > 0, P('HeatOfVaporization', 0, ts), P('HeatOfVaporization', 1, ts))
        h = lambda i, T: F.get('enthalpy', i, T, R(0))
        dh = If(p > 0, h(0, ts) - h(0, n[0].mContent.mTemperature), hm(R(n[1].mContent.mTemperature)) - hm(R(ts)))
        w = this.mFlowRate
        S.ensure('the power heats to saturation and changes the phase of what flows', w * max_(dh + lat, D(FEPS)) == p)
        S.ensure('power in boils, power out condenses', And(Implies(p > 0, w > 0), Implies(p < 0, w < 0), Implies(p == 0, w == 0)))
        v = If(abs_(w) > D(LIM), this.mFlux, 0)
        S.ensure('what leaves one side enters the other', And(this.mFlux * F.mw(1) == w, k.sv[0] == -v, k.sv[1] == v))
        return
    lf, gf = F.fluid('liquid'), F.fluid('gas')
    S.bind(this, 'mLiquidFluid', lf)
    S.bind(this, 'mGasFluid', gf)
    for f, j in ((lf, 0), (gf, 1)):
        S.require(And(*[f.mConstituents[i].mMassFraction == (1 if i == j else 0) for i in (0, 1)]))
    S.use('PolyFluid::setTemperature', L.set_temperature)
    contracts(S, False)
    o = S.snap()
    S.call('GunnsFluidPhaseChangeSource::transportFlows', this, dt)
    w = If(abs_(this.mFlowRate) > D(LIM), this.mFlowRate, 0)
    S.ensure('mass leaves one node and enters the other', And(into(o, n[0]) == -w, into(o, n[1]) == w))
    S.ensure('liquid on one side, gas on the other', And(into(o, n[0], 0) == If(w < 0, -w, 0), into(o, n[0], 1) == 0, into(o, n[1], 0) == 0, into(o, n[1], 1) == If(Or(w > 0, n[1].mContent.mConstituents[1].mMassFraction < 1), w, 0)))
    d = lambda x: x.mInflowHeatFlux - o(x).mInflowHeatFlux
    S.ensure('it arrives saturated', And(Implies(w > 0, d(n[1]) == w * gf.mSpecificHeat * P('SaturationTemperature', 1, k.pv[1])), Implies(w < 0, d(n[0]) == -w * lf.mSpecificHeat * P('SaturationTemperature', 0, k.pv[0]))))


def boundary(S, override):
    """flow source between the node and the outside"""
    k = start(S, 'GunnsFluidSourceBoundary', 1)
    this, F, n, fl = k.this, k.F, k.n[0], k.fl
    S.set(this, 'mOverrideMode', override)
    cfg = S.obj('PolyFluidConfigData', 'fluidConfig')
    S.bind(n, 'mFluidConfig', cfg)
    S.set(cfg, 'mNTypes', 2)
    r = S.arr('double', 2, 'rates')
    S.bind(this, 'mOverrideFlowRates', r)
    S.require(fl.mMWeight >= 0)
    if override:
        S.require(Or(r[0] + r[1] == 0, And(abs_(r[0] + r[1]) >= D(1000 * EPS), abs_(r[0] / F.mw(0) + r[1] / F.mw(1)) >= D(EPS), (r[0] + r[1]) * (r[0] / F.mw(0) + r[1] / F.mw(1)) > 0)))
    dt = S.real('dt', 0, 100)
    o = S.snap()
    S.call('GunnsFluidSourceBoundary::step', this, dt)
    t = o(this)
    dem = r[0] + r[1] if override else t.mFlowDemand
    w = dem * If(t.mFlipFlowSign, -1, 1) * If(t.mMalfBlockageFlag, 1 - t.mMalfBlockageValue, 1)
    S.ensure('flow is the demand, in its direction and less blockage', this.mFlowRate == w)
    mw = fl.mMWeight
    S.ensure('the solver is told of its moles, none for trace compounds only', And(k.sv[0] == this.mFlux, If(Or(t.mTraceCompoundsOnly, mw < D(EPS)), this.mFlux == 0, this.mFlux * mw == w)))
    if override:
        S.ensure('the mixture is that of the given rates', Implies(r[0] + r[1] != 0, And(*[fl.mConstituents[i].mMassFraction * (r[0] + r[1]) == r[i] for i in (0, 1)])))
    S.call('GunnsFluidSourceBoundary::computeFlows', this, dt)
    S.ensure('the node is where the fluid enters', k.pd[0] == If(abs_(this.mFlux) > D(EPS), 2, 0))
    if S.mode == 'sym':
        S.use('PolyFluid::setTemperature', L.set_temperature)
        S.use('PolyFluid::setPressure', lambda K, this, p: K.assign(this, 'mPressure', p))
    contracts(S, False)
    o2 = S.snap()
    S.call('GunnsFluidSourceBoundary::transportFlows', this, dt)
    g = If(And(abs_(w) > D(LIM), Not(t.mTraceCompoundsOnly)), w, 0)
    S.ensure('the node gets what the solver was told', And(into(o2, n) == g, Implies(mw >= D(EPS), Or(into(o2, n) == this.mFlux * mw, abs_(w) <= D(LIM)))))
    if S.mode == 'sym':
        if override:
            sg = If(t.mFlipFlowSign, -1, 1)
            blk = If(t.mMalfBlockageFlag, 1 - t.mMalfBlockageValue, 1)
            S.ensure('constituent by constituent', Implies(g != 0, And(*[into(o2, n, i) == sg * blk * r[i] for i in (0, 1)])))
            T = If(t.mOverrideTemperature > D(EPS), t.mOverrideTemperature, n.mContent.mTemperature)
            S.ensure('at the temperature given, with the heat given', n.mInflowHeatFlux - o2(n).mInflowHeatFlux == sg * t.mOverrideHeat + If(g != 0, g * fl.mSpecificHeat * T, 0))
        else:
            S.ensure('with the heat of its fluid', n.mInflowHeatFlux - o2(n).mInflowHeatFlux == g * fl.mSpecificEnthalpy)


def fire(S, what):
    """O2 is burnt to CO2 and water vapor; node constituents are in this order"""
    k = start(S, 'GunnsFluidFireSource', 1, n=3)
    this, F, n, fl = k.this, k.F, k.n[0], k.fl
    t3 = [S.enum('FluidType')[x] for x in ('GUNNS_O2', 'GUNNS_CO2', 'GUNNS_H2O')]
    for f in (n.mContent, n.mOutflow, n.mInflow, fl):
        for i in range(3):
            S.set(f.mConstituents[i], 'mType', t3[i])
    for i, x in enumerate(('miO2', 'miCO2', 'miH2O')):
        S.set(this, x, i)
    S.bounded('3 fluid constituents')
    S.require(And(this.mFireO2ConsumpRate >= 0, this.mFireCO2ProductRate >= 0, this.mFireH2OProductRate >= 0, this.mMalfFireHeat >= 0, n.mContent.mTemperature >= 0))
    dt = S.real('dt', 0, 100)
    o = S.snap()
    p = n.mContent.mConstituents[0].mFluid.mPressure
    if what == 'step':
        S.call('GunnsFluidFireSource::step', this, dt)
        t = o(this)
        on = And(t.mMalfFireFlag, p >= t.mFireMinReqO2)
        open_ = If(t.mMalfBlockageFlag, 1 - t.mMalfBlockageValue, 1)
        q = [If(on, r * t.mMalfFireHeat, f) * open_ for r, f in ((-t.mFireO2ConsumpRate, t.mFlowO2), (t.mFireCO2ProductRate, t.mFlowCO2), (t.mFireH2OProductRate, t.mFlowH2O))]
        S.ensure('burns while it is lit and there is the oxygen it needs', this.mMalfFireFlag == on)
        S.ensure('oxygen is used and carbon dioxide and water are made in proportion to the heat, less blockage', And(this.mFlowO2 == q[0], this.mFlowCO2 == q[1], this.mFlowH2O == q[2]))
        S.ensure('flow is all of it', Implies(on, this.mFlowRate == q[0] + q[1] + q[2]))
        mw = fl.mMWeight
        S.ensure('the solver is told of its moles', And(k.sv[0] == this.mFlux, If(mw > D(EPS), this.mFlux * mw == this.mFlowRate, this.mFlux == 0)))
        S.ensure('no fire, no flow', Implies(And(Not(on), t.mFlowRate == 0), k.sv[0] == 0))
        S.ensure('no source from the pass the fire goes out in', Implies(Not(on), k.sv[0] == 0))
        S.call('GunnsFluidFireSource::computeFlows', this, dt)
        S.ensure('the node is where the fluid enters', k.pd[0] == If(this.mFlux > D(EPS), 2, 0))
        return
    m = [this.mFlowO2, this.mFlowCO2, this.mFlowH2O]
    w = this.mFlowRate
    big = D(1000 * EPS)
    S.require(And(w == m[0] + m[1] + m[2], Or(w >= big, -w >= big, And(*[x == 0 for x in m])), m[1] >= 0, m[2] >= 0, Implies(w != 0, abs_(sum(x / F.mw(i) for i, x in enumerate(m))) >= big)))
    if S.mode == 'sym':
        S.use('PolyFluid::setTemperature', L.set_temperature)
    contracts(S, False, 3)
    S.call('GunnsFluidFireSource::transportFlows', this, dt)
    t = o(this)
    on = And(t.mMalfFireFlag, p > t.mFireMinReqO2)
    S.ensure('a fire without oxygen goes out', this.mMalfFireFlag == on)
    S.ensure('the node gets what is made less what is used', into(o, n) == If(on, m[0] + m[1] + m[2], 0))
    if S.mode == 'sym':
        S.ensure('constituent by constituent', And(*[into(o, n, i) == If(on, m[i], 0) for i in range(3)]))
        S.ensure('and the heat of the fire', n.mInflowHeatFlux - o(n).mInflowHeatFlux == If(on, t.mMalfFireHeat + w * fl.mSpecificEnthalpy, 0))
    S.ensure('a fire that is out moves nothing', Implies(Not(on), And(this.mFlowRate == 0, this.mPower == 0)))


def reaction(S, cls, nr, p2):
    """reactions of one sorbent with what is around it"""
    S.bounded('%d reactions among 4 compounds' % nr)
    this = S.obj(cls, 'this')
    S.dyn(this, cls)
    rs, cs = S.arr('ReactionState', nr, 'reactions'), S.arr('CompoundState', 4, 'compounds')
    S.bind(this, 'mReactions', rs)
    S.bind(this, 'mCompounds', cs)
    S.set(this, 'mNReactions', nr)
    S.set(this, 'mNCompounds', 4)
    cc = []
    for i in range(4):
        c = S.obj('ChemicalCompound', 'compound%d' % i)
        S.dyn(c, 'ChemicalCompound')
        S.require(c.mMWeight > 0)
        S.bind(S.addr_at(cs, i), 'mCompound', c)
        S.require(And(cs[i].mTotalMass >= 0))
        cc.append(c)
    rr, idx = [], [(0, 1, 2, 3 if p2 else -1), (2, 1, 3, -1)]
    for i in range(nr):
        r = S.obj('ChemicalReaction', 'reaction%d' % i)
        S.dyn(r, 'ChemicalReaction')
        a = S.addr_at(rs, i)
        S.bind(a, 'mReaction', r)
        for f, x in zip(('mReactantIndex', 'mReagentIndex', 'mProduct1Index', 'mProduct2Index'), idx[i]):
            S.set(a, f, x)
        S.require(And(r.mReactantMoleRatio > 0, r.mReagentMoleRatio > 0, r.mProduct1MoleRatio > 0, r.mProduct2MoleRatio > 0, r.mReactantEfficiency >= 0))
        rr.append(r)
    o = S.snap()
    S.call('GunnsFluidReactor::react', this, S.real('dt', 0, 100))
    t = o(this)
    d = [cs[i].mMass - o(cs)[i].mMass for i in range(4)]
    m0 = [o(cs)[i].mTotalMass for i in range(4)]
    mw = [c.mMWeight for c in cc]
    S.ensure('never uses up more than there is', conj([cs[i].mTotalMass >= 0 for i in range(4)]))
    S.ensure('what has reacted is what the masses changed by, down to rounding', conj([abs_(cs[i].mTotalMass - m0[i] - d[i]) <= D(EPS) * nr for i in range(4)]))
    bal = [r.mReactantMoleRatio * mw[a] + r.mReagentMoleRatio * mw[b] == r.mProduct1MoleRatio * mw[c] + (r.mProduct2MoleRatio * mw[e] if e >= 0 else 0) for r, (a, b, c, e) in zip(rr, idx)]
    S.ensure('a balanced reaction keeps the mass', Implies(And(*bal), d[0] + d[1] + d[2] + d[3] == 0))
    if nr > 1:
        return
    r, st = rr[0], o(rs)[0]
    x = d[2] / (r.mProduct1MoleRatio * mw[2])
    e = clamp(t.mEfficiencyBias + t.mEfficiencyScaleFactor * t.mFluidTemperature, 0, 1) if cls == 'GunnsFluidHotReactor' else If(st.mReactantEfficiency > D(EPS), st.mReactantEfficiency, r.mReactantEfficiency)
    e = If(st.mReagentEfficiency > D(EPS), e * (st.mReagentEfficiency * m0[1]), e)
    S.ensure('in the proportion of the reaction', And(d[0] == -x * (r.mReactantMoleRatio * mw[0]), d[1] == -x * (r.mReagentMoleRatio * mw[1]), d[3] == (x * (r.mProduct2MoleRatio * mw[3]) if p2 else 0)))
    S.ensure('to the extent of its efficiency and of the reagent left', -d[0] == min_(m0[1] * D(0.9999) / (r.mReagentMoleRatio * mw[1]) * (r.mReactantMoleRatio * mw[0]), m0[0] * min_(e, D(0.9999))))
    S.ensure('heat of the moles produced', this.mProducedHeat * r.mProduct1MoleRatio * mw[2] == r.mReactionHeat * 1000000 * d[2])


def reactor(S):
    """fluid through the reactor"""
    k = start(S, 'GunnsFluidReactor')
    this, F, fl = k.this, k.F, k.fl
    if S.mode == 'con':
        raise Reject()
    pf, rf = F.fluid('products'), F.fluid('reactants')
    S.bind(this, 'mProductsFluid', pf)
    S.bind(this, 'mReactantsFluid', rf)
    cs = S.arr('CompoundState', 3, 'compounds')
    S.bind(this, 'mCompounds', cs)
    S.set(this, 'mNCompounds', 3)
    S.bounded('2 compounds of the fluid, 1 in the reactor')
    for i, x in enumerate((1, 0, -1)):
        S.set(S.addr_at(cs, i), 'mIndex', x)
    props(S, fl)
    dt = S.real('dt', 0, 100)
    m = [S.real('made%d' % i) for i in range(3)]
    q = S.real('heat')
    seen = []

    def react(K, this, dt):
        z = K.snap()(cs)
        seen.append(([z[i].mTotalMass for i in range(3)], [z[i].mMass for i in range(3)]))
        for i in range(3):
            K.assign(cs[i], 'mMass', m[i])
        K.assign(this, 'mProducedHeat', q)
    S.use('GunnsFluidReactor::react', react)
    S.use('PolyFluid::setTemperature', L.set_temperature)
    temp = []
    S.use('PolyFluid::computeTemperature', lambda K, this, h: (temp.append(h), T_(K))[-1])
    contracts(S)
    big = D(1000 * EPS)
    S.require(And(*[Or(x == 0, abs_(x) >= big) for x in m]))
    o = S.snap()
    S.call('GunnsFluidReactor::updateFluid', this, dt, S.real('flow'))
    t = o(this)
    w = t.mFlowRate
    on = And(abs_(w) > D(FEPS), dt > D(EPS))
    (tot, mass), = seen
    S.ensure('reacts what flows past and what is in the reactor', Implies(on, And(tot[0] == o(fl.mConstituents)[1].mMassFraction * abs_(w) * dt, tot[1] == o(fl.mConstituents)[0].mMassFraction * abs_(w) * dt, tot[2] == o(cs)[2].mTotalMass, mass[0] == 0, mass[1] == 0, mass[2] == 0)))
    pos = lambda x: If(x > 0, x, 0)
    S.ensure('what is made goes out, what is used comes in', Implies(on, And(this.mProductsFlowRate * dt == pos(m[0]) + pos(m[1]), this.mReactantsFlowRate * dt == -pos(-m[0]) - pos(-m[1]))))
    S.ensure('nothing reacts without flow', Implies(Not(on), And(this.mProductsFlowRate == 0, this.mReactantsFlowRate == 0, this.mProducedHeat == 0)))
    S.ensure('heat of the reaction goes into the fluid', Implies(on, temp[0] * abs_(w) * dt == abs_(w) * dt * o(fl).mSpecificEnthalpy + q))
    pr, re = this.mProductsFlowRate, this.mReactantsFlowRate
    S.ensure('constituent by constituent', Implies(on, And(*[And(pf.mConstituents[i].mMassFraction * pr * dt == pos(m[1 - i]), rf.mConstituents[i].mMassFraction * re * dt == -pos(-m[1 - i])) for i in (0, 1)])))


def reactor_transport(S):
    k = start(S, 'GunnsFluidReactor')
    this, F, fl = k.this, k.F, k.fl
    pf, rf = F.fluid('products'), F.fluid('reactants')
    S.bind(this, 'mProductsFluid', pf)
    S.bind(this, 'mReactantsFluid', rf)
    S.require(And(pf.mMWeight > 0, rf.mMWeight > 0, this.mProductsFlowRate >= 0, this.mReactantsFlowRate <= 0))
    contracts(S)
    o = S.snap()
    S.call('GunnsFluidReactor::transportFluid', this, False, 0, 1)
    t = o(this)
    w = t.mFlowRate
    lim = D(LIM)
    on, fwd = abs_(w) > lim, w > 0
    p, r = If(t.mProductsFlowRate > lim, t.mProductsFlowRate, 0), If(t.mReactantsFlowRate < -lim, t.mReactantsFlowRate, 0)
    ex = lambda i, x: If(And(on, fwd if i == 1 else Not(fwd)), x, 0)
    S.ensure('what flows leaves one end, and enters the other less what is used and with what is made', And(*[into(o, k.n[i]) == ex(i, abs_(w) + p + r) - ex(1 - i, abs_(w)) for i in (0, 1)]))
    S.ensure('the solver is told of the moles made and used at that end', And(*[k.sv[i] == ex(i, p / pf.mMWeight + r / rf.mMWeight) for i in (0, 1)]))
    if S.mode == 'sym':
        c = lambda f, i: f.mConstituents[i].mMassFraction
        S.ensure('constituent by constituent', And(*[into(o, k.n[i], x) == ex(i, abs_(w) * c(fl, x) + p * c(pf, x) + r * c(rf, x)) for i in (0, 1) for x in (0, 1)]))


def heater(S):
    k = start(S, 'GunnsFluidHeater', 2, own=False)
    this, n = k.this, k.n
    dt = S.real('dt', 0, 100)
    o = S.snap()
    S.call('GunnsFluidHeater::step', this, dt)
    t = o(this)
    S.ensure('heat is the power times efficiency, less blockage', this.mHeatFlux == t.mHeaterPower * t.mHeaterEfficiency * If(t.mMalfBlockageFlag, 1 - t.mMalfBlockageValue, 1))
    S.ensure('no flow', conj([k.am[i] == 0 for i in range(4)] + [k.sv[0] == 0, k.sv[1] == 0]))
    S.call('GunnsFluidHeater::computeFlows', this, dt)
    S.ensure('no direction', And(k.pd[0] == 0, k.pd[1] == 0))
    S.call('GunnsFluidHeater::transportFlows', this, dt)
    d = lambda x, f: getattr(x, f) - getattr(o(x), f)
    S.ensure('heat is given to one node and taken from the other, and nothing else', And(d(n[1], 'mInflowHeatFlux') == this.mHeatFlux, d(n[0], 'mInflowHeatFlux') == -this.mHeatFlux, *[And(d(x, 'mInfluxRate') == 0, d(x, 'mOutfluxRate') == 0) for x in n]))


def redox(S, what):
    """fuel cell or electrolyzer: hydrogen and water at port 0, oxygen at port 1"""
    k = start(S, 'GunnsFluidSimpleH2Redox', 2, n=3, own=False)
    this, F, n = k.this, k.F, k.n
    H, OX, W = range(3)
    def typed(f):
        for i, ty in enumerate((6, 4, 2)):
            S.set(S.addr_at(f.mConstituents, i), 'mType', ty)
    for nd in n:
        typed(nd.mContent)
    fl = {}
    for f, i in (('mH2Fluid', H), ('mO2Fluid', OX), ('mH2OFluid', W)):
        x = fl[i] = F.fluid(f)
        S.bind(this, f, x)
        for j in range(3):
            S.set(S.addr_at(x.mConstituents, j), 'mMassFraction', D(1 if i == j else 0))
        S.require(x.mMWeight == F.mw(i))
    dt = S.real('dt', 0, 100)
    mole = (this.mH2MoleRate, this.mO2MoleRate, this.mH2OMoleRate)
    mass = (this.mH2MassRate, this.mO2MassRate, this.mH2OMassRate)
    if what == 'step':
        S.require(And(this.mNumCells >= 1, this.mNumCells <= 10000, this.mMaxEfficiency > D(EPS), this.mMaxEfficiency <= 1, this.mCellH2ReactRate > D(EPS), this.mMalfBlockageValue <= 1, this.mMalfBlockageValue >= 0))
        o = S.snap()
        S.call('GunnsFluidSimpleH2Redox::step', this, dt)
        t = o(this)
        mole = (this.mH2MoleRate, this.mO2MoleRate, this.mH2OMoleRate)
        mass = (this.mH2MassRate, this.mO2MassRate, this.mH2OMassRate)
        pp = lambda i, c: n[i].mContent.mConstituents[c].mMoleFraction * k.pv[i]
        fuel = t.mCurrent > 0
        lack = If(fuel, Or(pp(0, H) < D(0.001), pp(1, OX) < D(0.001)), pp(0, W) < D(0.001))
        S.ensure('trips when what it consumes runs out, and stays tripped', this.mTrippedOff == Or(t.mTrippedOff, lack))
        off = this.mTrippedOff
        e = clamp(t.mMaxEfficiency * If(t.mMalfBlockageFlag, 1 - t.mMalfBlockageValue, 1), D(EPS), 1)
        S.ensure('efficiency, less blockage', this.mEfficiency == e)
        r = -t.mCurrent * t.mCellH2ReactRate * R(t.mNumCells)
        e = this.mEfficiency
        r = If(fuel, r / e, r * e)
        on = And(Not(off), abs_(r) >= D(LIM))
        S.ensure('hydrogen by the current, consumed as a fuel cell and made as an electrolyzer', mass[0] == If(on, r, 0))
        S.ensure('the moles of the reaction', And(mole[2] == -mole[0], 2 * mole[1] == mole[0]))
        S.ensure('masses are those of the moles', And(*[mass[i] == mole[i] * F.mw(i) for i in range(3)]))
        S.ensure('no voltage when tripped', this.mOutputStackVoltage == If(off, 0, t.mCellVoltageLoaded * R(t.mNumCells)))
        S.ensure('heat of the hydrogen consumed', this.mOutputHeat == -mole[0] * D(4.86e7))
        S.ensure('the solver is told of the moles at each port', And(k.sv[0] == mole[0] + mole[2], k.sv[1] == mole[1]))
        return
    if what == 'flows':
        S.call('GunnsFluidSimpleH2Redox::computeFlows', this, dt)
        S.ensure('ports that receive are sinks', And(*[k.pd[i] == If(k.sv[i] > D(LIM), 2, 0) for i in (0, 1)]))
        return
    if S.mode == 'con':
        raise Reject()
    S.use('PolyFluid::setTemperature', lambda K, this, T: K.assign(this, 'mTemperature', T))
    S.use('PolyFluid::setPressure', lambda K, this, T: K.assign(this, 'mPressure', T))
    contracts(S, False, 3)
    o = S.snap()
    S.call('GunnsFluidSimpleH2Redox::transportFlows', this, dt)
    on = abs_(mass[0]) >= D(LIM)
    for i, (nd, c) in {H: (0, H), W: (0, W), OX: (1, OX)}.items():
        S.ensure('each substance appears at its own port at its rate', And(into(o, n[nd], c) == If(on, mass[c], 0), into(o, n[1 - nd], c) == 0))
        S.ensure('at pressure and temperature of that port', And(fl[c].mPressure == k.pv[nd], fl[c].mTemperature == o(n[nd]).mOutflow.mTemperature))


def sublimator(S, what):
    k = start(S, 'GunnsFluidSublimator', 2, own=False)
    this, F, n = k.this, k.F, k.n
    vf = F.fluid('vent')
    S.bind(this, 'mVentFluid', vf)
    S.require(vf.mMWeight > 0)
    dt = S.real('dt', 0, 100)
    if what == 'step':
        if S.mode == 'con':
            raise Reject()
        for nd in n:
            S.set(S.addr_at(nd.mContent.mConstituents, 1), 'mType', 2)
        P = prop(S, F, 'SaturationPressure')
        rh = S.real('humidity')
        S.use('GunnsFluidUtils::computeRelativeHumidityH2O', lambda K, f: If(S.same(f, n[1].mContent), rh, K.fresh_real('rh')))
        S.require(And(this.mHeatOfVaporization > this.mHeatOfFusion, this.mHeatOfFusion > 0, this.mHeatOfSublimation == this.mHeatOfVaporization + this.mHeatOfFusion, this.mMaxIceMass > 0, this.mIceCoverageFraction > 0, this.mIceCoverageFraction <= 1,
                      this.mPlateConductivity > 0, this.mMaxThermalConductivity > 0, this.mThermalConductivityGain >= 0, this.mThermalConductivityGain <= 1, this.mIceMass >= 0, this.mMalfBlockageValue >= 0, this.mMalfBlockageValue <= 1, k.pv[0] >= 0, k.pv[1] >= 0, n[0].mContent.mMWeight > 0, this.mThermalConductivity >= 0))
        o = S.snap()
        S.call('GunnsFluidSublimator::step', this, dt)
        t = o(this)
        w = clamp(rh, 0, 1)
        S.ensure('humidity of the vent between none and all', this.mVentRelativeHumidity == w)
        dry = w < 1
        cold = max_(0, -t.mHeatBalance / t.mHeatOfSublimation * D(0.001))
        sub = If(And(dry, t.mIceMass > 0), cold, 0)
        S.ensure('vents the ice that its heat sublimates, none without ice or into a saturated vent', k.sv[1] * vf.mMWeight == sub)
        melt = max_(0, -t.mHeatBalance / t.mHeatOfFusion * D(0.001))
        dp = k.pv[0] - k.pv[1]
        feed = dp > D(0.1)
        blk = If(t.mMalfBlockageFlag, 1 - t.mMalfBlockageValue, 1)
        cap = t.mMaxIceMass * blk
        bias = If(And(feed, t.mMalfFeedRateBiasFlag), max_(t.mMalfFeedRateBiasValue, -sub), 0)
        mw = n[0].mContent.mMWeight
        bare = And(feed, t.mIceMass < cap * t.mIceCoverageFraction)
        cover = cap * t.mIceCoverageFraction
        plate = t.mPlateConductivity * (1 - t.mIceMass / If(bare, cover, 1)) * blk * S.sqrt(1000 * n[0].mContent.mDensity / If(feed, dp, 1)) / mw
        makeup = (sub + bias) / If(feed, k.pv[0], 1) / mw
        g = this.mSystemConductance
        S.ensure('feeds through the bare part of the plate and makes up what sublimates, nothing unless the feed pressure is above the vent', And(
            Implies(bare, g == D(1e-12) + plate + makeup),
            Implies(And(feed, Not(bare), dry), g == D(1e-12) + makeup),
            Implies(Or(Not(feed), And(Not(bare), Not(dry))), g == D(1e-12))))
        freeze = And(bare, dry, P('SaturationPressure', 1, t.mStructureTemperature) > n[1].mPotential)
        S.ensure('liquid breaks through a bare plate that does not freeze it', this.mLiquidBreakthrough == If(And(bare, Not(freeze)), 1, 0) if not z3.is_bool(this.mLiquidBreakthrough) else this.mLiquidBreakthrough == And(bare, Not(freeze)))
        ratio = t.mHeatOfVaporization / t.mHeatOfFusion
        rate = If(bare, If(freeze, (sub + g * dp * mw * (1 - w)) * ratio, -melt), If(And(feed, dry), sub * ratio, If(dry, -sub, -melt)))
        S.ensure('ice stays between none and all the plate can hold', And(this.mIceMass >= 0, this.mIceMass <= cap))
        S.ensure('ice grows by what freezes and shrinks by what sublimates or melts', this.mIceMass == clamp(t.mIceMass + rate * dt, 0, cap))
        kk = t.mMaxThermalConductivity * (1 - w) * this.mIceMass / t.mMaxIceMass
        f = (1 - t.mThermalConductivityGain) * t.mThermalConductivity + t.mThermalConductivityGain * kk
        S.ensure('thermal conductivity follows the ice and the dryness of the vent', this.mThermalConductivity == If(f < D(EPS), 0, f))
        S.ensure('the feed flows by its conductance from the pressure difference, and takes no pressure from the vent', And(k.am[0] == g, k.sv[0] == k.pv[1] * g))
        S.ensure('new conductance is announced', Implies(k.am[0] != o(k.am)[0], And(this.mAdmittanceUpdate, k.am[1] == 0, k.am[2] == 0, k.am[3] == 0)))
        S.cover('freezes', freeze)
        return
    vent = k.sv[1] * vf.mMWeight
    if what == 'flows':
        S.require(k.am[0] >= 0)
        o = S.snap()
        S.call('GunnsFluidSublimator::computeFlows', this, dt)
        S.ensure('feed flux by the conductance', this.mFlux == k.pv[0] * k.am[0] - k.sv[0])
        S.ensure('the feed leaves its node, the vapor enters the vent', And(k.pd[0] == If(this.mFlux > D(LIM), 1, 0), k.pd[1] == If(vent > D(LIM), 2, 0)))
        S.ensure('the outflow is scheduled at the feed', And(n[0].mScheduledOutflux == o(n[0]).mScheduledOutflux + If(this.mFlux > D(LIM), this.mFlux, 0), n[1].mScheduledOutflux == o(n[1]).mScheduledOutflux))
        return
    contracts(S, False)
    o = S.snap()
    S.call('GunnsFluidSublimator::transportFlows', this, dt)
    t = o(this)
    w = t.mFlux * n[0].mOutflow.mMWeight
    d = n[0].mOutflow.mDensity
    S.ensure('mass and volume flow of the flux', And(this.mFlowRate == w, this.mVolFlowRate == If(d > D(EPS), w / If(d > D(EPS), d, 1), 0)))
    S.ensure('takes the flow out of the feed', into(o, n[0]) == -If(w > D(LIM), w, 0))
    S.ensure('puts the vapor into the vent', into(o, n[1]) == If(vent > D(LIM), vent, 0))


def sorbate(S, x, nm, offgas=0):
    """properties of a sorbate, arbitrary"""
    p = S.obj('SorbateProperties', nm + '.properties')
    c = S.obj('ChemicalCompound', nm + '.compound')
    S.require(And(c.mMWeight >= D(0.5), c.mMWeight <= 500, p.mKm > 0))
    S.bind(p, 'mCompound', c)
    g = S.vec(p, 'mOffgasCompounds', 'SorbateInteractingCompounds', offgas, nm + '.offgas')
    S.bind(x, 'mProperties', p)
    return (p, c, g) if offgas else (p, c)


def bed_sorbate(S, what):
    this = S.obj('GunnsFluidSorptionBedSorbate', 'this')
    S.dyn(this, 'GunnsFluidSorptionBedSorbate')
    p, c = sorbate(S, this, 'this')
    dt = S.real('dt', 1e-6, 100)
    S.require(this.mLoading >= 0)
    B_ = 'GunnsFluidSorptionBedSorbate::'
    if what == 'equil':
        if S.mode == 'con':
            raise Reject()
        S.bounded('2 blocking compounds')
        q = S.vec(p, 'mBlockingCompounds', 'SorbateInteractingCompounds', 2, 'blocking')
        st = S.vec(this, 'mBlockingStates', 'GunnsFluidSorptionBedSorbate*', 2, 'states')
        ix = S.vec(this, 'mBlockingCompoundIndex', 'unsigned', 2, 'index')
        others = []
        for i in range(2):
            y = S.obj('GunnsFluidSorptionBedSorbate', 'other%d' % i)
            S.bind(st, i, y)
            others.append(y)
            S.write(ix, i, 1 - i)
        free = S.real('free loading', 0, 1e6)
        S.use('SorbateProperties::computeLoadingEquil', lambda K, this, pp, T: free)
        S.call(B_ + 'updateLoadingEquil', this, S.real('pp', 0, 1e6), S.real('T', 1, 5000))
        w = free
        for i, y in enumerate(others):
            f = S.addr_at(q, 1 - i).mInteraction
            w = w * (1 - clamp(If(f >= 0, f * y.mLoadingFraction, f * (y.mLoadingFraction - 1)), 0, 1))
        w = w * If(this.mMalfLoadingEquilFlag, max_(0, this.mMalfLoadingEquilValue), 1)
        S.ensure('equilibrium of the isotherm, less what other compounds block', this.mLoadingEquil == w)
        S.ensure('never negative', this.mLoadingEquil >= 0)
        return
    if what == 'loading':
        inf, lim = S.real('inflow', 0, 1e6), S.real('limit', 0, 1e6)
        o = S.snap()
        S.call(B_ + 'updateLoading', this, dt, inf, lim)
        t = o(this)
        r = p.mKm * (t.mLoadingEquil - t.mLoading)
        S.ensure('goes to equilibrium, takes up no more than flows in, gives off no more than it holds or the stream takes', this.mLoadingRate == If(r >= 0, min_(r, D(0.99) * inf), max_(r, max_(-t.mLoading / dt, -lim))))
        S.ensure('loading changes by the rate, never negative', And(this.mLoading == max_(0, t.mLoading + this.mLoadingRate * dt), this.mLoading >= 0))
        S.ensure('loading changes by exactly the rate', this.mLoading == t.mLoading + this.mLoadingRate * dt)
        S.ensure('fraction of equilibrium', this.mLoadingFraction * max_(this.mLoadingEquil, D(EPS)) == this.mLoading)
        return
    v = S.real('volume', 0, 1e6)
    S.call(B_ + 'updateLoadedMass', this, v)
    S.ensure('mass and rate in the volume', And(this.mLoadedMass == this.mLoading * v * c.mMWeight, this.mAdsorptionRate == this.mLoadingRate * v))


def segment(S, trace):
    """one segment with two sorbates: substance 0 and 1 of the fluid, or 0 and a trace compound"""
    F = Fluids(S, 2, phase=0)
    fl = F.fluid('fluid')
    this = S.obj('GunnsFluidSorptionBedSegment', 'this')
    S.dyn(this, 'GunnsFluidSorptionBedSegment')
    S.bind(this, 'mFluid', fl)
    if S.mode == 'con':
        raise Reject()
    if trace:
        from props.P18 import TC
        tc = TC(S, 1)
        tcs = tc.add(fl, 'tc', invariant=False)
    pr = S.obj('SorbantProperties', 'sorbant')
    S.bind(this, 'mProperties', pr)
    xs = S.arr('GunnsFluidSorptionBedSorbate', 2, 'sorbates')
    S.bind(this, 'mSorbates', xs)
    S.set(this, 'mNSorbates', 2)
    ps = []
    for i in range(2):
        x = S.addr_at(xs, i)
        S.dyn(x, 'GunnsFluidSorptionBedSorbate')
        p, c = sorbate(S, x, 'sorbate%d' % i)
        S.set(x, 'mFluidIndexes.mFluid', -1 if trace and i else i)
        S.set(x, 'mFluidIndexes.mTc', 0 if trace and i else -1)
        S.set(c, 'mFluidType', i)
        S.require(And(x.mLoading >= 0, c.mMWeight == (tc.mw(0) if trace and i else F.mw(i))))
        ps.append((x, p, c))
    S.require(And(this.mVolSorbant >= D(1e-6), this.mVolSorbant <= 1000, fl.mMWeight > 0, this.mMalfDegradeValue >= 0, this.mMalfDegradeValue <= 1))
    S.require(And(*[And(fl.mConstituents[i].mMoleFraction >= 0, fl.mConstituents[i].mMoleFraction <= 1) for i in range(2)]))
    P = prop(S, F, 'SaturationPressure')
    seen = []

    def eq(K, this, pp, T):
        K.assign(this, 'mLoadingEquil', uf_('Equil of pressure', pp))
        seen.append((pp, T))
    S.use('GunnsFluidSorptionBedSorbate::updateLoadingEquil', eq)
    heat = heat_of(S)
    S.use('PolyFluid::updateMass', lambda K, this: None)
    S.use('GunnsFluidTraceCompounds::updateMoleFractions', lambda K, this: None)
    w = S.cell('double', 'flow')
    dt = S.real('dt', 1e-6, 100)
    pin, pout = S.real('pIn', 0, 1e6), S.real('pOut', 0, 1e6)
    S.require(w[0] >= 0)
    o = S.snap()
    T0 = fl.mTemperature
    S.call('GunnsFluidSorptionBedSegment::update', this, w, pin, pout, dt)
    t, w0 = o(this), o(w)[0]
    vol = t.mVolSorbant * If(t.mMalfDegradeFlag, clamp(1 - t.mMalfDegradeValue, 0, 1), 1)
    q, T1 = heat[0]
    out, ht, cap = w0, q, pr.mCp * pr.mDensity * t.mVolSorbant
    n = w0 / fl.mMWeight
    for i, (x, p, c) in enumerate(ps):
        tr = trace and i
        a = x.mAdsorptionRate
        fr = o(tcs[2])[0] if tr else o(fl.mConstituents)[i].mMoleFraction
        ni = n * fr
        moved = If(abs_(a) > D(EPS), a, 0)
        S.ensure('partial pressure of each sorbate drives it', And(seen[i][0] == pin * fr, seen[i][1] == (T0 + T1) / 2))
        rate = p.mKm * (uf_('Equil of pressure', pin * fr) - o(x).mLoading)
        top = D(0.99) * (ni / t.mVolSorbant)
        low = -(max_(0, n * P('SaturationPressure', i, T1) / max_(pout, D(EPS)) - ni) / t.mVolSorbant) if not tr else -D(3.4028234663852886e+38) / t.mVolSorbant
        S.ensure('takes up no more than passes, gives off no more than saturates the stream or is held', x.mLoadingRate == If(rate >= 0, min_(rate, top), max_(rate, max_(-o(x).mLoading / dt, low))))
        S.ensure('rates in the part of the sorbant that is not degraded', And(a == x.mLoadingRate * vol, x.mLoadedMass == x.mLoading * vol * c.mMWeight))
        if tr:
            S.ensure('the stream of the trace compound loses what its bed takes', tcs[1][0] == (ni - moved) * c.mMWeight)
        else:
            S.ensure('the stream of the substance loses what its bed takes', Implies(moved != 0, fl.mConstituents[i].mFluid.mMass == max_(0, ni * c.mMWeight - moved * c.mMWeight)))
            S.ensure('and is left alone when it takes nothing', Implies(moved == 0, fl.mConstituents[i].mFluid.mMass == o(fl.mConstituents)[i].mFluid.mMass))
            out = out - moved * c.mMWeight
            cap = cap + F.get('SpecificHeat', i, t.mTemperature, 0) * x.mLoadedMass
        ht = ht - a * p.mDh * 1000000
    S.ensure('flow leaves with what the bed gave or took', w[0] == out)
    S.ensure('heat of convection and of sorption', this.mHeatFlux == ht)
    S.ensure('thermal capacity of sorbant and sorbates', this.mThermCap == cap)


def bed_offgas(S, trace):
    """a sorbate that gives off another compound (substance 1, or a trace compound) in proportion to what is taken up"""
    if S.mode == 'con':
        raise Reject()
    S.bounded('1 sorbate, 1 compound given off')
    F = Fluids(S, 2, phase=0)
    fl = F.fluid('fluid')
    this = S.obj('GunnsFluidSorptionBedSegment', 'this')
    S.dyn(this, 'GunnsFluidSorptionBedSegment')
    S.bind(this, 'mFluid', fl)
    if trace:
        from props.P18 import TC
        tc = TC(S, 1)
        tcs = tc.add(fl, 'tc', invariant=False)
    S.bind(this, 'mProperties', S.obj('SorbantProperties', 'sorbant'))
    x = S.obj('GunnsFluidSorptionBedSorbate', 'sorbate')
    S.bind(this, 'mSorbates', x)
    S.set(this, 'mNSorbates', 1)
    S.dyn(x, 'GunnsFluidSorptionBedSorbate')
    p, c, g = sorbate(S, x, 'sorbate', 1)
    S.set(x, 'mFluidIndexes.mFluid', 0)
    S.set(x, 'mFluidIndexes.mTc', -1)
    S.set(c, 'mFluidType', 0)
    og = S.vec(x, 'mOffgasIndexes', 'GunnsFluidSorptionBedFluidIndex', 1, 'index')
    S.set(S.addr_at(og, 0), 'mFluid', -1 if trace else 1)
    S.set(S.addr_at(og, 0), 'mTc', 0 if trace else -1)
    S.require(And(this.mVolSorbant >= D(1e-6), this.mVolSorbant <= 1000, fl.mMWeight > 0, c.mMWeight == F.mw(0)))
    S.require(And(*[And(fl.mConstituents[i].mMoleFraction >= 0, fl.mConstituents[i].mMoleFraction <= 1, fl.mConstituents[i].mMassFraction >= 0) for i in range(2)]))
    a = S.real('taken', -1e6, 1e6)
    S.use('GunnsFluidSorptionBedSorbate::updateLoadingEquil', lambda K, this, pp, T: None)
    S.use('GunnsFluidSorptionBedSorbate::updateLoading', lambda K, this, dt, a, b: None)
    S.use('GunnsFluidSorptionBedSorbate::updateLoadedMass', lambda K, this, v: K.assign(this, 'mAdsorptionRate', a))
    heat_of(S)
    prop(S, F, 'SaturationPressure')
    S.use('PolyFluid::updateMass', lambda K, this: None)
    S.use('GunnsFluidTraceCompounds::updateMoleFractions', lambda K, this: None)
    w = S.cell('double', 'flow')
    S.require(w[0] >= 0)
    o = S.snap()
    S.call('GunnsFluidSorptionBedSegment::update', this, w, S.real('pIn', 0, 1e6), S.real('pOut', 0, 1e6), S.real('dt', 1e-6, 100))
    w0 = o(w)[0]
    r = a * S.addr_at(g, 0).mInteraction
    r = If(And(a > D(EPS), r >= D(EPS)), r, 0)
    on = r > D(EPS)
    moved = If(abs_(a) > D(EPS), a, 0) * c.mMWeight
    if trace:
        S.ensure('the stream gains the trace compound the sorbate gives off', Implies(on, tcs[1][0] == (w0 / fl.mMWeight * o(tcs[2])[0] + r) * tc.mw(0)))
        S.ensure('and keeps it when nothing is given off', Implies(r == 0, tcs[1][0] == o(tcs[1])[0]))
        S.ensure('flow leaves with what the bed gave or took', w[0] == w0 - moved)
    else:
        S.ensure('the stream gains the substance the sorbate gives off', Implies(on, fl.mConstituents[1].mFluid.mMass == w0 * o(fl.mConstituents)[1].mMassFraction + r * F.mw(1)))
        S.ensure('and keeps it when nothing is given off', Implies(r == 0, fl.mConstituents[1].mFluid.mMass == o(fl.mConstituents)[1].mFluid.mMass))
        S.ensure('flow leaves with what the bed gave or took', w[0] == w0 - moved + If(on, r, 0) * F.mw(1))


def heat_of(S):
    calls = []

    def f(K, fl, w, htc, tw):
        q, T = K.fresh_real('q'), T_(K)
        calls.append((q, T))
        K.assign(fl, 'mTemperature', T)
        return q
    S.use('GunnsFluidUtils::computeConvectiveHeatFlux(PolyFluid*, double, double, double)', f)
    return calls


def bed(S, what):
    k = start(S, 'GunnsFluidSorptionBed', 2)
    this, F, n, fl = k.this, k.F, k.n, k.fl
    NS = 3
    S.bounded('3 segments')
    if S.mode == 'con' and what != 'outputs':
        raise Reject()
    sg = S.arr('GunnsFluidSorptionBedSegment', NS, 'segments')
    S.bind(this, 'mSegments', sg)
    S.set(this, 'mNSegments', NS)
    dt = S.real('dt', 1e-6, 100)
    if what == 'segments':
        log = S.obj('PolyFluid', 'log')
        S.require(And(this.mVolume > 0, *[x.mVolume >= 0 for x in (sg[i] for i in range(NS))]))
        S.use('PolyFluid::setState', lambda K, this, src: K.assign(this, 'mTemperature', K.snap()(src).mTemperature))
        S.use('PolyFluid::setMass(double)', lambda K, this, m: K.assign(this, 'mMass', m))

        def up(K, seg, w, a, b, dt):
            z = K.snap()
            K.assign(seg, 'mHeatFlux', z(w)[0])
            K.assign(seg, 'mTemperature', a)
            K.assign(seg, 'mThermCap', b)
            K.assign(w, None, z(w)[0] + z(seg).mHtc)
        S.use('GunnsFluidSorptionBedSegment::update', up)
        rho, src = S.real('density', 0, 1e6), S.int('source', 0, 1)
        o = S.snap()
        r = S.call('GunnsFluidSorptionBed::updateSegments', this, dt, rho, src)
        t = o(this)
        on = rho > D(EPS)
        for fwd in (True, False):
            cur, pr = abs_(t.mFlowRate), If(src == 0, k.pv[0], k.pv[1])
            here = And(on, (t.mFlowRate >= 0) if fwd else (t.mFlowRate < 0))
            for i in range(NS) if fwd else reversed(range(NS)):
                z = o(sg)[i]
                nx = pr - abs_(t.mPotentialDrop) / t.mVolume * z.mVolume
                S.ensure('segments work one after the other, along the flow', Implies(here, And(sg[i].mHeatFlux == cur, sg[i].mTemperature == pr, sg[i].mThermCap == nx)))
                cur, pr = cur + z.mHtc, nx
            S.ensure('what leaves the last segment leaves the bed', Implies(here, r == cur))
        S.ensure('nothing is exchanged with nothing', Implies(Not(on), r == abs_(t.mFlowRate)))
        S.ensure('the stream starts as the fluid at its source, in the amount that flows', Implies(on, And(fl.mMass == max_(abs_(t.mFlowRate), D(EPS)), fl.mTemperature == If(src == 0, n[0].mOutflow.mTemperature, n[1].mOutflow.mTemperature))))
        return
    if what == 'transport':
        ex = S.real('exit flow', 0, 1e6)
        S.use('GunnsFluidSorptionBed::updateSegments', lambda K, this, dt, rho, src: ex)
        S.use('GunnsFluidSorptionBed::computeAdsorbOutputs', lambda K, this: None)
        contracts(S, False)
        S.require(And(fl.mMWeight > 0, n[0].mOutflow.mMWeight > 0, n[1].mOutflow.mMWeight > 0))
        o = S.snap()
        S.call('GunnsFluidSorptionBed::transportFlows', this, dt)
        t = o(this)
        up = upstream(k, t.mFlux)
        pick = lambda i, a, b: If(i == 1, b, a)
        mw = pick(up, n[0].mOutflow.mMWeight, n[1].mOutflow.mMWeight)
        d = pick(up, n[0].mOutflow.mDensity, n[1].mOutflow.mDensity)
        w = t.mFlux * mw
        S.ensure('flow of the flux', And(this.mFlowRate == w, this.mVolFlowRate == If(d > D(EPS), w / If(d > D(EPS), d, 1), 0)))
        for i in (0, 1):
            S.ensure('the source gives the flow and the sink gets what leaves the bed', into(o, n[i]) == If(up == i, -abs_(w), ex))
            S.ensure('the solver is told of the moles given off, at the sink', k.sv[i] == If(up == i, 0, ex / fl.mMWeight - abs_(w) / mw))
        return
    cfg = S.obj('PolyFluidConfigData', 'config')
    S.set(cfg, 'mNTypes', 2)
    S.bind(n[0], 'mFluidConfig', cfg)
    A = {}
    for f in ('mAdsorptionFluidRates', 'mAdsorbedFluidMasses', 'mWorkFluidRates', 'mWorkFluidMasses'):
        A[f] = S.arr('double', 2, f)
        S.bind(this, f, A[f])
    xs = []
    for i in range(NS):
        x = S.arr('GunnsFluidSorptionBedSorbate', 2, 'sorbates%d' % i)
        S.bind(S.addr_at(sg, i), 'mSorbates', x)
        S.set(S.addr_at(sg, i), 'mNSorbates', 2)
        for j in range(2):
            S.dyn(S.addr_at(x, j), 'GunnsFluidSorptionBedSorbate')
            S.set(S.addr_at(x, j), 'mFluidIndexes.mFluid', 1 - j if i != 1 else (-1, 0)[j])
            S.set(S.addr_at(x, j), 'mFluidIndexes.mTc', -1)
            xs.append((1 - j if i != 1 else (-1, 0)[j], S.addr_at(x, j)))
    S.call('GunnsFluidSorptionBed::computeAdsorbOutputs', this)
    for c in range(2):
        S.ensure('rates and masses of each substance are sums over the segments', And(A['mAdsorptionFluidRates'][c] == F.mw(c) * sum(x.mAdsorptionRate for j, x in xs if j == c), A['mAdsorbedFluidMasses'][c] == sum(x.mLoadedMass for j, x in xs if j == c)))


HARNESSES = [('adsorber', adsorber, {'cls': 'GunnsFluidAdsorber', 'desorb': False}), ('desorber', adsorber, {'cls': 'GunnsFluidAdsorber', 'desorb': True}), ('hot adsorber', adsorber, {'cls': 'GunnsFluidHotAdsorber', 'desorb': False})]
HARNESSES += [('sorb ' + x, sorb, (x,)) for x in ('plain', 'taper', 'dependent')] + [('multi adsorber', multi_adsorber), ('gas separator', gas_separator)] + [('multi separator ' + x, multi_separator, (x,)) for x in ('step', 'flows', 'transport')]
HARNESSES += [('membrane ' + x, membrane, (x,)) for x in ('step', 'flows', 'transport')] + [('membrane step same type', membrane, ('step', True)), ('membrane heat', membrane_heat)]
HARNESSES += [('evaporation ' + x, evaporation, (x,)) for x in ('step', 'flows', 'transport')] + [('phase change ' + x, phase_change, (x,)) for x in ('step', 'flows', 'transport')]
HARNESSES += [('boundary', boundary, (False,)), ('boundary override', boundary, (True,)), ('heater', heater)]
HARNESSES += [('reaction', reaction, ('GunnsFluidReactor', 1, True)), ('reaction one product', reaction, ('GunnsFluidReactor', 1, False)), ('hot reaction', reaction, ('GunnsFluidHotReactor', 1, True)), ('reaction chain', reaction, ('GunnsFluidReactor', 2, True)), ('reactor', reactor), ('reactor transport', reactor_transport)]
HARNESSES += [('fire step', fire, ('step',)), ('fire transport', fire, ('transport',))]
HARNESSES += [('redox ' + x, redox, (x,)) for x in ('step', 'flows', 'transport')] + [('sublimator ' + x, sublimator, (x,)) for x in ('step', 'flows', 'transport')]
HARNESSES += [('sorbate ' + x, bed_sorbate, (x,)) for x in ('equil', 'loading', 'mass')] + [('bed segment', segment, (False,)), ('bed segment trace', segment, (True,)), ('bed offgas', bed_offgas, (False,)), ('bed offgas trace', bed_offgas, (True,))] + [('bed ' + x, bed, (x,)) for x in ('segments', 'transport', 'outputs')]
