"""Fluid capacitors: tanks, balloons, accumulators."""
from gcv.api import *
from gcv.lib import *
from props import P09 as L
ID = 'P15'
SOURCES = L.SOURCES + ['aspects/fluid/capacitor/%s.cpp' % c for c in ('GunnsFluidTank', 'GunnsFluidBalloon', 'GunnsFluidAccum', 'GunnsFluidAccumGas')]
META = dict(
    title='Tanks, balloons and accumulators hold what they get, within their limits',
    statement='A tank adds exactly the fluid of its partial pressure rate edits and nothing for a constituent whose edit is over, applies temperature and pressure edits once or until they hold and then gives the node back to the solver, and takes from the shell the heat it gives it; bad configurations are refused. A balloon has the volume its inflatability and pressure difference give, between its minimum and maximum, holds it when stuck, and its capacitance accounts for fluid and stretch. An accumulator keeps its bellows within its stops and its liquid and gas volumes in their limits and adding up, follows edits and malfunctions no faster than their rates, shuts its liquid port as the bellows reach a stop or stick, and conserves the mass, species and energy of each chamber with what it exchanges with its nodes.',
    over=['inputs', 'histories'],
    quant='every fluid state, configuration the models accept, position, edit and malfunction in any combination and order, flow in either direction, time step and node map',
    why='unit tests step each capacitor through a few edits and flows on two fixed nodes; edits of several constituents that end at different times, malfunctions on top of edits, the bellows at either stop and flow in both directions have to be right in every combination',
    files=['aspects/fluid/capacitor/GunnsFluidTank.cpp', 'aspects/fluid/capacitor/GunnsFluidBalloon.cpp', 'aspects/fluid/capacitor/GunnsFluidAccum.cpp', 'aspects/fluid/capacitor/GunnsFluidAccumGas.cpp'],
    mech=[('tank edits', 'aspects/fluid/capacitor/GunnsFluidTank.cpp GunnsFluidTank::updateState, updateFluid, performFluidEdit'),
          ('balloon volume', 'aspects/fluid/capacitor/GunnsFluidBalloon.cpp GunnsFluidBalloon::updateInflation, step'),
          ('bellows and chambers', 'aspects/fluid/capacitor/GunnsFluidAccum.cpp GunnsFluidAccum::updateLiqChamber, forceLiqChamber, updateEffConductivityScale'),
          ('gas chamber', 'aspects/fluid/capacitor/GunnsFluidAccumGas.cpp GunnsFluidAccumGas::updateGasChamber, updatePressurizerFluid')],
    note='bounded: 2 fluid constituents in the tank, balloon and gas chamber harnesses, 1 in the liquid chamber. Real arithmetic stands for floating point; property correlations of fluids uninterpreted. Callee contracts assumed: node compression, thermal capacitance, pressure correction, capacitance and collectInflux (their own contracts are P07 and P09), PolyFluid::edit and mixFluidMasses (P07) where edits and mixing are only passed on.')
EPS = L.EPS
FEPS = 1.1920928955078125e-07
LIM = 100 * EPS


def node(S, F, name, n=None):
    nd = S.obj('GunnsFluidNode', name)
    S.dyn(nd, 'GunnsFluidNode')
    S.set(nd, 'mNumFluidTypes', F.n)
    for x in ('mContent', 'mInflow', 'mOutflow'):
        F.fluid('%s.%s' % (name, x), obj=S.addr(nd, x))
    return nd


def tank(S, cls='GunnsFluidTank', n=2):
    S.bounded('%d fluid constituents' % n)
    F = Fluids(S, n, phase=0)
    k = link(S, cls, 2, ncls='GunnsFluidNode')
    S.set(k.this, 'mUserPortSetControl', 0)
    nd = node(S, F, 'node0')
    S.bind(k.np, 0, nd)
    fl = F.fluid('internal')
    this = k.this
    S.bind(this, 'mInternalFluid', fl)
    S.set(this, 'mNConstituents', n)
    for f, ty in (('mEditPartialPressureRateFlag', 'bool'), ('mEditPartialPressureValue', 'double'), ('mEditPartialPressureRateValue', 'double'), ('mPartialPressure', 'double'), ('mMassFraction', 'double'), ('mMoleFraction', 'double')):
        a = S.arr(ty, n, f)
        S.bind(this, f, a)
        setattr(k, f, a)
    k.node, k.fl, k.F = nd, fl, F
    return k


def all_(n, fn):
    return conj([fn(i) for i in range(n)])


def rate_edit(S):
    k = tank(S)
    this, F, nd, fl = k.this, k.F, k.node, k.fl
    n = F.n
    dt = S.real('dt', 0, 100)
    S.require(And(nd.mVolume >= 0, nd.mContent.mTemperature > 0))
    o = S.snap()
    S.call('GunnsFluidTank::updateState', this, dt)
    t = o(this)
    T, V = o(nd).mContent.mTemperature, o(nd).mVolume
    fine = dt >= D(FEPS)
    pp, ev, rv, fg = o(k.mPartialPressure), o(k.mEditPartialPressureValue), o(k.mEditPartialPressureRateValue), o(k.mEditPartialPressureRateFlag)
    c = fl.mConstituents
    going, want = [], []
    for i in range(n):
        d = abs_(rv[i]) * dt
        up, dn = pp[i] < ev[i] - d, pp[i] > ev[i] + d
        going.append(And(fg[i], abs_(rv[i]) >= D(EPS), Or(up, dn)))
        rho = lambda p: F.get('Density', i, T, p)
        want.append((If(up, rho(pp[i] + d), rho(pp[i] - d)) - rho(pp[i])) * V)
    S.ensure('no edit in a vanishing time step', Implies(Not(fine), And(this.mFlowRate == 0, all_(n, lambda i: k.mEditPartialPressureRateFlag[i] == fg[i]))))
    S.ensure('the edit of a constituent goes on until its pressure is within a step of the target', Implies(fine, all_(n, lambda i: k.mEditPartialPressureRateFlag[i] == going[i])))
    any_ = Or(*going)
    run = And(fine, any_)
    S.ensure('a constituent being edited gets the mass its pressure step takes', Implies(run, all_(n, lambda i: Implies(going[i], c[i].mFluid.mMass == want[i]))))
    S.ensure('a constituent that is not edited, or no longer, gets nothing', Implies(run, all_(n, lambda i: Implies(Not(going[i]), c[i].mFluid.mMass == 0))))
    tot = sum([c[i].mFluid.mMass for i in range(n)][1:], c[0].mFluid.mMass)
    S.ensure('the node gets the whole of it over the time step', Implies(And(run, abs_(tot) >= D(EPS)), this.mFlowRate * dt == -tot))
    S.ensure('at the temperature of the tank', Implies(run, fl.mTemperature == T))
    S.ensure('no flow without an edit', Implies(Not(run), this.mFlowRate == 0))
    S.ensure('the edit is not also expanded', nd.mExpansionScaleFactor == If(run, 0, o(nd).mExpansionScaleFactor))
    S.ensure('sources start from zero', And(k.sv[0] == 0, k.sv[1] == 0))


def edit_source(S, cls):
    k = tank(S, cls)
    this, nd, fl = k.this, k.node, k.fl
    S.require(fl.mMWeight > 0)
    dt = S.real('dt', 0, 100)
    if S.mode == 'con':
        raise Reject()
    comp, th = S.real('compression'), S.real('thermal')
    S.use('GunnsFluidNode::computeCompression', lambda K, this: comp)
    S.use('GunnsFluidNode::computeThermalCapacitance', lambda K, this: th)
    o = S.snap()
    S.call(cls + '::buildSourceVector', this, dt)
    ed = -o(this).mFlowRate / fl.mMWeight
    S.ensure('moles added by an edit are a source of the node', k.sv[0] == (k.pv[0] if cls.endswith('Balloon') else k.pv[0] - k.pv[1]) * k.am[0] + ed + (0 if cls.endswith('Balloon') else comp) + If(dt > D(EPS), th / If(dt > D(EPS), dt, 1), 0))
    if not cls.endswith('Balloon'):
        S.ensure('none at the other port', k.sv[1] == 0)


def tank_flows(S):
    k = tank(S)
    o = S.snap()
    S.call('GunnsFluidTank::computeFlows', k.this, S.real('dt', 0, 100))
    this = k.this
    S.ensure('potential drop', this.mPotentialDrop == k.pv[0] - k.pv[1])
    S.ensure('flux is what the capacitance takes up', this.mFlux == this.mPotentialDrop * k.am[0] - k.sv[0])
    S.ensure('a tank is only a sink while an edit fills it', And(k.pd[0] == If(this.mFlowRate != 0, 2, 0), k.pd[1] == 0))
    S.ensure('a tank schedules no outflow', k.node.mScheduledOutflux == o(k.node).mScheduledOutflux)


def edit_contracts(S):
    """a mixture after an edit (the contracts proved in P07)"""
    if S.mode == 'sym':
        def edit(K, f, T, P):
            K.assign(f, 'mTemperature', max_(T, 0))
            K.assign(f, 'mPressure', max_(P, 0))
            K.assign(f, 'mDensity', K.fresh_real('density'))

        def partial(K, f, T, pp):
            K.assign(f, 'mTemperature', max_(T, 0))
            K.assign(f, 'mPressure', max_(pp[0], 0) + max_(pp[1], 0))
            K.assign(f, 'mDensity', K.fresh_real('density'))
        S.use('PolyFluid::edit(double, double)', edit)
        S.use('PolyFluid::edit(double, double*)', partial)


def tank_update(S, kind):
    """temperature and pressure edits, heat of the shell"""
    k = tank(S)
    this, nd, F = k.this, k.node, k.F
    S.set(this, 'mEditTemperaturePressureFlag', kind == 'pressure')
    S.set(this, 'mEditTemperaturePartialPressureFlag', kind == 'partial')
    S.require(And(nd.mContent.mTemperature >= 0, nd.mContent.mPressure >= 0, this.mSurfaceArea >= 0, this.mShellRadius >= 0))
    dt = S.real('dt', 0, 100)
    edit_contracts(S)
    o = S.snap()
    S.call('GunnsFluidTank::updateFluid', this, dt, S.real('flow'))
    t, q = o(this), o(nd).mContent
    shell = And(t.mSurfaceArea > D(FEPS), t.mShellRadius > D(FEPS))
    q0 = If(shell, q.mThermalConductivity * (t.mShellTemperature - q.mTemperature) * (t.mSurfaceArea / If(shell, t.mShellRadius, 1)), t.mHeatFluxFromShell)
    T = If(t.mEditTemperatureValue < D(FEPS), q.mTemperature, t.mEditTemperatureValue)
    if kind == 'none':
        tf = t.mEditTemperatureFlag
        S.ensure('a temperature edit is done once', And(Not(this.mEditTemperatureFlag), Implies(tf, nd.mContent.mTemperature == max_(T, 0))))
        S.ensure('without an edit the fluid is as it was', Implies(Not(tf), And(nd.mContent.mTemperature == q.mTemperature, nd.mContent.mPressure == q.mPressure, nd.mContent.mMass == q.mMass)))
        S.ensure('the node is back with the solver', And(Not(this.mDisablePressureCorrection), Implies(t.mDisablePressureCorrection, Not(k.ov[0])), Implies(Not(t.mDisablePressureCorrection), k.ov[0] == o(k.ov)[0])))
        heat = k.pv[0] >= 1
        S.ensure('potential left to the solver', k.pv[0] == o(k.pv)[0])
    else:
        pv = k.mEditPartialPressureValue
        if kind == 'pressure':
            p0 = t.mEditPressureValue
        else:
            p0 = o(pv)[0] + o(pv)[1]
        x = q.mConstituents
        cur = x[0].mFluid.mPressure + x[1].mFluid.mPressure
        P = If(p0 < D(FEPS), cur, p0)
        done = And(abs_(T - q.mTemperature) < D(FEPS), abs_(P - o(nd).mPotential) < D(FEPS), abs_(o(nd).mNetFlux) < t.mEditFluxTarget)
        fl = this.mEditTemperaturePressureFlag if kind == 'pressure' else this.mEditTemperaturePartialPressureFlag
        S.ensure('the edit is over when temperature, pressure and flux hold', fl == Not(done))
        S.ensure('when over, the node is back with the solver', Implies(done, And(Not(k.ov[0]), Not(this.mDisablePressureCorrection))))
        S.ensure('until then the node is held at the edited state', Implies(Not(done), And(k.ov[0], this.mDisablePressureCorrection, k.pv[0] == nd.mContent.mPressure, nd.mContent.mTemperature == max_(T, 0))))
        if kind == 'pressure':
            S.ensure('the pressure is as edited; an edit to zero keeps the pressure', Implies(Not(done), nd.mContent.mPressure == max_(P, 0)))
        else:
            S.ensure('the pressure is as edited', Implies(And(Not(done), p0 >= D(FEPS)), nd.mContent.mPressure == max_(o(pv)[0], 0) + max_(o(pv)[1], 0)))
            S.ensure('an edit to zero keeps the partial pressures', Implies(p0 < D(FEPS), And(pv[0] == x[0].mFluid.mPressure, pv[1] == x[1].mFluid.mPressure)))
        S.ensure('the content mass follows the edit', Implies(Not(done), nd.mContent.mMass == nd.mContent.mDensity * nd.mVolume))
        S.ensure('the edit is no compression of the fluid', Implies(Not(done), And(nd.mPreviousPressure == nd.mContent.mPressure, nd.mPreviousTemperature == nd.mContent.mTemperature)))
        S.ensure('the fluid is left alone once the edit is over', Implies(done, And(nd.mContent.mTemperature == q.mTemperature, nd.mContent.mPressure == q.mPressure, nd.mContent.mMass == q.mMass)))
        heat = And(done, k.pv[0] >= 1)
    S.ensure('heat conducted from the shell', this.mHeatFluxFromShell == If(heat, q0, 0))
    S.ensure('the shell gives what the fluid takes', Implies(Or(shell, Not(heat)), this.mHeatFluxToShell == -this.mHeatFluxFromShell))
    ok = And(dt > D(EPS), t.mDpdtFilterGain != 0)
    x = t.mDpdt + t.mDpdtFilterGain * ((o(nd).mPotential - t.mPreviousPressure) / If(ok, dt, 1) - t.mDpdt)
    S.ensure('pressure rate is the filtered rate of the node', this.mDpdt == If(And(ok, abs_(x) >= D(EPS)), x, 0))
    S.ensure('pressure is remembered', this.mPreviousPressure == o(nd).mPotential)


def tank_outputs(S):
    k = tank(S)
    this, q = k.this, k.node.mContent
    S.call('GunnsFluidTank::processOutputs', this)
    c = q.mConstituents
    S.ensure('outputs are those of the content', And(this.mTemperature == q.mTemperature, this.mDensity == q.mDensity, all_(2, lambda i: And(k.mPartialPressure[i] == c[i].mFluid.mPressure, k.mMassFraction[i] == c[i].mMassFraction, k.mMoleFraction[i] == c[i].mMoleFraction))))


def tank_commands(S, which):
    k = tank(S)
    this = k.this
    fg, T, P = S.bool('flag'), S.real('T'), S.real('P')
    if which == 'rate':
        F = S.choice('type', [0, 1])
        o = S.snap()
        S.call('GunnsFluidTank::editPartialPressureRate', this, F, fg, P, T)
        at = lambda a, v, i: If(And(F == i, fg), v, o(a)[i])
        S.ensure('the constituent is edited as commanded', all_(2, lambda i: And(k.mEditPartialPressureRateFlag[i] == If(F == i, fg, o(k.mEditPartialPressureRateFlag)[i]), k.mEditPartialPressureValue[i] == at(k.mEditPartialPressureValue, P, i), k.mEditPartialPressureRateValue[i] == at(k.mEditPartialPressureRateValue, T, i))))
        return
    if which == 'restart':
        S.call('GunnsFluidTank::restartModel', this)
        S.ensure('a restart cancels every edit', And(Not(this.mEditTemperatureFlag), Not(this.mEditTemperaturePressureFlag), Not(this.mEditTemperaturePartialPressureFlag), Not(this.mEditVolumeFlag), all_(2, lambda i: Not(k.mEditPartialPressureRateFlag[i]))))
        return
    o = S.snap()
    t = o(this)
    if which == 'temperature':
        S.call('GunnsFluidTank::editTemperature', this, fg, T)
        S.ensure('temperature edit as commanded', And(this.mEditTemperatureFlag == fg, this.mEditTemperatureValue == If(fg, T, t.mEditTemperatureValue)))
    elif which == 'pressure':
        S.call('GunnsFluidTank::editTemperaturePressure', this, fg, T, P)
        S.ensure('pressure edit as commanded', And(this.mEditTemperaturePressureFlag == fg, this.mEditTemperatureValue == If(fg, T, t.mEditTemperatureValue), this.mEditPressureValue == If(fg, P, t.mEditPressureValue)))
    else:
        a = S.arr('double', 2, 'partials')
        S.call('GunnsFluidTank::editTemperaturePartialPressure', this, fg, T, a)
        S.ensure('partial pressure edit as commanded', And(this.mEditTemperaturePartialPressureFlag == fg, this.mEditTemperatureValue == If(And(fg, T > D(EPS)), T, t.mEditTemperatureValue), all_(2, lambda i: k.mEditPartialPressureValue[i] == If(fg, a[i], o(k.mEditPartialPressureValue)[i]))))


def validate_tank(S):
    this = S.obj('GunnsFluidTank', 'this')
    S.dyn(this, 'GunnsFluidTank')
    c, i = S.obj('GunnsFluidTankConfigData', 'config'), S.obj('GunnsFluidTankInputData', 'input')
    S.call('GunnsFluidTank::validate', this, c, i, may_throw=True)
    S.ensure('accepted iff the configuration makes sense', Not(S.threw) == And(c.mDpdtFilterGain >= 0, c.mDpdtFilterGain <= 1, c.mThermalDampingMass >= 0, c.mEditFluxTarget >= 0, c.mSurfaceArea >= 0, c.mShellRadius >= 0, i.mShellTemperature >= 0))


MINV = 1e-12


def balloon(S):
    k = tank(S, 'GunnsFluidBalloon')
    this = k.this
    S.require(And(this.mInflatability >= D(FEPS), this.mMaxVolume >= D(MINV) + D(FEPS)))
    return k


def vol(t, act, p, p1):
    return clamp(act * (p - p1), D(MINV), t.mMaxVolume)


def actual(t):
    return max_(If(t.mMalfInflatabilityScaleFlag, t.mInflatability * t.mMalfInflatabilityScaleValue, t.mInflatability), D(EPS))


def inflation(S):
    k = balloon(S)
    this, nd = k.this, k.node
    S.require(And(this.mInflation >= 0, this.mInflation <= 1))
    o = S.snap()
    r = S.call('GunnsFluidBalloon::updateInflation', this)
    t = o(this)
    v = vol(t, t.mActualInflatability, k.pv[0], k.pv[1])
    rng = t.mMaxVolume - D(MINV)
    S.ensure('volume by inflatability and pressure difference, held when stuck', r == If(t.mMalfStuckFlag, t.mInflation * rng + D(MINV), v))
    S.ensure('volume within its limits', And(r >= D(MINV), r <= t.mMaxVolume))
    S.ensure('inflation is the part of the volume range', And(this.mInflation * rng == r - D(MINV), this.mInflation >= 0, this.mInflation <= 1))
    S.ensure('a stuck balloon keeps its inflation', Implies(t.mMalfStuckFlag, this.mInflation == t.mInflation))
    v0, e = o(nd).mVolume, D(FEPS)
    S.ensure('state fits the volume and its change', this.mInflationState == If(r == D(MINV), 0, If(r == t.mMaxVolume, 4, If(r > v0 + e, 3, If(r < v0 - e, 1, 2)))))
    S.ensure('the node is not changed', nd.mVolume == v0)


def inflatability(S):
    k = balloon(S)
    this = k.this
    o = S.snap()
    S.call('GunnsFluidBalloon::updateInflatability', this)
    S.ensure('inflatability, scaled by a malfunction, stays above zero', And(this.mActualInflatability == actual(o(this)), this.mActualInflatability > 0))


def volume_edit(S):
    k = balloon(S)
    this, nd = k.this, k.node
    S.require(this.mActualInflatability >= D(EPS))
    S.require(And(nd.mContent.mTemperature >= 0))
    o = S.snap()
    S.call('GunnsFluidBalloon::processVolumeEdit', this)
    t = o(this)
    pe = Or(t.mEditTemperaturePressureFlag, t.mEditTemperaturePartialPressureFlag)
    ep = If(t.mEditTemperaturePressureFlag, t.mEditPressureValue, o(k.mEditPartialPressureValue)[0] + o(k.mEditPartialPressureValue)[1])
    v = If(pe, vol(t, t.mActualInflatability, ep, k.pv[1]), clamp(t.mEditVolume, D(MINV), t.mMaxVolume))
    on = Or(pe, t.mEditVolumeFlag)
    S.ensure('the node gets the edited volume, limited, without compressing it', And(nd.mVolume == If(on, v, o(nd).mVolume), Implies(on, nd.mPreviousVolume == v), Implies(Not(on), nd.mPreviousVolume == o(nd).mPreviousVolume)))
    S.ensure('a volume edit is done once', Not(this.mEditVolumeFlag))
    only = And(t.mEditVolumeFlag, Not(pe))
    S.ensure('a volume edit alone becomes the pressure edit that gives that volume', Implies(only, And(this.mEditTemperaturePressureFlag, this.mEditTemperatureValue == nd.mContent.mTemperature, vol(t, t.mActualInflatability, this.mEditPressureValue, k.pv[1]) == v)))
    S.ensure('other edits are left as they are', Implies(Not(only), And(this.mEditTemperaturePressureFlag == t.mEditTemperaturePressureFlag, this.mEditPressureValue == t.mEditPressureValue, this.mEditTemperatureValue == t.mEditTemperatureValue)))


def balloon_step(S):
    k = balloon(S)
    this, nd = k.this, k.node
    for f in ('mEditVolumeFlag', 'mEditTemperaturePressureFlag', 'mEditTemperaturePartialPressureFlag'):
        S.set(this, f, False)
    S.require(k.am[1] == 0)
    if S.mode == 'con':
        raise Reject()
    dt = S.real('dt', 0, 100)
    cap, pc, th = S.real('cap', 0, 1e9), S.real('pc'), S.real('th')
    S.use('GunnsFluidTank::updateState', lambda K, this, dt: K.assign(this, 'mFlowRate', 0))
    S.use('GunnsFluidUtils::computeCapacitance', lambda K, f, v: cap)
    S.use('GunnsFluidBalloon::computePressureCorrection', lambda K, this: pc)
    S.use('GunnsFluidNode::computeThermalCapacitance', lambda K, this: th)
    S.require(And(this.mExpansionScaleFactor >= 0, this.mExpansionScaleFactor <= 1, k.fl.mMWeight > 0, nd.mContent.mMWeight > 0, nd.mContent.mDensity >= 0, k.am[2] == 0, k.am[3] == 0))
    o = S.snap()
    S.call('GunnsFluidBalloon::step', this, dt)
    t = o(this)
    ac = actual(t)
    stretch = Or(nd.mVolume == t.mMaxVolume, t.mMalfStuckFlag)
    S.ensure('moles that fit by compression and by stretching', this.mCapacitance == cap + If(stretch, 0, ac * nd.mContent.mDensity / nd.mContent.mMWeight))
    g = this.mCapacitance / max_(dt, D(EPS))
    S.ensure('capacitance over time step on the diagonal of port 0 only', And(k.am[0] == g, k.am[1] == 0, k.am[2] == 0, k.am[3] == 0))
    S.ensure('the solver is told when the matrix changed', this.mAdmittanceUpdate == Or(t.mAdmittanceUpdate, o(k.am)[0] != g))
    S.ensure('the pressure is corrected unless an edit holds it', k.pv[0] == o(k.pv)[0] + If(t.mDisablePressureCorrection, 0, pc))
    S.ensure('the source keeps the corrected pressure', k.sv[0] == k.pv[0] * g + If(dt > D(EPS), th / If(dt > D(EPS), dt, 1), 0))
    S.ensure('the volume is left until the fluid is updated', nd.mVolume == o(nd).mVolume)


def balloon_correction(S):
    """pressure and volume together take up the error of the mass held"""
    k = balloon(S)
    this, nd = k.this, k.node
    if S.mode == 'con':
        raise Reject()
    pc = S.real('pc')
    S.use('GunnsFluidNode::computePressureCorrection', lambda K, this: pc)
    S.require(And(this.mActualInflatability >= D(EPS), nd.mContent.mMWeight > 0, nd.mVolume >= 0, nd.mContent.mTemperature >= 0, nd.mContent.mMass >= 0))
    o = S.snap()
    r = S.call('GunnsFluidBalloon::computePressureCorrection', this)
    t = o(this)
    free = And(t.mInflation > 0, t.mInflation < 1, Not(t.mMalfStuckFlag))
    S.ensure('a balloon that cannot stretch is corrected like a tank', Implies(Not(free), And(r == pc, this.mPressureCorrectionGain == 1)))
    a = t.mActualInflatability
    V, P = nd.mVolume, k.pv[0]
    nRT = nd.mContent.mTemperature * nd.mContent.mMass * D(8.314472) / nd.mContent.mMWeight
    e = (P + r) * (V + a * r) - nRT
    b = pc * (a * P + V)
    disc = b * b - 4 * (a * pc * pc) * (V * P - nRT)
    S.ensure('corrected pressure and stretched volume hold the moles of the gas', Implies(And(free, pc != 0, disc > 0), e == 0))
    S.ensure('no correction without an error or a solution', Implies(And(free, Or(pc == 0, disc <= 0)), r == 0))


def pp_correct(S):
    k = balloon(S)
    this, nd, fl, F = k.this, k.node, k.fl, k.F
    dt = S.real('dt', 0, 100)
    S.require(And(dt >= D(FEPS), fl.mMWeight > 0, this.mInflatableCapacitance > 0))
    o = S.snap()
    S.call('GunnsFluidBalloon::correctPpRateEdits', this, dt)
    t = o(this)
    T = o(nd).mContent.mTemperature
    on = abs_(t.mFlowRate) > D(EPS)
    dv = -dt * t.mFlowRate / o(fl).mMWeight / t.mInflatableCapacitance * t.mActualInflatability
    c = fl.mConstituents
    more = [If(F.props[i].mPhase == 0, F.get('Density', i, T, k.mPartialPressure[i]) * dv, 0) for i in range(2)]
    S.ensure('an edit of a gas also fills the volume by which the balloon stretches', Implies(on, all_(2, lambda i: c[i].mFluid.mMass == o(c)[i].mFluid.mMass + more[i])))
    S.ensure('and the flow carries it', Implies(on, (this.mFlowRate - t.mFlowRate) * dt == -(more[0] + more[1])))
    S.ensure('nothing without an edit', Implies(Not(on), And(this.mFlowRate == t.mFlowRate, all_(2, lambda i: c[i].mFluid.mMass == o(c)[i].mFluid.mMass))))


def validate_balloon(S):
    this = S.obj('GunnsFluidBalloon', 'this')
    S.dyn(this, 'GunnsFluidBalloon')
    c = S.obj('GunnsFluidBalloonConfigData', 'config')
    S.call('GunnsFluidBalloon::validate', this, c, may_throw=True)
    S.ensure('accepted iff it can inflate', Not(S.threw) == And(c.mInflatability >= D(FEPS), c.mMaxVolume >= D(MINV + FEPS)))


def balloon_rules(S):
    k = link(S, 'GunnsFluidBalloon', 2, ncls='GunnsFluidNode')
    p, n = S.int('port', 0, 1), S.int('node', 0, 1000)
    S.require(n <= k.N)
    r = S.call('GunnsFluidBalloon::checkSpecificPortRules', k.this, p, n)
    gas = k.nodes[n].mContent.mConstituents
    ph = k.nodes[n].mContent.mPhase
    S.ensure('port 0 only on a gas node that is not Ground', r == Or(p != 0, And(ph == 0, n != k.N)))


ACC = ('GunnsFluidAccum', 'GunnsFluidAccumGas')


def accum(S, cls='GunnsFluidAccum', n=1, gas=2):
    S.bounded('%d liquid and %d gas constituent(s)' % (n, gas))
    F = Fluids(S, n, phase=1)
    k = link(S, cls, 2, ncls='GunnsFluidNode')
    S.set(k.this, 'mUserPortSetControl', 0)
    k.n1 = node(S, F, 'node1')
    k.n0 = S.obj('GunnsFluidNode', 'node0')
    S.dyn(k.n0, 'GunnsFluidNode')
    S.bind(k.np, 1, k.n1)
    S.bind(k.np, 0, k.n0)
    k.fl = F.fluid('internal')
    S.bind(k.this, 'mInternalFluid', k.fl)
    k.F = F
    return k


def acc_ok(S, t):
    """what initialize establishes (volumes) and every step keeps"""
    S.require(And(t.mMinChamberVol > 0, t.mMaxChamberVol > 2 * t.mMinChamberVol, t.mTotalVolume == t.mMinChamberVol + t.mMaxChamberVol, t.mActiveVolRange == t.mMaxChamberVol - t.mMinChamberVol,
                  t.mMinDeadBandVol > t.mMinChamberVol, 2 * t.mMinDeadBandVol < t.mMaxChamberVol))


def acc_vol(t):
    return [('bellows within its stops', And(t.mBellowsPosition >= 0, t.mBellowsPosition <= 1)),
            ('liquid volume follows the bellows', t.mLiquidVolume == t.mMinChamberVol + t.mBellowsPosition * t.mActiveVolRange),
            ('liquid and pressurizer volume add up and stay in their limits', And(t.mLiquidVolume + t.mPressurizerVolume == t.mTotalVolume, t.mLiquidVolume >= t.mMinChamberVol, t.mLiquidVolume <= t.mMaxChamberVol, t.mPressurizerVolume >= t.mMinChamberVol, t.mPressurizerVolume <= t.mMaxChamberVol))]


def ens_vol(S, t):
    for n, f in acc_vol(t):
        S.ensure(n, f)


def derive_vol(S):
    k = accum(S)
    acc_ok(S, k.this)
    S.require(And(k.this.mBellowsPosition >= 0, k.this.mBellowsPosition <= 1))
    S.call('GunnsFluidAccum::deriveChamberVolumes', k.this)
    ens_vol(S, k.this)


def ramp(S):
    k = accum(S)
    a = [S.cell('double', n) for n in ('current', 'target', 'rate')]
    lo, hi, rl, rh = [S.real(n) for n in ('lo', 'hi', 'rateLo', 'rateHi')]
    S.require(And(lo <= hi, rl <= rh, rl >= 0))
    dt = S.real('dt', 0, 100)
    cur, tg, rt = [x[0] for x in a]
    o = [x + 0 for x in (cur, tg, rt)]
    r = S.call('GunnsFluidAccum::rampValue', k.this, dt, a[0], a[1], a[2], lo, hi, rl, rh)
    T, Rt = clamp(o[1], lo, hi), clamp(o[2], rl, rh)
    S.ensure('target and rate are limited', And(a[1][0] == T, a[2][0] == Rt))
    S.ensure('moves to the target at the rate, never past it', a[0][0] == If(T > o[0], min_(o[0] + Rt * dt, T), If(T < o[0], max_(o[0] - Rt * dt, T), o[0])))
    S.ensure('complete iff at the target', r == (a[0][0] == T))


def timer(S):
    k = accum(S)
    a = S.cell('double', 'timer')
    lim, dt = S.real('limit'), S.real('dt', 0, 100)
    t0 = a[0] + 0
    r = S.call('GunnsFluidAccum::processTimer', k.this, dt, a, lim)
    S.ensure('runs up to its limit, expired from then on', And(r == (t0 >= lim), a[0] == If(t0 < lim, t0 + dt, t0)))


def scale(S):
    k = accum(S)
    t = k.this
    acc_ok(S, t)
    for n, f in acc_vol(t):
        S.require(f)
    S.require(And(t.mEffConductivityScale >= 0, t.mEffConductivityScale <= 1, t.mMinConductivityScale >= D(EPS), t.mMinConductivityScale <= 1, t.mEffCondScaleOneWayRate >= 0))
    dt = S.real('dt', 0, 100)
    o = S.snap()
    S.call('GunnsFluidAccum::updateEffConductivityScale', t, dt)
    b = o(t)
    db = b.mMinDeadBandVol - b.mMinChamberVol
    v, p = b.mLiquidVolume, b.mPressurizerVolume
    zone = If(v <= b.mMinChamberVol, 0, If(v >= b.mMaxChamberVol, 4, If(v < b.mMinDeadBandVol, 1, If(v > b.mMaxChamberVol - db, 3, 2))))
    dp, th = k.n1.mPotential - k.fl.mPressure, b.mFillModePressureThreshold
    mode = If(dp > th, 1, If(-dp > th, 2, 0))
    S.ensure('zone of the bellows', t.mBellowsZone == zone)
    S.ensure('fill mode by the pressure across the port', t.mFillMode == mode)
    sc = t.mEffConductivityScale
    S.ensure('scale between shut and open', And(sc >= 0, sc <= 1))
    S.ensure('stuck bellows let nothing through', Implies(b.mBellowsStuck, sc == 0))
    free = Or(zone == 2, b.mPressurizerOrideBellowsFlag, b.mEditBellowsFlag)
    S.ensure('open in mid range and while the bellows are driven', Implies(And(Not(b.mBellowsStuck), free), sc == 1))
    one = And(th > D(EPS), mode != 0, Not(b.mBellowsStuck), Not(free))
    S.ensure('a full chamber takes in nothing', Implies(And(Not(b.mBellowsStuck), Not(free), zone == 4, mode == 1), sc == 0))
    S.ensure('an empty chamber gives nothing out', Implies(And(Not(b.mBellowsStuck), Not(free), zone == 0, mode == 2), sc == 0))
    S.ensure('towards a stop the port closes in proportion', Implies(And(Not(b.mBellowsStuck), Not(free)), And(Implies(And(zone == 3, mode == 1), sc == (p - b.mMinChamberVol) / db), Implies(And(zone == 1, mode == 2), sc == (v - b.mMinChamberVol) / db))))
    lim = If(dt > 0, 1 / If(dt > 0, dt, 1), 0)
    rt = clamp(b.mEffCondScaleOneWayRate, 0, lim)
    S.ensure('away from a stop the port opens at its rate', Implies(And(one, Or(And(mode == 1, Or(zone == 0, zone == 1)), And(mode == 2, Or(zone == 3, zone == 4)))), sc == min_(b.mEffConductivityScale + rt * dt, 1)))
    two = And(Not(one), Not(b.mBellowsStuck), Not(free))
    S.ensure('without one-way flow the port closes in proportion in either direction', Implies(two, And(Implies(zone == 1, sc == (v - b.mMinChamberVol) / db), Implies(zone == 3, sc == (p - b.mMinChamberVol) / db),
             Implies(Or(zone == 0, zone == 4), sc == If(Or(And(zone == 0, mode == 1), And(zone == 4, mode == 2)), b.mMinConductivityScale, 0)))))


def conduct(S, cls):
    k = accum(S, cls)
    t = k.this
    c, mx, cur, mn, dt = [S.real(x) for x in ('capacitance', 'max', 'current', 'min', 'dt')]
    S.require(And(c >= 0, mx >= 0, mn >= 0))
    r = S.call('GunnsFluidAccum::computeConductivity', t, c, mx, cur, mn, dt)
    lo = If(mx >= mn, mn, 0)
    S.ensure('conducts what fills the capacitance in a step, within its limits', r == If(dt > D(EPS), clamp(c / If(dt > D(EPS), dt, 1), lo, mx), cur))


def eff_cond(S):
    k = accum(S)
    t = k.this
    S.require(And(t.mMaxConductivity >= 0, t.mLiqCapacitance >= 0))
    if S.mode == 'con':
        raise Reject()
    sc = S.real('scale', 0, 1)
    S.use('GunnsFluidAccum::updateEffConductivityScale', lambda K, this, dt: K.assign(this, 'mEffConductivityScale', sc))
    dt = S.real('dt', 0, 100)
    o = S.snap()
    S.call('GunnsFluidAccum::updateEffectiveConductivity', t, dt)
    b = o(t)
    x = sc * If(dt > D(EPS), clamp(b.mLiqCapacitance / If(dt > D(EPS), dt, 1), 0, b.mMaxConductivity), b.mEffectiveConductivity)
    S.ensure('conductivity is scaled and limited', t.mEffectiveConductivity == clamp(x, 0, b.mMaxConductivity))


def acc_state(S, cls):
    k = accum(S, cls)
    t = k.this
    gas = cls == 'GunnsFluidAccumGas'
    g = None
    if gas:
        g = S.obj('PolyFluid', 'gas')
        S.bind(t, 'mGasInternalFluid', g)
    S.require(And(k.am[1] == 0, k.am[2] == 0))
    if not gas:
        S.require(k.am[0] == 0)
    o = S.snap()
    S.call('GunnsFluidAccum::updateState', t, S.real('dt', 0, 100))
    b = o(t)
    g1 = clamp(b.mEffectiveConductivity, 0, D(L.COND))
    g0 = clamp(b.mGasEffectiveConductivity, 0, D(L.COND)) if gas else R(0)
    S.ensure('each chamber conducts to its own port only', And(k.am[0] == g0, k.am[1] == 0, k.am[2] == 0, k.am[3] == g1))
    S.ensure('the solver is told when the matrix changed', t.mAdmittanceUpdate == Or(b.mAdmittanceUpdate, o(k.am)[3] != g1, o(k.am)[0] != g0))
    S.ensure('each chamber drives its port to its pressure', And(k.sv[1] == k.fl.mPressure * g1, k.sv[0] == (g.mPressure * g0 if gas else 0)))


def acc_flows(S, cls):
    k = accum(S, cls)
    t = k.this
    gas = cls == 'GunnsFluidAccumGas'
    if gas:
        g = S.obj('PolyFluid', 'gas')
        S.bind(t, 'mGasInternalFluid', g)
    o = S.snap()
    S.call(cls + '::computeFlows', t, S.real('dt', 0, 100))
    f = (k.n1.mPotential - k.fl.mPressure) * k.am[3]
    d = lambda n: n.mScheduledOutflux - o(n).mScheduledOutflux
    E = D(EPS)
    S.ensure('liquid flux by the pressure across the port', t.mFlux == f)
    S.ensure('inflow is scheduled out of the node', d(k.n1) == If(f > E, f, 0))
    S.ensure('liquid port direction follows the flux', k.pd[1] == If(f > E, 1, If(f < -E, 2, 0)))
    if gas:
        h = (k.n0.mPotential - g.mPressure) * k.am[0]
        S.ensure('gas flux by the pressure across the port', t.mGasFlux == h)
        S.ensure('gas inflow is scheduled out of the node', d(k.n0) == If(h > E, h, 0))
        S.ensure('gas port direction follows the flux', k.pd[0] == If(h > E, 1, If(h < -E, 2, 0)))
    else:
        S.ensure('nothing flows at the other port', And(k.pd[0] == 0, d(k.n0) == 0))


def acc_transport(S):
    k = accum(S)
    S.bounded('1 fluid constituent')
    w = S.real('flow')
    nd = k.n1
    if S.mode == 'sym':
        S.use('GunnsFluidNode::collectInflux', L.collect)
    o = S.snap()
    S.call('GunnsFluidAccum::transportAccumFluid', k.this, w, nd, k.fl)
    d = lambda f: getattr(nd, f) - getattr(o(nd), f)
    l = D(LIM)
    S.ensure('what the chamber takes leaves the node, what it gives enters', And(d('mOutfluxRate') == If(w > l, w, 0), d('mInfluxRate') == If(w < -l, -w, 0)))
    if S.mode == 'sym':
        S.ensure('with the enthalpy of the chamber', d('mInflowHeatFlux') == If(w < -l, -w * k.fl.mSpecificEnthalpy, 0))


def mass_of(m, w, dt):
    return max_(If(abs_(w) > D(LIM), m + w * dt, m), D(EPS))


def acc_rates(S):
    k = accum(S)
    t = k.this
    f, w = S.real('flux'), S.real('flow')
    nd, fl = k.n1, k.fl
    S.require(And(nd.mOutflow.mDensity > 0, fl.mDensity > 0))
    r = S.call('GunnsFluidAccum::computeFlowRate', t, f, nd, fl)
    S.ensure('molar flux carries the fluid of the side it comes from', r == f * If(f > 0, nd.mOutflow.mMWeight, fl.mMWeight))
    r = S.call('GunnsFluidAccum::computeVolFlowRate', t, w, nd, fl)
    S.ensure('volume flow of the fluid of that side', r * If(w > 0, nd.mOutflow.mDensity, fl.mDensity) == w)
    dt, m = S.real('dt', 0, 100), S.real('mass')
    r = S.call('GunnsFluidAccum::computeMass(double, double, double)', t, dt, w, m)
    S.ensure('mass changes by what flows, never below a trace', r == mass_of(m, w, dt))


def invert_T(S):
    if S.mode == 'sym':
        S.use('PolyFluid::computeTemperature(double)', lambda K, this, h: TT(h))


def TT(h):
    from gcv.exec import uf, RS
    return uf('temperatureOf', RS, RS)(R(h))


def temp_of(S, t, dt, w, h, fl, q):
    m = fl.mMass
    m1 = mass_of(m, w, dt)
    l = D(LIM)
    heat = m * fl.mSpecificEnthalpy + (q + If(w < -l, w * fl.mSpecificEnthalpy, If(w > l, w * h, 0))) * dt
    return clamp(If(t.mHoldTemperatureFlag, fl.mTemperature, TT(heat / m1) if S.mode == 'sym' else S.call('PolyFluid::computeTemperature(double)', fl, heat / m1)), t.mMinTemperature, t.mMaxTemperature)


def acc_temp(S):
    k = accum(S)
    t, fl = k.this, k.fl
    invert_T(S)
    S.require(t.mMinTemperature < t.mMaxTemperature)
    dt, w, h, q = S.real('dt', 0, 100), S.real('flow'), S.real('h'), S.real('q')
    want = temp_of(S, t, dt, w, h, fl, q)
    r = S.call('GunnsFluidAccum::computeTemperature', t, dt, w, h, fl, q)
    S.ensure('temperature by the energy of content, flow and housing heat, within its limits', r == want)


def temp_contract(S):
    if S.mode == 'sym':
        def tc(K, this, dt, w, h, f, q):
            v = K.fresh_real('temperature')
            K.assume(And(v >= this.mMinTemperature, v <= this.mMaxTemperature))
            return v
        S.use('GunnsFluidAccum::computeTemperature', tc)


def liq_update(S):
    k = accum(S)
    t, fl = k.this, k.fl
    acc_ok(S, t)
    for n, f in acc_vol(t):
        S.require(f)
    invert_T(S)
    S.require(And(t.mMinTemperature < t.mMaxTemperature, t.mMinTemperature > 0))
    dt = S.real('dt', 0, 100)
    T = temp_of(S, t, dt, t.mFlowRate, k.n1.mOutflow.mSpecificEnthalpy, fl, t.mLiquidHousingQ)
    o = S.snap()
    S.call('GunnsFluidAccum::updateLiqChamber', t, dt)
    b, q = o(t), o(fl)
    hold = b.mHoldAccumFlag
    m = mass_of(q.mMass, b.mFlowRate, dt)
    S.ensure('liquid mass changes by what flows in', Implies(Not(hold), fl.mMass == m))
    S.ensure('liquid takes the energy that flows in', Implies(Not(hold), fl.mTemperature == T))
    S.ensure('a held accumulator stays as it is', Implies(hold, And(fl.mMass == q.mMass, fl.mTemperature == q.mTemperature, t.mLiquidVolume == b.mLiquidVolume, t.mBellowsPosition == b.mBellowsPosition)))
    S.ensure('liquid volume is what the mass takes, within the chamber', Implies(And(Not(hold), fl.mDensity > 0), t.mLiquidVolume == clamp(fl.mMass / fl.mDensity, b.mMinChamberVol, b.mMaxChamberVol)))
    ens_vol(S, t)


def liq_force(S, warm):
    k = accum(S)
    t, fl = k.this, k.fl
    acc_ok(S, t)
    invert_T(S)
    S.require(And(t.mBellowsPosition >= 0, t.mBellowsPosition <= 1, t.mForceBellowsMaxRate > 0, t.mMinTemperature < t.mMaxTemperature, t.mMinTemperature > 0))
    a, r = S.cell('double', 'position'), S.cell('double', 'rate')
    dt = S.real('dt', 0, 100)
    a0, r0 = a[0] + 0, r[0] + 0
    o = S.snap()
    done = S.call('GunnsFluidAccum::forceLiqChamber', t, dt, a, r, bool(warm))
    b = o(t)
    T, Rt = clamp(a0, 0, 1), clamp(r0, 0, b.mForceBellowsMaxRate)
    x = b.mBellowsPosition
    S.ensure('bellows move to the forced position at the rate, never past it or faster than they may', t.mBellowsPosition == If(T > x, min_(x + Rt * dt, T), If(T < x, max_(x - Rt * dt, T), x)))
    S.ensure('complete iff there', done == (t.mBellowsPosition == T))
    ens_vol(S, t)
    S.ensure('a completed malfunction is noted', t.mBellowsMalfSet == Or(b.mBellowsMalfSet, And(b.mPressurizerOrideBellowsFlag, done)))
    if warm:
        S.ensure('the chamber stays full of liquid', fl.mMass == max_(t.mLiquidVolume * o(fl).mDensity, D(EPS)))
    else:
        S.ensure('the chamber stays full of liquid at its temperature', And(fl.mMass == max_(t.mLiquidVolume * fl.mDensity, D(EPS)), fl.mTemperature == o(fl).mTemperature))


def acc_update(S, cls):
    """which of malfunction, edit and flow drives the bellows"""
    k = accum(S, cls)
    t, fl = k.this, k.fl
    if S.mode == 'con':
        raise Reject()
    S.require(And(k.n1.mOutflow.mDensity > 0, fl.mDensity > 0))
    S.set(t, 'mEditTemperatureFlag', False)
    FO, UP = 12, 13
    done = S.bool('complete')

    def force(K, this, dt, p, r, w):
        K.assign(this, 'mBellowsPosition', FO + p[0] / 4)
        return done
    S.use('GunnsFluidAccum::forceLiqChamber', force)
    S.use('GunnsFluidAccum::updateLiqChamber', lambda K, this, dt: K.assign(this, 'mBellowsPosition', R(UP)))
    S.use('GunnsFluidAccum::updatePressure', lambda K, this, dt: None)
    S.use('GunnsFluidAccum::transportAccumFluid', lambda K, this, w, n, f: K.assign(n, 'mOutfluxRate', n.mOutfluxRate + w))
    S.require(And(t.mMalfBellowsStickToPosValue >= 0, t.mMalfBellowsStickToPosValue <= 1, t.mEditBellowsPosition >= 0, t.mEditBellowsPosition <= 1))
    dt = S.real('dt', 0, 100)
    if cls == 'GunnsFluidAccumGas':
        S.use('GunnsFluidAccumGas::updatePressurizerFluid', lambda K, this, dt: None)
        S.require(And(t.mMalfBellowsRuptureBellowsPos >= 0, t.mMalfBellowsRuptureBellowsPos <= 1, t.mBellowsPosition >= 0, t.mBellowsPosition <= 1))
    o = S.snap()
    S.call('GunnsFluidAccum::updateFluid', t, dt, S.real('flow'))
    b = o(t)
    gas = cls == 'GunnsFluidAccumGas'
    stick, to = b.mMalfBellowsStickFlag, b.mMalfBellowsStickToPosFlag
    over = b.mPressurizerOrideBellowsFlag
    X = t.mBellowsPosition
    own = If(stick, b.mBellowsPosition, If(to, FO + b.mMalfBellowsStickToPosValue / 4, If(b.mEditBellowsFlag, FO + b.mEditBellowsPosition / 4, UP)))
    if gas:
        own = If(over, FO + If(b.mMalfBellowsRuptureFlag, b.mMalfBellowsRuptureBellowsPos, b.mBellowsPosition) / 4, own)
        S.ensure('a rupture cancels edits', Implies(And(over, b.mMalfBellowsRuptureFlag), And(Not(t.mEditBellowsFlag), Not(t.mEditPressureFlag))))
    else:
        own = If(over, b.mBellowsPosition, own)
    S.ensure('a malfunction goes before an edit, an edit before the flow', X == own)
    act = Not(over)
    S.ensure('bellows are stuck by the malfunctions only', t.mBellowsStuck == And(act, Or(stick, And(to, done))))
    S.ensure('a malfunction cancels edits and their timers', Implies(And(act, Or(stick, to)), And(Not(t.mEditBellowsFlag), t.mEditBellowsTimer == 0)))
    S.ensure('the hold time of an edit starts anew with each edit', Implies(And(act, Not(stick), Not(to), Not(b.mEditBellowsFlag)), t.mEditBellowsTimer == 0))
    if gas:
        S.ensure('a malfunction cancels pressure edits too', Implies(And(act, Or(stick, to)), And(Not(t.mEditPressureFlag), t.mEditPressureTimer == 0)))
    ed = And(act, Not(stick), Not(to), b.mEditBellowsFlag)
    S.ensure('an edit is held for its time once it is there, then over', Implies(ed, And(t.mEditBellowsFlag == Not(And(done, b.mEditBellowsTimer >= b.mEditHoldTime)), t.mEditBellowsTimer == If(And(done, b.mEditBellowsTimer < b.mEditHoldTime), b.mEditBellowsTimer + dt, b.mEditBellowsTimer))))
    S.ensure('flow rate carries the fluid of the side it comes from', t.mFlowRate == b.mFlux * If(b.mFlux > 0, k.n1.mOutflow.mMWeight, fl.mMWeight))
    S.ensure('the node is charged for that flow', k.n1.mOutfluxRate - o(k.n1).mOutfluxRate == t.mFlowRate)


def acc_pressure(S, cls):
    k = accum(S, cls)
    t, fl = k.this, k.fl
    g = None
    if cls == 'GunnsFluidAccumGas':
        g = S.obj('PolyFluid', 'gas')
        S.bind(t, 'mGasInternalFluid', g)
    S.require(t.mMaxPressure >= D(EPS))
    S.call('GunnsFluidAccum::updatePressure', t, S.real('dt', 0, 100))
    x = t.mBellowsPosition
    sp = x * x * t.mSpringCoeff2 + x * t.mSpringCoeff1 + t.mSpringCoeff0
    S.ensure('spring pressure by the bellows position', t.mSpringPressure == sp)
    S.ensure('liquid pressure balances spring, gas and acceleration head', fl.mPressure == clamp(sp + t.mAccelPressureHead + (g.mPressure if g is not None else 0), D(EPS), t.mMaxPressure))
    S.ensure('the sensor reads the node', t.mLiquidPressureReading == k.n1.mPotential)


def acc_cap(S, cls):
    k = accum(S, cls)
    t, fl = k.this, k.fl
    gas = cls == 'GunnsFluidAccumGas'
    S.require(And(t.mBellowsPosition >= 0, t.mBellowsPosition <= 1, fl.mMWeight > 0))
    if gas:
        g = S.obj('PolyFluid', 'gas')
        S.bind(t, 'mGasInternalFluid', g)
        cap = S.real('cap', 0, 1e9)
        if S.mode == 'con':
            raise Reject()
        S.use('GunnsFluidUtils::computeCapacitance', lambda K, f, v: cap)
    S.call(cls + '::updateCapacitance', t)
    x = t.mBellowsPosition
    sl = 2 * x * t.mSpringCoeff2 + t.mSpringCoeff1 + t.mAccelPressureHead / max_(x, D(EPS))
    ok = sl > D(EPS)
    sp = If(ok, t.mActiveVolRange * fl.mDensity / fl.mMWeight / If(ok, sl, 1), 0)
    S.ensure('spring takes up moles by its slope', t.mSpringCapacitance == sp)
    if not gas:
        S.ensure('liquid capacitance is that of the spring', t.mLiqCapacitance == sp)
    else:
        on = And(g.mDensity > 0, fl.mMWeight > 0)
        lq = cap * fl.mDensity * g.mMWeight / If(on, g.mDensity, 1) / fl.mMWeight
        spr = Or(t.mSpringCoeff0 > D(EPS), t.mSpringCoeff1 > D(EPS), t.mSpringCoeff2 > D(EPS))
        S.ensure('liquid capacitance is the smaller of gas and spring', t.mLiqCapacitance == If(on, If(spr, min_(lq, sp), lq), 0))
        S.ensure('gas capacitance of the pressurizer', t.mGasCapacitance == cap)


def validate_accum(S):
    this = S.obj('GunnsFluidAccum', 'this')
    S.dyn(this, 'GunnsFluidAccum')
    c, i = S.obj('GunnsFluidAccumConfigData', 'config'), S.obj('GunnsFluidAccumInputData', 'input')
    fl = S.obj('PolyFluidInputData', 'fluid')
    have = S.choice('have', [0, 1])
    S.bind_if(i, 'mLiquidFluidInputData', have == 1, fl, None)
    S.call('GunnsFluidAccum::validate', this, c, i, may_throw=True)
    ok = And(c.mMaxConductivity >= 0, c.mMinConductivityScale >= D(EPS), c.mMinConductivityScale <= 1, c.mAccumVolume > D(FEPS), c.mMinChamberVolPercent > 0, c.mMinChamberVolPercent < 50, c.mMinChamberVolDeadBandPercent > c.mMinChamberVolPercent, c.mMinChamberVolDeadBandPercent < 50,
             c.mForceBellowsMaxRate > 0, c.mEditHoldTime >= 0, c.mMinTemperature > 0, c.mMaxTemperature > c.mMinTemperature, c.mMaxPressure >= D(EPS), Not(And(c.mFillModePressureThreshold > D(EPS), c.mEffCondScaleOneWayRate < D(EPS))),
             i.mInitialBellowsPosition >= 0, i.mInitialBellowsPosition <= 1, have == 1)
    S.ensure('accepted iff the configuration makes sense', Not(S.threw) == ok)


def acc_rules(S):
    k = link(S, 'GunnsFluidAccum', 2, ncls='GunnsFluidNode')
    p, n = S.int('port', 0, 1), S.int('node', 0, 1000)
    S.require(n <= k.N)
    r = S.call('GunnsFluidAccum::checkSpecificPortRules', k.this, p, n)
    ph = k.nodes[n].mContent.mPhase
    S.ensure('gas port on gas or Ground, liquid port on liquid that is not Ground', r == If(p == 0, Or(n == k.N, ph == 0), And(n != k.N, ph == 1)))


def gasacc(S):
    S.bounded('2 gas constituents')
    k = accum(S, 'GunnsFluidAccumGas')
    t = k.this
    G = Fluids(S, 2, phase=0)
    k.n0 = node(S, G, 'gasNode')
    S.bind(k.np, 0, k.n0)
    k.gas = G.fluid('gas')
    S.bind(t, 'mGasInternalFluid', k.gas)
    k.G = G
    return k


def gas_update(S):
    S.bounded('2 gas constituents')
    G = Fluids(S, 2, phase=0)
    k = link(S, 'GunnsFluidAccumGas', 2, ncls='GunnsFluidNode')
    t = k.this
    n0 = node(S, G, 'gasNode')
    S.bind(k.np, 0, n0)
    g = G.fluid('gas')
    S.bind(t, 'mGasInternalFluid', g)
    cfg = S.obj('PolyFluidConfigData', 'fluidConfig')
    S.set(cfg, 'mNTypes', 2)
    S.bind(n0, 'mFluidConfig', cfg)
    invert_T(S)
    c = lambda f: f.mConstituents
    for f in (g, n0.mOutflow, n0.mInflow):
        S.require(And(c(f)[0].mMassFraction + c(f)[1].mMassFraction == 1, c(f)[0].mMassFraction >= 0, c(f)[1].mMassFraction >= 0))
    S.require(And(g.mMass >= D(EPS), t.mMinTemperature < t.mMaxTemperature, t.mMinTemperature > 0, t.mMaxPressure >= D(EPS)))
    dt = S.real('dt', 0, 100)
    w = t.mGasFlowRate
    S.require(Or(w == 0, abs_(w) > D(LIM)))
    # no constituent is left at an amount below the floor of the mixing function
    for st in (n0.mOutflow, n0.mInflow):
        pt = [g.mMass * c(g)[i].mMassFraction + w * dt * c(st)[i].mMassFraction for i in range(2)]
        S.require(all_(2, lambda i: Or(pt[i] == 0, pt[i] >= D(1e-20) * (g.mMass + w * dt))))
    T = temp_of(S, t, dt, w, n0.mOutflow.mSpecificEnthalpy, g, t.mGasHousingQ)
    if S.mode == 'sym':
        S.use('PolyFluid::computePressure', lambda K, this, T, rho: K.fresh_real('pressure'))
    o = S.snap()
    S.call('GunnsFluidAccumGas::updateGasChamber', t, dt, may_throw=True)
    S.ensure('never fails', Not(S.threw))
    if S.mode == 'con' and z3.is_true(S.threw):
        raise Reject()
    if S.mode == 'sym':
        S.st.pc += (Not(S.threw),)
    b, q = o(t), o(g)
    go = Not(b.mHoldAccumFlag)
    m = q.mMass + w * dt
    S.ensure('gas mass changes by what flows', Implies(And(go, m >= D(EPS)), g.mMass == m))
    src = o(n0).mOutflow
    S.ensure('inflow brings the gas that leaves the node', Implies(And(go, w > 0), all_(2, lambda i: c(g)[i].mMassFraction * m == q.mMass * q.mConstituents[i].mMassFraction + w * dt * src.mConstituents[i].mMassFraction)))
    alike = all_(2, lambda i: o(n0).mInflow.mConstituents[i].mMassFraction == src.mConstituents[i].mMassFraction)
    S.ensure('inflow is mixed in by mass: with the gas of the node where all its gas is alike', Implies(And(go, w > 0, alike), all_(2, lambda i: c(g)[i].mMassFraction * m == q.mMass * q.mConstituents[i].mMassFraction + w * dt * src.mConstituents[i].mMassFraction)))
    S.ensure('mass fractions still sum to one', Implies(go, c(g)[0].mMassFraction + c(g)[1].mMassFraction == 1))
    S.ensure('outflow keeps the composition', Implies(And(go, w <= 0), all_(2, lambda i: c(g)[i].mMassFraction == q.mConstituents[i].mMassFraction)))
    if S.mode == 'sym':
        S.ensure('gas takes the energy of the gas that flows in', Implies(go, g.mTemperature == T))
    S.ensure('a held accumulator stays as it is', Implies(Not(go), And(g.mMass == q.mMass, g.mTemperature == q.mTemperature, g.mPressure == q.mPressure)))
    S.ensure('pressure within its limits', Implies(And(go, b.mPressurizerVolume > 0), And(g.mPressure >= D(EPS), g.mPressure <= b.mMaxPressure)))


def gas_control(S):
    """rupture, edits and flow: what drives the gas chamber"""
    k = link(S, 'GunnsFluidAccumGas', 2, ncls='GunnsFluidNode')
    t = k.this
    n0 = S.obj('GunnsFluidNode', 'gasNode')
    S.dyn(n0, 'GunnsFluidNode')
    S.bind(k.np, 0, n0)
    g, fl = S.obj('PolyFluid', 'gas'), S.obj('PolyFluid', 'liquid')
    S.bind(t, 'mGasInternalFluid', g)
    S.bind(t, 'mInternalFluid', fl)
    if S.mode == 'con':
        raise Reject()
    done = S.bool('complete')
    UP = -7

    def force(K, this, dt, p, r, warm):
        K.assign(g, 'mPressure', p[0])
        K.assign(g, 'mDensity', If(warm, R(1), R(0)))
        K.assign(g, 'mViscosity', r[0])
        return done
    S.use('GunnsFluidAccumGas::forceGasChamber', force)
    S.use('GunnsFluidAccumGas::updateGasChamber', lambda K, this, dt: K.assign(g, 'mPressure', R(UP)))
    S.use('GunnsFluidAccum::transportAccumFluid', lambda K, this, w, n, f: K.assign(n, 'mOutfluxRate', n.mOutfluxRate + w))
    dt = S.real('dt', 0, 100)
    o = S.snap()
    S.call('GunnsFluidAccumGas::updatePressurizerFluid', t, dt)
    b = o(t)
    rup, eb, ep, re = b.mMalfBellowsRuptureFlag, b.mEditBellowsFlag, b.mEditPressureFlag, b.mEditsAreReactive
    sim = If(And(ep, eb), True, If(And(Not(ep), Not(eb)), False, b.mSimultaneousEditsInProgress))
    set_ = And(b.mPressureMalfSet, b.mBellowsMalfSet)
    hold = If(sim, True, And(eb, Not(re)))
    S.ensure('a rupture drives the chamber to its pressure until done, an edit to the edited or held pressure, else the flow fills it',
             g.mPressure == If(rup, If(set_, UP, b.mMalfBellowsRupturePress), If(ep, b.mEditPressureValue, If(hold, b.mEditHoldPressure, UP))))
    drv = Or(And(rup, Not(set_)), And(Not(rup), Or(ep, hold)))
    S.ensure('the chamber is driven at the rate of what drives it', Implies(drv, g.mViscosity == If(rup, b.mMalfBellowsRupturePressRate, If(ep, b.mEditPressureRate, b.mMaxForcePressureRate))))
    S.ensure('the gas is warmed by a rupture and by an edit free to react, a held chamber keeps its temperature', Implies(drv, g.mDensity == If(Or(rup, And(ep, re, Not(sim))), R(1), R(0))))
    S.ensure('a rupture overrides the bellows', Implies(rup, t.mPressurizerOrideBellowsFlag))
    S.ensure('a pressure edit holds the bellows unless they are edited or free to react', Implies(Not(rup), t.mPressurizerOrideBellowsFlag == And(ep, Not(eb), Or(Not(re), sim))))
    S.ensure('the rupture pressure is noted when reached, and forgotten after the malfunction', t.mPressureMalfSet == And(rup, Or(b.mPressureMalfSet, And(Not(set_), done))))
    S.ensure('the rupture position is forgotten after the malfunction', t.mBellowsMalfSet == And(rup, b.mBellowsMalfSet))
    tm = b.mEditPressureTimer
    S.ensure('a pressure edit is held for its time once it is there, then over', Implies(Not(rup), And(t.mEditPressureFlag == And(ep, Not(And(done, tm >= b.mEditHoldTime))), t.mEditPressureTimer == If(ep, If(And(done, tm < b.mEditHoldTime), tm + dt, tm), 0))))
    S.ensure('gas flow rate carries the gas of the side it comes from', t.mGasFlowRate == b.mGasFlux * If(b.mGasFlux > 0, n0.mOutflow.mMWeight, g.mMWeight))
    S.ensure('the node is charged for that flow', n0.mOutfluxRate - o(n0).mOutfluxRate == t.mGasFlowRate)
    S.ensure('the sensor reads the node', t.mGasPressureReading == n0.mPotential)


def gas_force(S, warm):
    S.bounded('2 gas constituents')
    G = Fluids(S, 2, phase=0)
    k = link(S, 'GunnsFluidAccumGas', 2, ncls='GunnsFluidNode')
    t = k.this
    n0 = node(S, G, 'gasNode')
    S.bind(k.np, 0, n0)
    g = G.fluid('gas')
    fl = S.obj('PolyFluid', 'liquid')
    S.bind(t, 'mGasInternalFluid', g)
    S.bind(t, 'mInternalFluid', fl)
    invert_T(S)
    S.require(And(t.mMaxPressure >= D(EPS), t.mMaxForcePressureRate > 0, t.mPressurizerVolume > 0, t.mMinTemperature < t.mMaxTemperature, t.mMinTemperature > 0))
    a, r = S.cell('double', 'pressure'), S.cell('double', 'rate')
    dt = S.real('dt', 0, 100)
    a0, r0 = a[0] + 0, r[0] + 0
    o = S.snap()
    done = S.call('GunnsFluidAccumGas::forceGasChamber', t, dt, a, r, bool(warm))
    b = o(t)
    T, Rt, x = clamp(a0, D(EPS), b.mMaxPressure), clamp(r0, 0, b.mMaxForcePressureRate), o(fl).mPressure
    want = If(T > x, min_(x + Rt * dt, T), If(T < x, max_(x - Rt * dt, T), x))
    S.ensure('gas is set so that the accumulator pressure moves to the target at its rate', g.mPressure == want - b.mSpringPressure)
    S.ensure('complete iff there', done == (want == T))
    if not warm:
        S.ensure('gas mass fills the chamber at its temperature', And(g.mTemperature == o(g).mTemperature, g.mMass == max_(b.mPressurizerVolume * g.mDensity, D(EPS))))


HARNESSES = [('rate edit', rate_edit), ('edit source tank', edit_source, ('GunnsFluidTank',)), ('edit source balloon', edit_source, ('GunnsFluidBalloon',)), ('tank flows', tank_flows), ('tank outputs', tank_outputs), ('validate tank', validate_tank)]
HARNESSES += [('tank update ' + c, tank_update, (c,)) for c in ('none', 'pressure', 'partial')] + [('tank command ' + c, tank_commands, (c,)) for c in ('rate', 'restart', 'temperature', 'pressure', 'partial')]
HARNESSES += [('inflation', inflation), ('inflatability', inflatability), ('volume edit', volume_edit), ('balloon step', balloon_step), ('balloon correction', balloon_correction), ('balloon rate edit', pp_correct), ('validate balloon', validate_balloon), ('balloon rules', balloon_rules)]
HARNESSES += [('chamber volumes', derive_vol), ('ramp', ramp), ('timer', timer), ('conductivity scale', scale), ('conductivity', conduct, ('GunnsFluidAccum',)), ('effective conductivity', eff_cond), ('accum transport', acc_transport), ('accum rates', acc_rates), ('accum temperature', acc_temp),
              ('liquid chamber', liq_update), ('force liquid', liq_force, (0,)), ('force liquid warm', liq_force, (1,)), ('validate accum', validate_accum), ('accum rules', acc_rules)]
HARNESSES += [('%s %s' % (n, c[11:]), f, (c,)) for n, f in (('state', acc_state), ('flows', acc_flows), ('update', acc_update), ('pressure', acc_pressure), ('capacitance', acc_cap)) for c in ACC]
HARNESSES += [('gas chamber', gas_update), ('gas control', gas_control), ('force gas', gas_force, (0,)), ('force gas warm', gas_force, (1,))]
