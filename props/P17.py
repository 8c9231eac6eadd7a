"""Fans, pumps, turbines, shafts, heat exchangers and other conductors that work on the fluid passing through."""
from gcv.api import *
from gcv.lib import *
from props import P09 as L, P16 as X
from props.P07 import uf_, ufn
import math
from gcv.sym import R
ID = 'P17'
FL = 'aspects/fluid/'
FILES = [FL + 'potential/%s.cpp' % c for c in ('GunnsGasFan', 'GunnsGasFanCurve', 'GunnsLiquidCentrifugalPump', 'GunnsPumpCavitation', 'GunnsFluidPressureHead')] + \
        [FL + 'source/%s.cpp' % c for c in ('GunnsGasDisplacementPump', 'GunnsLiquidDisplacementPump')] + \
        [FL + 'conductor/%s.cpp' % c for c in ('GunnsGasTurbine', 'GunnsDriveShaftSpotter', 'GunnsFluidHeatExchanger', 'GunnsFluidHxDynHtc', 'GunnsFluidCondensingHx', 'GunnsFluidCondensingHxSeparator', 'GunnsFluidPhaseChangeConductor', 'GunnsFluidTypeChangeConductor', 'GunnsFluidSensor', 'GunnsFluidSimpleQd', 'GunnsFluidPipe')]
SOURCES = sorted(set(X.SOURCES + FILES + ['core/GunnsNetworkSpotter.cpp', 'gunns-ts-models/common/sensors/TsNoise.cpp',  'aspects/dynamics/GunnsDynUtils.cpp', 'aspects/fluid/capacitor/GunnsFluidAccum.cpp', 'core/GunnsFluidPotential.cpp', 'ms-utils/math/root_finding/BrentMethod.cpp', 'ms-utils/math/root_finding/LaguerreMethod.cpp']))
META = dict(
    title='Fans, pumps, turbines and heat exchangers balance pressure, power and heat',
    statement='A fan or pump gives the pressure of its curve scaled by the affinity laws to its speed and inlet density, never below zero and none when it stands still, asks its motor for power as torque times speed, a displacement pump demands the volume its strokes sweep of the fluid at its inlet, and a cavitating pump loses the fraction of its pressure that cavitation has reached, between none and all; a turbine gives its shaft no more than the efficient part, between none and all, of the power of the flow, and a shaft changes speed by the sum of its torques, jam and friction. A heat exchanger moves through each segment, in the order of the flow, the heat its degraded coefficient allows, and its total, like that of a condensing one, is the sum over segments; condensate leaves the gas and enters the pool in equal amounts, and pools stay within what is there. Phase and type changing conductors, pipes, disconnects and sensors give one node what they take from the other, converted as configured, and show the flow and state that are there.',
    over=['inputs', 'histories'],
    quant='every speed, flow in either direction, fluid state, curve, coefficient, malfunction and time step the models accept',
    why='unit tests run each machine at a handful of operating points; the laws must hold over the whole map: at standstill, reversed flow, off-design density, full degradation and any sequence of states',
    files=FILES,
    mech=[('fans and pumps', 'aspects/fluid/potential/GunnsGasFan.cpp computeSourcePressure, updateState, updateFluid; GunnsPumpCavitation.cpp update; aspects/fluid/source/GunnsGasDisplacementPump.cpp updateState, updateFluid'),
          ('turbine and shaft', 'aspects/fluid/conductor/GunnsGasTurbine.cpp updateState, updateFluid, computeFlowRate; GunnsDriveShaftSpotter.cpp stepPreSolver, stepPostSolver'),
          ('heat exchangers', 'aspects/fluid/conductor/GunnsFluidHeatExchanger.cpp updateSegments; GunnsFluidHxDynHtc.cpp; GunnsFluidCondensingHx.cpp updateHeatExchanger; GunnsFluidCondensingHxSeparator.cpp'),
          ('other conductors', 'aspects/fluid/conductor/GunnsFluidPhaseChangeConductor.cpp, GunnsFluidTypeChangeConductor.cpp transportFluid')],
    note='bounded: 2 fluid constituents, 2 or 3 heat exchanger segments. Real arithmetic stands for floating point; square root, exponential and property correlations uninterpreted. Callee contracts assumed: collectInflux (P07, P09), computeConvectiveHeatFlux and predictConductivity (P09), the fan curve root finder (any root in any case), mixture operations (P07).')
EPS, FEPS, LIM = X.EPS, X.FEPS, X.LIM
RPM = 60 / (2 * D(math.pi))


def nodes(S, cls, phase=0, own=True):
    k = X.start(S, cls, 2, own=own, phase=phase)
    return k, k.this, k.fl, k.n


def heat_contract(S, name):
    """computeConvectiveHeatFlux(fluid, flow, coefficient, wall T): records its calls"""
    calls = []

    def f(K, fl, w, htc, tw):
        q = K.fresh_real('q')
        calls.append((w, htc, tw, q))
        K.assign(fl, 'mTemperature', X.T_(K))
        return q
    S.use('GunnsFluidUtils::computeConvectiveHeatFlux(PolyFluid*, double, double, double)', f)
    return calls


def hx(S, fwd):
    n = 3
    S.bounded('3 segments')
    k, this, fl, nd = nodes(S, 'GunnsFluidHeatExchanger')
    S.set(this, 'mNumSegs', n)
    A = {}
    for f, t in (('mSegHtc', 'double'), ('mSegHtcDefault', 'double'), ('mSegTemperature', 'double'), ('mSegEnergyGain', 'double'), ('mMalfSegDegradeFlag', 'bool'), ('mMalfSegDegradeValue', 'double')):
        A[f] = S.arr(t, n, f)
        S.bind(this, f, A[f])
    if S.mode == 'con':
        raise Reject()
    calls = heat_contract(S, 'q')
    temps = []
    S.use('PolyFluid::setTemperature', lambda K, this, T: (temps.append((len(calls), T)), K.assign(this, 'mTemperature', T))[-1])
    dt, w = S.real('dt', 0, 100), S.real('flow')
    S.require(And(dt > D(EPS), w > D(EPS) if fwd == 1 else w < -D(EPS) if fwd == -1 else abs_(w) <= D(EPS)))
    for i in range(n):
        S.require(A['mSegHtcDefault'][i] >= 0)
    o = S.snap()
    S.call('GunnsFluidHeatExchanger::updateFluid', this, dt, w)
    t = o(this)
    g, hd = A['mSegEnergyGain'], A['mSegHtcDefault']
    S.ensure('each coefficient is its own, less its own degradation or that of the whole', conj([A['mSegHtc'][i] == clamp(hd[i] * If(o(A['mMalfSegDegradeFlag'])[i], A['mMalfSegDegradeValue'][i], If(t.mMalfHxDegradeFlag, t.mMalfHxDegradeValue, 1)), 0, hd[i]) for i in range(n)]))
    S.ensure('total heat is the sum of the segments', this.mTotalEnergyGain == g[0] + g[1] + g[2])
    S.ensure('temperature change is that of the fluid leaving', this.mDeltaTemperature == fl.mTemperature - nd[0].mOutflow.mTemperature)
    if not fwd:
        S.ensure('no flow, no heat', And(*[g[i] == 0 for i in range(n)]))
        return
    order = list(range(n))[::fwd]
    S.ensure('the segments see the flow one after another', And(*[And(c[0] == w, c[1] == A['mSegHtc'][i], c[2] == A['mSegTemperature'][i], g[i] == c[3]) for c, i in zip(calls, order)]))


def hx_htc(S):
    this = S.obj('GunnsFluidHxDynHtcSegment', 'this')
    S.dyn(this, 'GunnsFluidHxDynHtcSegment')
    S.require(this.mLimit >= 0)
    m, d = S.real('flow'), S.real('degradation', 0, 1)
    h = S.call('GunnsFluidHxDynHtcSegment::update', this, m, d)
    a = min_(10, abs_(m))
    S.ensure('coefficient grows with the flow by its power law, degraded, between zero and its limit', h == clamp(d * (this.mCoeff0 + If(a > D(FEPS), this.mCoeff1 * S.pow(a, clamp(this.mExponent, D(0.05), 20)), 0)), 0, this.mLimit))


def hx_dyn(S):
    n = 3
    S.bounded('3 segments')
    k, this, fl, nd = nodes(S, 'GunnsFluidHxDynHtc')
    S.set(this, 'mNumSegs', n)
    A = {}
    for f, t in (('mSegHtc', 'double'), ('mMalfSegDegradeFlag', 'bool'), ('mMalfSegDegradeValue', 'double')):
        A[f] = S.arr(t, n, f)
        S.bind(this, f, A[f])
    s = S.arr('GunnsFluidHxDynHtcSegment', n, 'segments')
    S.bind(this, 'mSegsDynHtc', s)
    for i in range(n):
        S.dyn(S.addr_at(s, i), 'GunnsFluidHxDynHtcSegment')
    if S.mode == 'con':
        raise Reject()
    calls = []
    S.use('GunnsFluidHxDynHtcSegment::update', lambda K, this, m, d: (calls.append((m, d, K.fresh_real('h'))), calls[-1][2])[1])
    S.call('GunnsFluidHxDynHtc::computeHeatTransferCoefficient', this)
    deg = lambda i: clamp(If(A['mMalfSegDegradeFlag'][i], A['mMalfSegDegradeValue'][i], If(this.mMalfHxDegradeFlag, this.mMalfHxDegradeValue, 1)), 0, 1)
    S.ensure('each segment by the flow and its own degradation or that of the whole', conj([And(A['mSegHtc'][i] == calls[i][2], calls[i][0] == this.mFlowRate, calls[i][1] == deg(i)) for i in range(n)]))


def wall(S, cls):
    """a conductor with a wall"""
    k, this, fl, nd = nodes(S, cls)
    if S.mode == 'con':
        raise Reject()
    seen = []
    S.use('GunnsFluidUtils::computeConvectiveHeatFlux(PolyFluid*, double, double, double, double, double)', lambda K, f, *a: (seen.append((a, K.fresh_real('q'))), seen[-1][1])[1])
    w = S.real('flow')
    if cls == 'GunnsFluidSimpleQd':
        o = S.snap()
        S.call('GunnsFluidSimpleQd::updateState', this, S.real('dt', 0, 100))
        S.ensure('conducts when connected only', this.mEffectiveConductivity == If(this.mState == 1, this.mMaxConductivity, 0))
    S.call(cls + '::updateFluid', this, S.real('dt', 0, 100), w)
    (a, q), = seen
    S.ensure('wall gets the heat of the flow through its own geometry', And(this.mWallHeatFlux == q, a[0] == w, a[1] == this.mThermalROverD, a[2] == this.mThermalDiameter, a[3] == this.mThermalSurfaceArea, a[4] == this.mWallTemperature))


def sensor(S):
    k, this, fl, nd = nodes(S, 'GunnsFluidSensor')
    pp = this.mPartialPressure
    o = S.snap()
    S.call('GunnsFluidSensor::updateSensedValues', this)
    c = [n.mContent for n in nd]
    S.ensure('temperature and pressure are those of the first node', And(this.mTemperature == c[0].mTemperature, this.mPressure == c[0].mPressure))
    S.ensure('pressure difference is that between the nodes', this.mDeltaPressure == c[0].mPressure - c[1].mPressure)
    S.ensure('flow rates are those of the flow', And(this.mMassFlowRate == this.mFlowRate, this.mVolumetricFlowRate == this.mVolFlowRate))
    S.ensure('partial pressures by type of fluid', And(*[pp[i] == c[0].mConstituents[i].mFluid.mPressure for i in (0, 1)]))


def change(S, cls):
    """what leaves one node enters the other, converted"""
    k, this, fl, nd = nodes(S, cls)
    F = k.F
    w = this.mFlowRate
    if S.mode == 'con':
        raise Reject()
    S.use('PolyFluid::setTemperature', lambda K, this, T: K.assign(this, 'mTemperature', T))
    if cls == 'GunnsFluidPhaseChangeConductor':
        gf, lf = F.fluid('gas'), F.fluid('liquid')
        S.bind(this, 'mGasFluid', gf)
        S.bind(this, 'mLiquidFluid', lf)
        S.set(this, 'mLiquidType', 0)
        S.set(this, 'mGasType', 1)
        P = X.prop(S, F, 'SaturationTemperature', 'HeatOfVaporization')
        S.use('FluidProperties::getSpecificEnthalpy', lambda K, this, x, y: F._uf(K, 'SpecificEnthalpy', this, x, y))
    else:
        work = S.arr('double', 2, 'work')
        S.bind(this, 'mWorkMoleFractions', work)
        S.set(this, 'mNumTypes', 1)
        for f, x in (('mIndexPort0', 0), ('mIndexPort1', 1)):
            a = S.arr('int', 1, f)
            S.write(a, 0, x)
            S.bind(this, f, a)
        def mix(K, this, mole, fr):
            K.assign(this, 'mMole', mole)
            for i in (0, 1):
                K.assign(this.mConstituents[i], 'mMoleFraction', K.snap()(fr)[i])
        S.use('PolyFluid::setMoleAndMoleFractions', mix)

    def collect(K, this, w, fluid):
        """the node takes over the state of what enters"""
        L.collect(K, this, w, fluid)
        for x in ('mTemperature', 'mMole'):
            K.assign(this.mInflow, x, getattr(fluid, x))
        for i in (0, 1):
            K.assign(this.mInflow.mConstituents[i], 'mMoleFraction', fluid.mConstituents[i].mMoleFraction)
    S.use('GunnsFluidNode::collectInflux', collect)
    o = S.snap()
    S.call(cls + '::transportFluid', this, False, 0, 1)
    lim = D(LIM)
    S.ensure('what flows leaves one node and enters the other', And(*[X.into(o, nd[i]) == If(abs_(w) > lim, w if i else -w, 0) for i in (0, 1)]))
    out, into = [o(n).mOutflow for n in nd], [n.mInflow for n in nd]
    goes = lambda i: w > lim if i else w < -lim
    if cls == 'GunnsFluidTypeChangeConductor':
        S.ensure('at the temperature it left with', And(*[Implies(goes(i), into[i].mTemperature == out[1 - i].mTemperature) for i in (0, 1)]))
        S.ensure('with the types of one side made those of the other', And(*[Implies(goes(i), And(into[i].mMole == out[1 - i].mMole, into[i].mConstituents[i].mMoleFraction == out[1 - i].mConstituents[1 - i].mMoleFraction, into[i].mConstituents[1 - i].mMoleFraction == 0)) for i in (0, 1)]))
        return
    sat = [P('SaturationTemperature', 1, k.pv[1]), P('SaturationTemperature', 0, k.pv[0])]
    exitT = If(this.mEfficiency != 0, If(w >= 0, sat[0], sat[1]), If(w >= 0, out[0].mTemperature, out[1].mTemperature))
    h = lambda i, T: F.get('SpecificEnthalpy', i, T, R(0))
    hv = lambda i: P('HeatOfVaporization', i, exitT) * 1000
    q = this.mEfficiency * abs_(w) * If(w >= 0, h(0, out[0].mTemperature) - h(0, exitT) - hv(0), h(1, out[1].mTemperature) - h(1, exitT) + hv(1))
    S.ensure('leaves at the saturation temperature of its new phase, or unchanged when nothing is exchanged', And(*[Implies(goes(i), into[i].mTemperature == exitT) for i in (0, 1)]))
    S.ensure('the wall gets the efficient part of the heat of the change, but none from a colder fluid and gives none to a warmer one', Implies(this.mEfficiency != 0, this.mWallHeatFlux == If(Or(And(q < 0, this.mWallTemperature < exitT), And(q > 0, this.mWallTemperature > exitT)), 0, q)))
    S.ensure('no flow or no efficiency, no heat', Implies(Or(w == 0, this.mEfficiency == 0), this.mWallHeatFlux == 0))


def fan_pressure(S):
    k, this, fl, nd = nodes(S, 'GunnsGasFan')
    if S.mode == 'con':
        raise Reject()
    S.dyn(S.addr(this, 'mCurve'), 'GunnsGasFanCurve')
    S.require(And(this.mReferenceDensity > D(EPS), this.mReferenceSpeed > D(EPS), this.mReferenceCoeffs[0] > D(EPS), this.mFilterGain >= 0, this.mFilterGain <= 1, this.mReferenceQ >= 0))
    root = []

    def improve(K, curve, q, c, mx):
        z = K.snap()(c)
        root.append(([z[i] for i in range(6)], mx))
        K.assign(q, None, K.fresh_real('root'))
        t = K.fresh_bool('fails')
        K.throws(t, '_ZTI20TsNumericalException')
    S.use('GunnsGasFanCurve::improveRoot', improve)
    o = S.snap()
    S.call('GunnsGasFan::computeSourcePressure', this)
    t = o(this)
    up = X.upstream(k, t.mFlux)
    rho = If(up == 1, nd[1].mOutflow.mDensity, nd[0].mOutflow.mDensity)
    on = And(t.mImpellerSpeed > D(FEPS), rho > D(FEPS))
    sf = t.mImpellerSpeed / t.mReferenceSpeed
    a = this.mAffinityCoeffs
    S.ensure('never negative', this.mSourcePressure >= 0)
    S.ensure('no pressure at standstill or without fluid', Implies(Not(on), this.mSourcePressure == 0))
    S.ensure('the curve follows the affinity laws', Implies(on, And(*[a[i] == t.mReferenceCoeffs[i] * (rho / t.mReferenceDensity) * S.pow(sf, D(2.0 - i)) for i in range(6)])))
    q = this.mSourceQ
    S.ensure('pressure is that of the curve at its flow', Implies(on, this.mSourcePressure == max_(0, a[0] + sum(a[i] * q ** i for i in range(1, 6)))))
    (c, mx), = root
    S.ensure('its flow is sought where the curve meets the system, up to the largest', Implies(on, And(mx == t.mReferenceQ * sf, *[c[i] == a[i] - (If(this.mSystemConstant > D(EPS), 1 / this.mSystemConstant / this.mSystemConstant, 0) if i == 2 else 0) for i in range(6)])))
    g = max_(t.mReferenceQ * sf * D(0.0001), t.mVolFlowRate) / S.sqrt(clamp(t.mSourcePressure, D(EPS), a[0]))
    S.ensure('system constant is the filtered one of flow over root of pressure', Implies(And(on, a[0] >= D(EPS)), this.mSystemConstant == t.mFilterGain * g + (1 - t.mFilterGain) * t.mSystemConstant))


def fan_state(S, cls):
    k, this, fl, nd = nodes(S, cls)
    if S.mode == 'con':
        raise Reject()
    p = S.real('curve pressure')
    S.use('GunnsGasFan::computeSourcePressure', lambda K, this: K.assign(this, 'mSourcePressure', p))
    sc = S.real('cavitated')
    seen = []
    if cls == 'GunnsLiquidCentrifugalPump':
        def cav(K, c, src, dt, node, ty):
            seen.append((src[0], dt, node, ty[0]))
            K.assign(src, None, sc)
        S.use('GunnsPumpCavitation::update', cav)
    dt = S.real('dt', 0, 100)
    o = S.snap()
    S.call(cls + '::updateState', this, dt)
    t = o(this)
    S.ensure('impeller turns by the drive ratio', this.mImpellerSpeed == If(t.mDriveRatio > D(EPS), t.mMotorSpeed / If(t.mDriveRatio > D(EPS), t.mDriveRatio, 1), t.mImpellerSpeed))
    dp = p + nd[0].mOutflow.mPressure - nd[1].mOutflow.mPressure
    S.ensure('check valve opens for forward pressure', this.mCheckValvePosition == If(Or(dp > 0, Not(t.mCheckValveActive)), 1, 0))
    S.ensure('conducts by the check valve', this.mEffectiveConductivity == t.mMaxConductivity * this.mCheckValvePosition)
    if seen:
        (q, d, node, ty), = seen
        S.ensure('cavitation works on the pressure of the curve, at the inlet', And(q == p, d == dt, S.same(node, nd[0]), ty == t.mLiquidType, this.mSourcePressure == sc))
    else:
        S.ensure('pressure of the curve', this.mSourcePressure == p)


def fan_power(S):
    k, this, fl, nd = nodes(S, 'GunnsGasFan')
    X.contracts(S)
    if S.mode == 'con':
        raise Reject()
    S.require(And(this.mReferenceDensity > D(EPS), this.mReferenceSpeed > D(EPS)))
    S.require(this.mReferenceQ >= 0)
    o = S.snap()
    S.call('GunnsGasFan::updateFluid', this, S.real('dt', 0, 100), S.real('flow'))
    t = o(this)
    sr = t.mImpellerSpeed / t.mReferenceSpeed
    on = And(t.mSpecificSpeed > 0, t.mImpellerSpeed > D(FEPS))
    x = clamp(t.mVolFlowRate, 0, t.mReferenceQ * sr) / max_(t.mReferenceQBep * sr, D(EPS))
    c = t.mPowerCoeffs
    pw = sr * sr * sr * t.mReferencePowerBep * (nd[0].mOutflow.mDensity / t.mReferenceDensity) * (c[0] + c[1] * x + c[2] * x * x + c[3] * x * x * x)
    S.ensure('power by the affinity laws of the power curve, or of the pressure given to the flow', this.mImpellerPower == If(on, pw, abs_(t.mVolFlowRate) * t.mSourcePressure * 1000))
    turns = And(t.mMotorSpeed > D(FEPS), t.mDriveRatio > D(EPS))
    S.ensure('torque times speed is the power taken from the motor', If(turns, -this.mImpellerTorque * t.mMotorSpeed == this.mImpellerPower * RPM, this.mImpellerTorque == 0))


def displace(S, cls):
    """displacement pump: demanded mass flow"""
    k, this, fl, nd = nodes(S, cls)
    liquid = cls == 'GunnsLiquidDisplacementPump'
    if liquid:
        if S.mode == 'con':
            raise Reject()

        def cav(K, c, src, dt, node, ty):
            K.assign(src, None, ufn('cavitated', If(S.same(node, nd[0]), R(0), If(S.same(node, nd[1]), R(1), R(2))), K.snap()(src)[0], dt, R(ty[0])))
        S.use('GunnsPumpCavitation::update', cav)
    dt = S.real('dt', 0, 100)
    o = S.snap()
    S.call('GunnsGasDisplacementPump::updateState', this, dt)
    t = o(this)
    S.ensure('impeller turns by the drive ratio', this.mImpellerSpeed == If(t.mDriveRatio > D(EPS), t.mMotorSpeed / If(t.mDriveRatio > D(EPS), t.mDriveRatio, 1), t.mImpellerSpeed))
    v = this.mImpellerSpeed * t.mCycleVolume / 60
    S.ensure('check valve shuts on reverse flow', this.mCheckValvePosition == If(Or(v > 0, Not(t.mCheckValveActive)), 1, 0))
    v = If(Or(v > 0, Not(t.mCheckValveActive)), v, 0)
    if liquid:
        S.ensure('cavitation works on the displaced volume, at the inlet, by the type of liquid', this.mVolFlowRate == ufn('cavitated', If(v >= 0, R(0), R(1)), v, dt, R(t.mLiquidType)))
        v = this.mVolFlowRate
    else:
        S.ensure('volume displaced each cycle', this.mVolFlowRate == v)
    S.ensure('demands the displaced volume of the fluid at the inlet', this.mFlowDemand == v * If(this.mImpellerSpeed > 0, nd[0].mContent.mDensity, nd[1].mContent.mDensity))


def displace_power(S):
    k, this, fl, nd = nodes(S, 'GunnsGasDisplacementPump')
    X.contracts(S)
    if S.mode == 'con':
        raise Reject()
    heat = []

    def h(K, fl, flow, rod, dia, area, tw):
        q = K.fresh_real('q')
        heat.append((K.snap()(fl).mTemperature, flow, rod, dia, area, tw, q, fl))
        return q
    S.use('GunnsFluidUtils::computeConvectiveHeatFlux(PolyFluid*, double, double, double, double, double)', h)
    o = S.snap()
    w = S.real('flow')
    S.call('GunnsGasDisplacementPump::updateFluid', this, S.real('dt', 0, 100), w)
    t = o(this)
    S.ensure('power is volume flow times pressure', this.mImpellerPower == 1000 * abs_(t.mVolFlowRate * t.mPotentialDrop))
    turns = And(abs_(t.mMotorSpeed) > D(FEPS), t.mDriveRatio > D(EPS))
    S.ensure('torque times speed is the power taken from the motor', If(turns, -this.mImpellerTorque * t.mMotorSpeed == this.mImpellerPower * RPM, this.mImpellerTorque == 0))
    (T, f, rod, dia, area, tw, q, g), = heat
    up = X.upstream(k, t.mFlux)
    S.ensure('the wall trades heat with the fluid from upstream', And(S.same(g, fl), T == If(up == 1, nd[1].mOutflow.mTemperature, nd[0].mOutflow.mTemperature), f == w, rod == t.mThermalROverD, dia == t.mThermalDiameter, area == t.mThermalSurfaceArea, tw == t.mWallTemperature, this.mWallHeatFlux == q))


def cavitation(S):
    F = Fluids(S, 1, phase=1)
    this = S.obj('GunnsPumpCavitation', 'this')
    S.dyn(this, 'GunnsPumpCavitation')
    nd = S.obj('GunnsFluidNode', 'node')
    S.dyn(nd, 'GunnsFluidNode')
    F.fluid('content', obj=nd.mContent)
    if S.mode == 'con':
        raise Reject()
    pv, noise = S.real('vapor pressure'), S.real('noise')
    S.use('GunnsPumpCavitation::computeVaporPressure', lambda K, this, ty, n: K.assign(this, 'mInletVaporPressure', pv))
    S.use('TsNoise::getNoise', lambda K: noise)
    src = S.cell('double', 'source')
    dt = S.real('dt', 0, 100)
    S.require(And(this.mCavitationFraction >= 0, this.mCavitationFraction <= 1, src[0] >= 0, this.mCavitationElapsedTime >= 0))
    o = S.snap()
    S.call('GunnsPumpCavitation::update', this, src, dt, nd, S.int('type', 0, 5))
    t = o(this)
    auto = And(t.mEnableAutoCavitation, nd.mContent.mPressure < pv)
    full = Or(t.mMalfFullCavitationFlag, auto)
    part = t.mMalfPartialCavitationFlag
    dur = max_(D(EPS), If(t.mMalfFullCavitationFlag, t.mMalfFullCavitationDuration, If(auto, t.mAutoCavitationDuration, If(part, t.mMalfPartialCavitationDuration, t.mDuration))))
    f0, f1 = t.mCavitationFraction, this.mCavitationFraction
    amp = If(t.mMalfFullCavitationFlag, t.mMalfPartialCavitationAmplitude, If(auto, t.mAutoCavitationAmplitude, t.mMalfPartialCavitationAmplitude))
    el = If(Or(full, part), t.mCavitationElapsedTime + dt, 0)
    S.ensure('fraction between none and all', And(f1 >= 0, f1 <= 1))
    S.ensure('cavitation grows while it lasts and recovers after', And(Implies(full, f1 >= f0), Implies(Not(full), f1 <= f0)))
    S.ensure('at the rate of its duration', f1 == clamp(If(full, f0 + 2 * S.sqrt(max_(f0, D(0.01))) * dt / dur, f0 - 2 * S.sqrt(1 - min_(f0, D(0.99))) * dt / dur), 0, 1))
    S.ensure('time of cavitation', this.mCavitationElapsedTime == el)
    nf = If(Or(full, part), amp * max_(0, 1 - el / dur), 0)
    S.ensure('the pump loses the fraction, with the noise while it washes out', src[0] == If(nf > 0, max_(0, o(src)[0] * (1 - f1) + nf * noise), o(src)[0] * (1 - f1)))
    S.ensure('never sucks', src[0] >= 0)


def head(S, what, rot):
    """pressure head of a column of fluid under acceleration"""
    this = S.obj('GunnsFluidPressureHead', 'this')
    S.dyn(this, 'GunnsFluidPressureHead')
    cls = {'potential': 'GunnsFluidPotential', 'accum': 'GunnsFluidAccum'}[what]
    k, l, fl, nd = nodes(S, cls)
    for f, c in (('mPotentialLink', 'potential'), ('mAccumLink', 'accum')):
        S.bind(this, f, l if c == what else None)
    dcm, acc = S.arr('double', 9, 'dcm'), S.arr('double', 3, 'acceleration')
    S.bind(this, 'mRotationDcm', dcm if rot else None)
    S.bind(this, 'mAcceleration', acc)
    S.set(this, 'mTransposeRotation', rot == 'transposed')
    o = S.snap()
    S.call('GunnsFluidPressureHead::stepPreSolver', this, S.real('dt', 0, 100))
    t, a, m = o(this), o(acc), o(dcm)
    v = [If(t.mReverseAcceleration, -a[i], a[i]) for i in range(3)]
    if rot:
        v = [sum(m[3 * j + i if rot == 'transposed' else 3 * i + j] * v[j] for j in range(3)) for i in range(3)]
    d = [n.mContent.mDensity for n in nd]
    h = sum(v[i] * t.mFluidColumn[i] for i in range(3)) * D(0.001)
    h = h * (min_(*d) if what == 'potential' else d[1] * o(l).mBellowsPosition)
    S.ensure('head is density times the acceleration along the column', this.mPressureHead == h)
    S.ensure('and is what the link adds', (l.mSourcePressure if what == 'potential' else l.mAccelPressureHead) == h)
    S.ensure('the vectors are kept', And(*[acc[i] == a[i] for i in range(3)], *[this.mFluidColumn[i] == t.mFluidColumn[i] for i in range(3)]))


def shaft(S, what):
    S.bounded('a turbine and a fan')
    this = S.obj('GunnsDriveShaftSpotter', 'this')
    S.dyn(this, 'GunnsDriveShaftSpotter')
    l, nd, fl = [], [], []
    for c, f in (('GunnsGasTurbine', 'mTurbRef'), ('GunnsGasFan', 'mFanRef')):
        x = S.obj(c, c)
        S.dyn(x, c)
        S.bind(S.vec(this, f, c + '*', 1, f), 0, x)
        l.append(x)
        np = S.arr('GunnsBasicNode*', 2, c + ' nodes')
        for i in (0, 1):
            n = S.obj('GunnsFluidNode', '%s node %d' % (c, i))
            S.dyn(n, 'GunnsFluidNode')
            S.bind(np, i, n)
            nd.append(n)
        S.bind(x, 'mNodes', np)
        S.set(x, 'mNumPorts', 2)
    if S.mode == 'con':
        raise Reject()
    ent = [S.real('h%d' % i) for i in range(4)]
    S.use('PolyFluid::getSpecificEnthalpy', lambda K, this: next(If(True, e, e) for e, n in zip(ent, nd) if S.same(this, n.mContent) is True or z3.is_true(S.same(this, n.mContent))))
    dt = S.real('dt', 0, 100)
    S.require(this.mInertia > D(EPS))
    o = S.snap()
    if what == 'pre':
        S.call('GunnsDriveShaftSpotter::stepPreSolver', this, dt)
        t = o(this)
        fr = -t.mFrictionConstant * max_(t.mMotorSpeed, t.mFrictionMinSpeed)
        w = max_(D(EPS), t.mMotorSpeed + (t.mTotalExternalLoad + fr) * dt * RPM / t.mInertia)
        S.ensure('friction against the turning', this.mFrictionTorque == fr)
        S.ensure('speed changes by load and friction over inertia, never backward, or is the overriding one', this.mMotorSpeed == If(t.mMalfSpeedOverrideFlag, t.mMalfSpeedOverrideValue, w))
        S.ensure('all on the shaft turn with it', And(*[x.mMotorSpeed == this.mMotorSpeed for x in l]))
        return
    S.call('GunnsDriveShaftSpotter::stepPostSolver', this, dt)
    t = o(this)
    load = l[0].mImpellerTorque + l[1].mImpellerTorque
    S.ensure('load is the sum of the torques, less the jam', this.mTotalExternalLoad == load * (1 - If(t.mMalfJamFlag, t.mMalfJamValue, 0)))
    pt = If(l[0].mInitFlag, l[0].mEfficiency * l[0].mFlowRate * (ent[0] - ent[1]) - l[0].mWallHeatFlux, 0)
    pf = If(l[1].mInitFlag, l[1].mFlowRate * (ent[3] - ent[2]) - l[1].mWallHeatFlux, 0)
    S.ensure('power of turbine and fan are those of their flows', And(this.mPowerOutTurb == pt, this.mPowerInFan == pf))
    S.ensure('excess power is their difference', this.mPowerExcess == this.mPowerOutTurb - this.mPowerInFan)


def chx(S, what):
    """condensing heat exchanger, its water separator and their pools"""
    n = 2
    sep = what in ('evaporate', 'wet coefficient', 'slurper', 'separator', 'wet flow')
    cls = 'GunnsFluidCondensingHxSeparator' if sep else 'GunnsFluidCondensingHx'
    k, this, fl, nd = nodes(S, cls)
    F = k.F
    S.set(this, 'mNumSegments', n)
    hq, ts = S.arr('double', n, 'mSegmentHeat'), S.arr('double', n, 'mSegmentTemperature')
    S.bind(this, 'mSegmentHeat', hq)
    S.bind(this, 'mSegmentTemperature', ts)
    cf = F.fluid('condensate')
    S.bind(this, 'mCondensateFluid', cf)
    dt, lim = S.real('dt', 0, 100), D(LIM)
    o = S.snap()
    t = o(this)
    if what == 'coefficient':
        S.call(cls + '::computeHeatTransferCoefficient', this)
        a = min_(10, abs_(t.mFlowRate))
        S.ensure('coefficient grows with the flow by its power law, between zero and its limit, shared by the segments', this.mSegmentHtc == max_(0, min_(t.mHtcCoeff0 + If(a > D(FEPS), t.mHtcCoeff1 * S.pow(a, clamp(t.mHtcExponent, D(0.05), 20)), 0), t.mHtcLimit)) / n)
        return
    if what == 'degrade':
        S.call(cls + '::degradeHeatTransferCoefficient', this)
        S.ensure('coefficient degraded by its malfunction', this.mSegmentHtc == t.mSegmentHtc * If(t.mMalfHxDegradeFlag, max_(0, t.mMalfHxDegradeValue), 1))
        return
    if what == 'wet flow':
        S.call(cls + '::updateState', this, dt)
        S.ensure('the pool blocks the flow by its factor', this.mEffectiveConductivity == t.mEffectiveConductivity * clamp(1 - t.mHxWetFlowFactor * t.mHxCondensateMass, 0, 1))
        S.ensure('drum turns by the drive ratio', this.mWsDrumSpeed == If(t.mWsDriveRatio > D(EPS), t.mWsMotorSpeed / If(t.mWsDriveRatio > D(EPS), t.mWsDriveRatio, 1), t.mWsDrumSpeed))
        S.ensure('torque on the motor by the speed of the drum', this.mWsMotorTorque == this.mWsDrumSpeed * t.mWsTorqueFactor)
        return
    if what == 'slurper':
        S.require(And(this.mSlurperState >= 0, this.mSlurperState <= 2))
        S.call(cls + '::updateSlurper', this)
        DRY, WET, FLOW = 0, 1, 2
        can = And(t.mWsDrumSpeed > D(FEPS), t.mHxCondensateMass > D(FEPS))
        cond = t.mCondensationRate > D(FEPS)
        s0, s1 = t.mSlurperState, this.mSlurperState
        S.ensure('the slurper flows on while it can', Implies(s0 == FLOW, s1 == If(can, FLOW, If(cond, WET, DRY))))
        S.ensure('paused wet, until dry or the pool is large enough', Implies(s0 == WET, s1 == If(And(Not(can), Not(cond)), DRY, If(t.mHxCondensateMass > t.mSlurperFlowMassWet, FLOW, WET))))
        S.ensure('paused dry, until the pool is large enough', Implies(s0 == DRY, s1 == If(t.mHxCondensateMass > t.mSlurperFlowMassDry, FLOW, DRY)))
        S.ensure('flow by the speed of the drum', this.mSlurperFlowRate == If(s1 == FLOW, t.mSlurperFlowFactor * t.mWsDrumSpeed, 0))
        return
    if S.mode == 'con':
        raise Reject()
    if what == 'transport':
        pass
        X.contracts(S)
        S.call(cls + '::transportFluid', this, False, 0, 1)
        w, wi = t.mFlowRate, o(fl).mFlowRate
        S.ensure('the gas leaves one node and enters the other less the condensate', And(X.into(o, nd[0]) == If(abs_(w) > lim, -w, 0), X.into(o, nd[1]) == If(w > lim, wi, If(w < -lim, w, 0))))
        return
    if what == 'fluid':
        pass
        r = S.real('condensation')
        S.require(cf.mMWeight > 0)
        order = []
        S.use(cls + '::computeHeatTransferCoefficient', lambda K, this: order.append(1))
        S.use(cls + '::degradeHeatTransferCoefficient', lambda K, this: order.append(2))
        S.use(cls + '::updateHeatExchanger', lambda K, this, dt: (order.append(3), K.assign(this, 'mCondensationRate', r))[1])
        S.call(cls + '::updateFluid', this, dt, S.real('flow'))
        S.ensure('the condensate leaves the gas at the second node', And(this.mSourceVector[0] == 0, this.mSourceVector[1] == If(abs_(r) > lim, -r / cf.mMWeight, 0)))
        S.ensure('the fluid starts at the whole flow', fl.mFlowRate == abs_(t.mFlowRate))
        S.ensure('with the coefficient of the flow, degraded', order == [1, 2, 3])
        return
    if what == 'wet coefficient':
        h = S.real('dry')
        S.use('GunnsFluidCondensingHx::computeHeatTransferCoefficient', lambda K, this: K.assign(this, 'mSegmentHtc', h))
        S.call(cls + '::computeHeatTransferCoefficient', this)
        S.ensure('the pool changes the coefficient by its factor, never below zero', this.mSegmentHtc == h * max_(0, 1 + t.mHxWetHtcFactor * t.mHxCondensateMass))
        return
    S.use('PolyFluid::find', lambda K, this, ty: 0)
    S.use('PolyFluid::addState(PolyFluid const*, double)', lambda K, this, f, r: K.assign(this, 'mFlowRate', this.mFlowRate + r))
    for f in ('setPressure', 'setTemperature'):
        S.use('PolyFluid::' + f, lambda K, this, x, f=f: K.assign(this, 'm' + f[3:], x))
    if what in ('segments', 'still'):
        S.bounded('2 segments')
        pos = this.mFlowRate > D(EPS)
        S.require(pos if what == 'segments' else Not(pos))
        S.use('PolyFluid::computeSpecificEnthalpy', lambda K, this, T, p: K.fresh_real('h'))
        S.use('PolyFluid::getPartialPressure(FluidProperties::FluidType const&) const', lambda K, this, x: K.fresh_real('pp'))
        S.use('PolyFluid::getMassFraction(FluidProperties::FluidType const&) const', lambda K, this, x: K.fresh_real('y'))
        for f in ('SaturationTemperature', 'SaturationPressure', 'HeatOfVaporization'):
            S.use('FluidProperties::get' + f, lambda K, this, T: K.fresh_real('prop'))
        S.call(cls + '::updateHeatExchanger', this, dt)
        S.ensure('total heat is that of the segments, sensible and latent', And(this.mTotalHeat == hq[0] + hq[1], this.mTotalHeat == this.mSensibleHeat + this.mLatentHeat))
        if what == 'still':
            S.ensure('no forward flow, no heat and no condensate', And(hq[0] == 0, hq[1] == 0, this.mCondensationRate == 0))
        S.ensure('condensate leaves the gas', fl.mFlowRate == o(fl).mFlowRate - this.mCondensationRate)
        return
    P, HV = (lambda T: uf_('SaturationPressure', T)), (lambda T: uf_('HeatOfVaporization', T))
    S.use('FluidProperties::getSaturationPressure', lambda K, this, T: P(T))
    S.use('FluidProperties::getHeatOfVaporization', lambda K, this, T: HV(T))
    pp, T = fl.mConstituents[0].mFluid.mPressure, fl.mTemperature
    if what == 'separator':
        S.require(And(this.mWsCondensateMass >= 0, this.mWsEvaporationCoeff >= 0))
        S.call(cls + '::updateWaterSeparator', this, dt)
        ev = If(t.mFlowRate > D(EPS), t.mWsEvaporationCoeff * max_(0, P(T) - pp), 0)
        m = t.mWsCondensateMass + (t.mSlurperFlowRate - this.mWsEvaporationRate - max_(0, t.mTransferFlowRate)) * dt
        S.ensure('evaporates toward saturation while gas flows', this.mWsEvaporationRate == ev)
        S.ensure('separator keeps what comes in less what evaporates and is sent on, never below none', this.mWsCondensateMass == max_(0, m))
        S.ensure('overflows above its capacity', this.mLiquidOverflow == (this.mWsCondensateMass > t.mWsMaxCondensate))
        S.ensure('its pressure by speed and content', this.mWsDeltaPressure == t.mWsPowerCurveCoeff * t.mWsDrumSpeed * S.pow(this.mWsCondensateMass, t.mWsMassExponent))
        return
    r, qs, ql, g = S.real('condensation'), S.real('sensible'), S.real('latent'), [S.real('q0'), S.real('q1')]
    S.require(g[0] + g[1] == qs + ql)

    def dry(K, this, dt):
        for f, v in (('mCondensationRate', r), ('mSensibleHeat', qs), ('mLatentHeat', ql), ('mTotalHeat', qs + ql)):
            K.assign(this, f, v)
        for i in (0, 1):
            K.assign(hq, '[%d]' % i, g[i])
        K.assign(fl, 'mFlowRate', fl.mFlowRate - r)
    S.use('GunnsFluidCondensingHx::updateHeatExchanger', dry)
    S.require(Or(And(r == 0, ql == 0), r > D(EPS)))
    S.require(And(this.mHxEvaporationCoeff >= 0, this.mHxCondensateMass >= 0))
    S.call(cls + '::updateHeatExchanger', this, dt)
    r1 = this.mCondensationRate
    evap = And(t.mFlowRate > D(EPS), r < D(EPS), t.mHxCondensateMass > D(EPS))
    S.ensure('an idle pool evaporates toward saturation', r1 == If(evap, -t.mHxEvaporationCoeff * max_(0, P(T) - pp), r))
    S.ensure('heat of evaporation comes from the segments', And(this.mTotalHeat == hq[0] + hq[1], this.mTotalHeat == this.mSensibleHeat + this.mLatentHeat, this.mSensibleHeat == qs, this.mLatentHeat == If(evap, r1 * HV(T) * 1000, ql)))
    S.ensure('the pool takes what condenses, or the malfunction gives, less what the slurper draws, never below none', this.mHxCondensateMass == max_(0, t.mHxCondensateMass + (If(t.mMalfHxCondensateFlag, t.mMalfHxCondensateValue, r1) - t.mSlurperFlowRate) * dt))
    S.ensure('and the gas loses it', fl.mFlowRate == o(fl).mFlowRate - If(evap, r1 + r, r1))


def turbine(S, what, port=0):
    k, this, fl, nd = nodes(S, 'GunnsGasTurbine')
    if S.mode == 'con':
        raise Reject()
    S.dyn(S.addr(this, 'mCurve'), 'GunnsGasFanCurve')
    S.require(And(abs_(this.mCorrectedSpeedLow - this.mCorrectedSpeedHigh) >= D(EPS), this.mCorrectedSpeedLow < this.mCorrectedSpeedHigh))
    o = S.snap()
    t = o(this)
    up = X.upstream(k, this.mFlux)
    src = lambda f: max_(D(EPS), If(up == 1, getattr(nd[1].mOutflow, f), getattr(nd[0].mOutflow, f)))
    Tr, Pr = max_(D(EPS), t.mReferenceTemp), max_(D(EPS), t.mReferencePress)
    if what == 'flow':
        src, Tr, Pr = (lambda f: getattr(nd[port].mOutflow, f)), t.mReferenceTemp, t.mReferencePress
    cs = clamp(t.mImpellerSpeed / (src('mTemperature') / Tr), t.mCorrectedSpeedLow, t.mCorrectedSpeedHigh)
    fr = (cs - t.mCorrectedSpeedLow) / (t.mCorrectedSpeedHigh - t.mCorrectedSpeedLow)
    ip = lambda a, b: a + fr * (b - a)
    if what == 'flow':
        S.require(t.mCorrectedSpeedLow >= 0)
        S.require(And(t.mReferenceTemp > D(EPS), t.mReferencePress > D(EPS), *[getattr(x.mOutflow, f) > D(EPS) for x in nd for f in ('mDensity', 'mTemperature', 'mPressure')]))
        S.require(up == port)
        S.call('GunnsGasTurbine::computeFlowRate', this)
        S.require(src('mDensity') > D(FEPS))
        dp = t.mFilterGain * (k.pv[0] - k.pv[1]) + (1 - t.mFilterGain) * t.mPressureDrop
        S.ensure('pressure drop filtered', this.mPressureDrop == dp)
        P = src('mPressure')
        S.ensure('pressure ratio is that over the drop, at least one', this.mPressureRatio == max_(1, P / max_(D(EPS), P - this.mPressureDrop)))
        r = this.mPressureRatio - 1
        cf = ip(t.mLowSpeedMaxFlow, t.mHighSpeedMaxFlow) * (r * r + ip(t.mCoeffLowSpeed1, t.mCoeffHighSpeed1) * r) / max_(D(EPS), this.mPressureRatio * this.mPressureRatio + ip(t.mCoeffLowSpeed2, t.mCoeffHighSpeed2))
        S.ensure('flow of the map at the corrected speed, scaled to pressure and temperature', this.mPredictedFlowRate == cf * (P / Pr / S.sqrt(src('mTemperature') / Tr)))
        return
    if what == 'state':
        w, g = S.real('predicted'), S.real('conductivity')
        S.use('GunnsGasTurbine::computeFlowRate', lambda K, this: K.assign(this, 'mPredictedFlowRate', w))
        seen = []
        S.use('GunnsFluidUtils::predictConductivity', lambda K, f, m, a, b, e: (seen.append((f, m, a, b)), g)[1])
        S.call('GunnsGasTurbine::updateState', this, S.real('dt', 0, 100))
        S.ensure('impeller turns by the drive ratio', this.mImpellerSpeed == If(t.mDriveRatio > D(EPS), t.mMotorSpeed / If(t.mDriveRatio > D(EPS), t.mDriveRatio, 1), t.mImpellerSpeed))
        (f, m, a, b), = seen
        S.ensure('conducts what passes the flow of its map', And(this.mEffectiveConductivity == If(w >= 0, g, t.mMaxConductivity), Implies(w >= 0, And(f == w, m == t.mMinLinearizationPotential, S.same(a, nd[0].mOutflow), S.same(b, nd[1].mOutflow)))))
        return
    X.contracts(S)
    S.call('GunnsGasTurbine::updateFluid', this, S.real('dt', 0, 100), S.real('flow'))
    S.ensure('efficiency between none and all', And(this.mEfficiency >= 0, this.mEfficiency <= 1))
    R_ = t.mPressureRatio
    inr = And(R_ >= ip(t.mMinEffLimLowSpeed, t.mMinEffLimHighSpeed), R_ <= ip(t.mMaxEffLimLowSpeed, t.mMaxEffLimHighSpeed))
    e = [ip(t.mEffCoeffLowSpeed[i], t.mEffCoeffHighSpeed[i]) for i in range(6)]
    S.ensure('efficiency of its curve at the speed, none off the map', this.mEfficiency == If(inr, clamp(e[0] + sum(e[i] * R_ ** i for i in range(1, 6)), 0, 1), 0))
    turns = And(t.mMotorSpeed > D(FEPS), t.mDriveRatio > D(EPS))
    S.ensure('power is the efficient part of that of the flow, none at standstill', this.mImpellerPower == If(turns, -1000 * abs_(t.mVolFlowRate) * t.mPressureDrop * this.mEfficiency, 0))
    S.ensure('torque times speed is the power given to the shaft', If(turns, -this.mImpellerTorque * t.mMotorSpeed == this.mImpellerPower * RPM, this.mImpellerTorque == 0))


HARNESSES = [('hx ' + n, hx, (f,)) for n, f in (('forward', 1), ('reverse', -1), ('still', 0))] + [('hx coefficient', hx_htc), ('hx dynamic', hx_dyn), ('pipe', wall, ('GunnsFluidPipe',)), ('disconnect', wall, ('GunnsFluidSimpleQd',)), ('sensor', sensor), ('phase change conductor', change, ('GunnsFluidPhaseChangeConductor',)), ('type change conductor', change, ('GunnsFluidTypeChangeConductor',))]
HARNESSES += [('fan pressure', fan_pressure), ('fan state', fan_state, ('GunnsGasFan',)), ('pump state', fan_state, ('GunnsLiquidCentrifugalPump',)), ('fan power', fan_power), ('gas displacement', displace, ('GunnsGasDisplacementPump',)), ('liquid displacement', displace, ('GunnsLiquidDisplacementPump',)), ('displacement power', displace_power), ('cavitation', cavitation)]
HARNESSES += [('turbine ' + x, turbine, (x,)) for x in ('state', 'power')] + [('turbine flow %s' % n, turbine, ('flow', i)) for i, n in enumerate(('forward', 'reverse'))]

HARNESSES += [('head %s %s' % (w, r or 'straight'), head, (w, r)) for w in ('potential', 'accum') for r in ('', 'rotated', 'transposed')]
HARNESSES += [('shaft ' + x, shaft, (x,)) for x in ('pre', 'post')]
HARNESSES += [('condensing ' + x, chx, (x,), {'check_div': x != 'segments'}) for x in ('coefficient', 'degrade', 'transport', 'fluid', 'segments', 'still', 'wet coefficient', 'wet flow', 'slurper', 'separator', 'evaporate')]
