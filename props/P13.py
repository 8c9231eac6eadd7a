"""Thermal links."""
from gcv.api import *
from gcv.lib import *
from props import P06 as L
ID = 'P13'
T = 'aspects/thermal/'
SOURCES = list(L.SOURCES) + [T + x + '.cpp' for x in ('GunnsThermalCapacitor', 'GunnsThermalRadiation', 'GunnsThermalSource', 'GunnsThermalHeater', 'GunnsThermalPanel', 'GunnsThermalMultiPanel', 'GunnsThermalPotential', 'GunnsThermalPhaseChangeBattery', 'GunnsThermoelectricDevice', 'GunnsThermoelectricEffect')] + ['ms-utils/math/UnitConversion.cpp']
META = dict(
    title='Thermal links store, radiate, pump and hand out exactly the heat they are given',
    statement='A thermal capacitor turns external heat into exactly the temperature change its capacitance allows on its own node only, a radiation link carries heat in proportion to the difference of the fourth powers of the temperatures (never backwards), and sources, heaters and panels hand out all of the heat demanded of them, split over their ports by their fractions. A phase change battery keeps its hot fraction between 0 and 1, holds its temperature while the phase changes, turns heat into phase fraction or temperature according to its properties, and loses mass by its leak only. A thermoelectric device conducts, generates voltage and heats its two sides by the averages of its property polynomials over the temperatures, with the resistive heat shared equally and the pumped heat taken from one side and given to the other.',
    over=['inputs', 'histories'],
    quant='every temperature, heat flux, property, fraction, time step, malfunction and port mapping',
    why='unit tests check a few states of each link; the heat balance has to close for every temperature, phase, malfunction and port mapping',
    files=[T + x for x in ('GunnsThermalCapacitor.cpp', 'GunnsThermalRadiation.cpp', 'GunnsThermalSource.cpp', 'GunnsThermalHeater.cpp', 'GunnsThermalPanel.cpp', 'GunnsThermalMultiPanel.cpp', 'GunnsThermalPhaseChangeBattery.cpp', 'GunnsThermoelectricDevice.cpp', 'GunnsThermoelectricEffect.cpp')],
    mech=[('capacitor', T + 'GunnsThermalCapacitor.cpp GunnsThermalCapacitor::updateState, setExternalHeatFlux'),
          ('sources', T + 'GunnsThermalSource.cpp GunnsThermalSource::step, computeFlows; GunnsThermalHeater, GunnsThermalPanel, GunnsThermalMultiPanel::updateState'),
          ('phase change battery', T + 'GunnsThermalPhaseChangeBattery.cpp GunnsThermalPhaseChangeBattery::step, computeFlows'),
          ('radiation and thermoelectric', T + 'GunnsThermalRadiation.cpp GunnsThermalRadiation::updateState; GunnsThermoelectricEffect::update; GunnsThermoelectricDevice::updateState')],
    note='unbounded except the sources, which are done for 1 to 3 ports. Real arithmetic stands for floating point. The effective conductance of a radiation link and of a thermoelectric device is stated for temperatures more than machine epsilon apart; at equal temperatures the code keeps the constant term, which its unit tests require. Sources: fractions are at least 0 and sum to 1, as the configuration check requires..')
EPS, COND = 2.220446049250313e-16, 1e15


def one(S, cls, **kw):
    k = link(S, cls, 1, **kw)
    S.set(k.this, 'mUserPortSetControl', 0)
    k.n0 = k.nodes[k.nm[0]]
    return k


def capacitor(S):
    """external heat, stored as temperature"""
    k = L.mk(S, 'GunnsThermalCapacitor')
    S.require(k.nm[0] < k.N)
    S.bind(k.this, 'mOverrideVector', S.arr('bool', 2, 'override'))
    ov = k.this.mOverrideVector
    dt = S.real('dt', 0, 100)
    o = S.snap()
    S.call('GunnsThermalCapacitor::updateState', k.this, dt)
    t = o(k.this)
    q = sum([t.mExternalHeatFlux[i] for i in range(1, NQ)], t.mExternalHeatFlux[0])
    S.ensure('sum of the external heat', k.this.mSumExternalHeatFluxes == q)
    live = And(t.mCapacitance > D(EPS), Not(o(ov)[0]))
    dT = k.pv[0] - o(k.pv)[0]
    S.ensure('the heat is stored', Implies(live, dT * t.mCapacitance == q * dt))
    S.ensure('an overridden or massless capacitor keeps its temperature', Implies(Not(live), And(dT == 0, k.nodes[k.nm[0]].mPotential == o(k.nodes[k.nm[0]]).mPotential)))
    S.ensure('the node and the output have the temperature of the link', Implies(live, And(k.nodes[k.nm[0]].mPotential == k.pv[0], k.this.mTemperature == k.pv[0])))
    S.ensure('no other node is touched', S.forall(0, k.N + 1, lambda i: Or(i == k.nm[0], k.nodes[i].mPotential == o(k.nodes[i]).mPotential)))
    S.call('GunnsThermalCapacitor::processOutputs', k.this)
    S.ensure('the temperature shown is that of the link', k.this.mTemperature == k.pv[0])


NQ = 15


def set_flux(S):
    this = S.obj('GunnsThermalCapacitor', 'this')
    i, q = S.int('index', 0, 100), S.real('flux')
    o = S.snap()
    S.call('GunnsThermalCapacitor::setExternalHeatFlux', this, i, q, may_throw=True)
    S.ensure('a bad index is refused', S.threw == (i >= NQ))
    a, b = this.mExternalHeatFlux, o(this).mExternalHeatFlux
    S.ensure('the flux is stored in its entry only', conj([a[j] == If(And(i == j, Not(S.threw)), q, b[j]) for j in range(NQ)]))


def radiation(S):
    k = L.mk(S, 'GunnsThermalRadiation')
    S.require(And(k.pv[0] >= 0, k.pv[1] >= 0, k.this.mDefaultConductivity >= 0, k.this.mViewScalar >= 0))
    o = S.snap()
    S.call('GunnsBasicConductor::step', k.this, S.real('dt', 0, 100))
    t = o(k.this)
    a, b = o(k.pv)[0], o(k.pv)[1]
    ok = abs_(a - b) > D(EPS)
    eff = k.this.mEffectiveConductivity
    c = t.mViewScalar * t.mDefaultConductivity
    S.ensure('radiates by the difference of the fourth powers', Implies(ok, eff * (a - b) == c * (a * a * a * a - b * b * b * b)))
    S.ensure('never a negative conductance', k.am[0] >= 0)
    L.stamp(S, k, o, clamp(If(t.mMalfBlockageFlag, eff * (1 - t.mMalfBlockageValue), eff), 0, D(COND)))
    L.same_vec(S, k, o, 'no source contribution', 'sv')


def source(S, cls='GunnsThermalSource', P=2):
    """flux distribution over any ports"""
    S.bounded('%d ports' % P)
    k = link(S, cls, P)
    S.set(k.this, 'mUserPortSetControl', 0)
    fr = S.arr('double', P, 'fractions')
    S.bind(k.this, 'mFluxDistributionFractions', fr)
    S.bind(k.this, 'mOverrideVector', S.arr('bool', P, 'override'))
    tot = sum([fr[i] for i in range(1, P)], fr[0])
    S.require(conj([fr[i] >= 0 for i in range(P)] + [tot == 1]))
    o = S.snap()
    S.call('GunnsThermalSource::step', k.this, S.real('dt', 0, 100))
    t, this = o(k.this), k.this
    if cls == 'GunnsThermalHeater':
        dem = t.mPowerElectrical
    elif cls == 'GunnsThermalPanel':
        dem = t.mAbsorptivity * t.mSurfaceArea * t.mIncidentHeatFluxPerArea
    elif cls == 'GunnsThermalMultiPanel':
        dem = t.mSurfaceArea * sum([t.mAbsorptivity[i] * t.mViewScalar[i] * t.mIncidentFlux[i] for i in range(5)])
    else:
        dem = t.mDemandedFlux
    S.ensure('demanded flux', this.mDemandedFlux == dem)
    f = If(t.mMalfFluxOverrideFlag, t.mMalfFluxOverrideValue, t.mTuningScalar * dem * If(t.mMalfBlockageFlag, 1 - t.mMalfBlockageValue, 1))
    S.ensure('flux is the demand less blockage, or the override', this.mFlux == f)
    S.ensure('each port gets its share', conj([k.sv[i] == fr[i] * f for i in range(P)]))
    S.ensure('all of the flux is given out', sum([k.sv[i] for i in range(1, P)], k.sv[0]) == f)
    S.ensure('average temperature of the ports', this.mAvgPortTemperature * P == sum([k.nodes[k.nm[i]].mPotential for i in range(P)]))
    S.ensure('temperature override', conj([And(this.mOverrideVector[i] == t.mTemperatureOverrideFlag, k.pv[i] == If(t.mTemperatureOverrideFlag, t.mTemperatureOverrideValue, o(k.pv)[i])) for i in range(P)]))
    o2 = S.snap()
    S.call('GunnsThermalSource::computeFlows', k.this, S.real('dt', 0, 100))
    d = lambda n: n.mInfluxRate - o2(n).mInfluxRate
    for i in range(P):
        S.ensure('each node gets the flux of its ports', d(k.nodes[k.nm[i]]) == sum([If(k.nm[j] == k.nm[i], fr[j] * f, 0) for j in range(P)]))
    S.ensure('no other node is touched', S.forall(0, k.N + 1, lambda i: Or(*[i == k.nm[j] for j in range(P)] + [d(k.nodes[i]) == 0])))


def battery(S):
    k = one(S, 'GunnsThermalPhaseChangeBattery')
    S.bind(k.this, 'mOverrideVector', S.arr('bool', 1, 'override'))
    t = k.this
    S.require(And(t.mPhaseChangeTemperature >= D(EPS), t.mPhaseChangeHeat >= D(EPS), t.mHotPhaseSpecificHeat >= D(EPS), t.mColdPhaseSpecificHeat >= D(EPS), t.mStructureCapacitance >= D(EPS), t.mMass >= D(EPS)))
    return k


def battery_step(S):
    k = battery(S)
    dt = S.real('dt', 0, 100)
    o = S.snap()
    S.call('GunnsThermalPhaseChangeBattery::step', k.this, dt)
    t, this = o(k.this), k.this
    x = clamp(t.mHotPhaseFraction, 0, 1)
    ov = t.mOverrideVector[0]
    q = sum([t.mExternalHeatFlux[i] for i in range(1, NQ)], t.mExternalHeatFlux[0])
    pure = Or(x == 0, x == 1)
    C = t.mStructureCapacitance + 1000 * t.mMass * If(x == 0, t.mColdPhaseSpecificHeat, t.mHotPhaseSpecificHeat)
    a = k.am[0]
    S.ensure('hot fraction is kept in 0..1', this.mHotPhaseFraction == x)
    S.ensure('sum of the external heat', this.mSumExternalHeatFluxes == q)
    S.ensure('a single phase stores heat in its capacitance', Implies(And(pure, Not(ov)), And(a * max_(dt, D(EPS)) == C, (k.pv[0] - o(k.pv)[0]) * C == q * dt)))
    S.ensure('while the phase changes the temperature is held', Implies(And(Not(pure), Not(ov)), And(a > 1000, (k.pv[0] - t.mPhaseChangeTemperature) * a == q)))
    S.ensure('an overridden battery keeps its temperature', Implies(ov, And(k.pv[0] == o(k.pv)[0], a == D(EPS))))
    S.ensure('the source holds the temperature', k.sv[0] == a * k.pv[0])
    S.ensure('the solver is told when the conductance changed', this.mAdmittanceUpdate == Or(t.mAdmittanceUpdate, o(k.am)[0] != a))
    S.ensure('the node and the output have the temperature', Implies(Not(ov), And(this.mTemperature == k.pv[0], Implies(k.nm[0] != k.N, k.n0.mPotential == k.pv[0]))))
    S.ensure('mass and properties are kept', And(this.mMass == t.mMass, this.mPhaseChangeHeat == t.mPhaseChangeHeat))


def battery_flows(S):
    k = battery(S)
    S.require(And(k.this.mHotPhaseFraction >= 0, k.this.mHotPhaseFraction <= 1, k.this.mMass > 1))
    dt = S.real('dt', 0, 100)
    o = S.snap()
    S.call('GunnsThermalPhaseChangeBattery::computeFlows', k.this, dt)
    t, this = o(k.this), k.this
    f = k.pv[0] * k.am[0] - k.sv[0]
    S.ensure('heat flow into the battery', this.mFlux == f)
    S.ensure('power is the heat of the network and the external heat', this.mPower == f + t.mSumExternalHeatFluxes)
    d = lambda n: (n.mInfluxRate - o(n).mInfluxRate) - (n.mOutfluxRate - o(n).mOutfluxRate)
    S.ensure('the node loses what the battery gains', d(k.n0) == -f)
    S.ensure('no other node is touched', S.forall(0, k.N + 1, lambda i: Or(i == k.nm[0], d(k.nodes[i]) == 0)))
    x, m, T0, Tp = t.mHotPhaseFraction, t.mMass, k.pv[0], t.mPhaseChangeTemperature
    H = t.mPhaseChangeHeat
    y = If(And(x == 0, T0 > Tp), t.mColdPhaseSpecificHeat * (T0 - Tp) / H, If(And(x == 1, T0 < Tp), 1 + t.mHotPhaseSpecificHeat * (T0 - Tp) / H,
        If(And(x > 0, x < 1), x + D(0.001) * this.mPower * dt / (H * m), x)))
    leak = And(t.mMalfHotPhaseLeakFlag, y > 0, dt > 0)
    S.ensure('heat beyond the phase change temperature changes the phase', Implies(Not(leak), this.mHotPhaseFraction == clamp(y, 0, 1)))
    S.ensure('hot fraction stays in 0..1', And(this.mHotPhaseFraction >= 0, this.mHotPhaseFraction <= 1))
    S.ensure('mass is lost by the leak only', And(Implies(Not(leak), And(this.mMass == m, this.mActualLeakRate == 0)), this.mMass == m - this.mActualLeakRate * dt))
    S.ensure('leak is limited to the hot phase', And(this.mActualLeakRate >= 0, this.mActualLeakRate * dt <= max_(0, m * y), this.mMass > 0, Implies(leak, this.mActualLeakRate <= max_(0, t.mMalfHotPhaseLeakRate))))
    S.ensure('the leak loses hot phase only', Implies(And(leak, y <= 1), this.mMass * this.mHotPhaseFraction == m * y - this.mActualLeakRate * dt))


def tec(S):
    e = S.obj('GunnsThermoelectricEffect', 'this')
    S.require(And(e.mMinTemperature >= D(EPS), e.mMaxTemperature > e.mMinTemperature))
    o = S.snap()
    S.call('GunnsThermoelectricEffect::update', e)
    t = o(e)
    h, c = [clamp(x, t.mMinTemperature, t.mMaxTemperature) for x in (t.mTemperatureHot, t.mTemperatureCold)]
    live = abs_(h - c) > D(EPS)
    avg = lambda v: v[0] + v[1] * (h + c) / 2 + v[2] * (h * h + h * c + c * c) / 3
    at = lambda v, x: v[0] + v[1] * x + v[2] * x * x
    m = If(t.mMalfThermoelectricEffectsFlag, max_(0, t.mMalfThermoelectricEffectsScalar), 1)
    S.ensure('thermal conductance is the average over the temperatures', Implies(live, e.mThermalConductance == avg(t.mThermalConductanceCoeffs)))
    S.ensure('conducted heat', e.mHeatFluxThru == e.mThermalConductance * (t.mTemperatureHot - t.mTemperatureCold))
    S.ensure('electrical resistance at the mean temperature', e.mElectricalConductance * max_(t.mResistanceCoeffs[0] + t.mResistanceCoeffs[1] * (h + c) / 2, D(EPS)) == 1)
    I = t.mCurrent
    S.ensure('voltage of the temperature difference', Implies(live, e.mVoltage == m * avg(t.mSeebeckCoeffs) * (h - c)))
    r = max_(t.mResistanceCoeffs[0] + t.mResistanceCoeffs[1] * (h + c) / 2, D(EPS))
    S.ensure('the hot side gets half the resistive heat less the heat pumped', e.mHeatFluxHot == I * I * r / 2 - I * h * m * at(t.mSeebeckCoeffs, h))
    S.ensure('the cold side gets half the resistive heat and the heat pumped', e.mHeatFluxCold == I * I * r / 2 + I * c * m * at(t.mSeebeckCoeffs, c))


def tec_device(S):
    k = L.mk(S, 'GunnsThermoelectricDevice')
    o = S.snap()
    S.call('GunnsThermoelectricDevice::step', k.this, S.real('dt', 0, 100))
    t, this = o(k.this), k.this
    e = this.mThermoelectricEffect
    S.ensure('the sides are the ports', And(e.mTemperatureHot == o(k.pv)[0], e.mTemperatureCold == o(k.pv)[1]))
    L.stamp(S, k, o, L.g_of(t, e.mThermalConductance))
    S.ensure('the effect heats the ports', And(k.sv[0] == e.mHeatFluxHot, k.sv[1] == e.mHeatFluxCold))


def tec_flows(S):
    k = L.mk(S, 'GunnsThermoelectricDevice')
    o = S.snap()
    S.call('GunnsBasicConductor::computeFlows', k.this, S.real('dt', 0, 100))
    n0, n1 = k.nodes[k.nm[0]], k.nodes[k.nm[1]]
    d = lambda n: (n.mInfluxRate - o(n).mInfluxRate) - (n.mOutfluxRate - o(n).mOutfluxRate)
    other = k.nm[0] != k.nm[1]
    f = k.this.mFlux
    drop = k.pv[0] - k.pv[1]
    S.ensure('conducted heat', f == If(abs_(drop) < max_(k.pv[0], k.pv[1]) * (100 * D(EPS)), 0, drop * k.am[0]))
    S.ensure('each side gets its heat', Implies(other, And(d(n0) == k.sv[0] - f, d(n1) == k.sv[1] + f)))
    S.ensure('no other node is touched', S.forall(0, k.N + 1, lambda i: Or(i == k.nm[0], i == k.nm[1], d(k.nodes[i]) == 0)))


HARNESSES = [('capacitor', capacitor), ('external flux', set_flux), ('radiation', radiation), ('battery step', battery_step), ('battery flows', battery_flows), ('thermoelectric effect', tec), ('thermoelectric step', tec_device), ('thermoelectric flows', tec_flows)]
HARNESSES += [('source %s %d' % (c, p), source, ('GunnsThermal' + c, p)) for c, p in (('Source', 1), ('Source', 3), ('Heater', 2), ('Panel', 2), ('MultiPanel', 2))]
