"""Electrical power: converters, loads, diodes, shorts, batteries."""
from gcv.api import *
from gcv.lib import *
from props import P08 as T
ID = 'P11'
E = 'aspects/electrical/'
SOURCES = ['core/GunnsBasicLink.cpp', 'core/GunnsBasicConductor.cpp', 'core/GunnsBasicPotential.cpp', 'core/GunnsBasicNode.cpp', E + 'TripLogic/GunnsTripLogic.cpp', E + 'Converter/GunnsElectConverterInput.cpp',
           E + 'Converter/GunnsElectConverterOutput.cpp', E + 'Batt/GunnsElectBattery.cpp', E + 'Batt/GunnsElectBatteryCell.cpp', E + 'Diode/GunnsElectRealDiode.cpp', E + 'resistive/GunnsShortUtil.cpp', E + 'resistive/GunnsElectShort.cpp',
           E + 'resistive/GunnsResistorPowerFunction.cpp', E + 'resistive/GunnsElectricalResistor.cpp', E + 'ConstantPowerLoad/EpsConstantPowerLoad.cpp', E + 'UserLoad/UserLoadBase.cpp', E + 'UserLoad/ConstantPowerLoad.cpp',
           E + 'UserLoad/ResistiveLoad.cpp', E + 'UserLoad/GunnsElectUserLoad.cpp', 'ms-utils/math/approximation/TsApproximation.cpp', 'ms-utils/math/approximation/TsLinearInterpolator.cpp', 'ms-utils/math/UnitConversion.cpp']
HEADERS = [E + 'Converter/GunnsElectConverterInput.hh', E + 'Converter/GunnsElectConverterOutput.hh', 'ms-utils/math/approximation/TsLinearInterpolator.hh', E + 'Diode/GunnsElectRealDiode.hh']
META = dict(
    title='Electrical converters, loads and batteries draw and account for exact power',
    statement='A converter output delivers no reverse current and asks its input for output power plus channel loss divided by its efficiency; the input draws that power divided by its own efficiency as a pure current load, nothing when disabled, tripped or overloaded, and each side of a converter pair works with the other side\'s latest voltage and power. A converter accepts a network solution only if no trip fired, no limit or reverse bias state had to change and the other side\'s values are valid; a diode accepts only a solution that agrees with its bias. Constant power and user loads draw their commanded power, current or resistance and nothing without valid voltage; shorts and power-function resistors follow their active mode\'s law at the current voltage in either direction; a battery cell changes its charge by exactly the current drawn over its capacity, within empty and full, and a battery combines its cells by the series and parallel laws.',
    over=['inputs', 'histories'],
    quant='all potentials, set points, efficiencies, limits, regulator types, limit and bias states, malfunction values and switching orders, load modes, cell states and time steps',
    why='unit tests check scripted points; the states that minor steps pass through, malfunctions switched in any order, polarity reversal and depleted or overcharged cells are not enumerable',
    files=[E + 'Converter/GunnsElectConverterInput.cpp', E + 'Converter/GunnsElectConverterOutput.cpp', E + 'Batt/GunnsElectBattery.cpp', E + 'Batt/GunnsElectBatteryCell.cpp', E + 'Diode/GunnsElectRealDiode.cpp', E + 'resistive/GunnsShortUtil.cpp',
           E + 'resistive/GunnsResistorPowerFunction.cpp', E + 'ConstantPowerLoad/EpsConstantPowerLoad.cpp', E + 'UserLoad/UserLoadBase.cpp', E + 'UserLoad/ConstantPowerLoad.cpp', E + 'UserLoad/ResistiveLoad.cpp'],
    mech=[('converter input load', E + 'Converter/GunnsElectConverterInput.cpp GunnsElectConverterInput::minorStep, confirmSolutionAcceptable'),
          ('converter regulation and limiting', E + 'Converter/GunnsElectConverterOutput.cpp GunnsElectConverterOutput::minorStep, updateBias, updateLimitState, computeInputPower'),
          ('state of charge', E + 'Batt/GunnsElectBatteryCell.cpp GunnsElectBatteryCell::updateSoc'), ('short modes', E + 'resistive/GunnsShortUtil.cpp GunnsShortUtil::computeShort'),
          ('user loads', E + 'UserLoad/ConstantPowerLoad.cpp, ResistiveLoad.cpp')],
    note='unbounded except batteries of 3 cells. Real arithmetic stands for floating point and the conversion to single precision is exact. The interpolation tables are arbitrary functions (their own contract is elsewhere); optional sensors are absent.')
EPS, COND, FEPS = 2.220446049250313e-16, 1.0E15, 1.1920928955078125e-07
REJECT, CONFIRM, DELAY = 0, 1, 2
VOLTAGE, TRANSFORMER, CURRENT, POWER = range(4)
NO_LIMIT, LIMIT_OC, LIMIT_OV, LIMIT_UV = range(4)
BIG = 1e30


def table(S, name):
    """an interpolation table: an arbitrary function; a real one when a counterexample is replayed"""
    t = S.obj('TsLinearInterpolator', name)
    x, z = S.arr('double', 3, name + '.x'), S.arr('double', 3, name + '.z')
    S.dyn(t, 'TsLinearInterpolator')
    S.bind(t, 'mX', x)
    S.bind(t, 'mZ', z)
    S.set(t, 'mM', 3)
    S.set(t, 'mI', 0)
    S.require(And(x[0] < x[1], x[1] < x[2], t.mMinX == x[0], t.mMaxX == x[2], t.mMinY <= 0, t.mMaxY >= 0))
    if S.mode == 'sym':
        from gcv.exec import uf, RS
        S.use('TsLinearInterpolator::evaluate', lambda K, this, a, b: uf('table', RS, RS)(R(a)))
        return t, lambda a: uf('table', RS, RS)(R(clamp(a, t.mMinX, t.mMaxX)))
    return t, lambda a: S.call('TsApproximation::get', t, a, D(0))


def blk(t):
    return If(t.mMalfBlockageFlag, 1 - clamp(t.mMalfBlockageValue, 0, 1), 1)


def inp(S, name='this', table=None, out=None, **kw):
    k = link(S, 'GunnsElectConverterInput', 1, name=name, **kw)
    this = k.this
    S.dyn(S.addr(this, 'mInputUnderVoltageTrip'), 'GunnsTripLessThan')
    S.dyn(S.addr(this, 'mInputOverVoltageTrip'), 'GunnsTripGreaterThan')
    S.bind(this, 'mInputVoltageSensor', None)
    S.bind(this, 'mInputCurrentSensor', None)
    S.bind(this, 'mEfficiencyTable', table)
    if out is not False:
        S.bind(this, 'mOutputLink', out)
        if out is None:
            S.require(Not(this.mLeadsInterface))
    S.require(And(k.pv[0] > -BIG, k.pv[0] < BIG))
    return k


def outp(S, name='this', input=None, **kw):
    k = link(S, 'GunnsElectConverterOutput', 1, name=name, **kw)
    this = k.this
    S.dyn(S.addr(this, 'mOutputUnderVoltageTrip'), 'GunnsTripLessThan')
    S.dyn(S.addr(this, 'mOutputOverVoltageTrip'), 'GunnsTripGreaterThan')
    S.dyn(S.addr(this, 'mOutputOverCurrentTrip'), 'GunnsTripGreaterThan')
    S.bind(this, 'mOutputVoltageSensor', None)
    S.bind(this, 'mOutputCurrentSensor', None)
    if input is not False:
        S.bind(this, 'mInputLink', input)
        if input is None:
            S.require(Not(this.mLeadsInterface))
    S.require(And(this.mRegulatorType >= 0, this.mRegulatorType <= 3, this.mLimitState >= 0, this.mLimitState <= 3, this.mOutputConductance >= D(EPS)))
    S.require(And(k.pv[0] > -BIG, k.pv[0] < BIG))
    return k


def itrip(t):
    return Or(t.mInputOverVoltageTrip.mIsTripped, t.mInputUnderVoltageTrip.mIsTripped)


def otrip(t):
    return Or(t.mOutputOverVoltageTrip.mIsTripped, t.mOutputUnderVoltageTrip.mIsTripped, t.mOutputOverCurrentTrip.mIsTripped)


def vin(t, V):
    """input voltage passed to the output side"""
    return If(Or(Not(t.mEnabled), itrip(t), And(t.mMalfBlockageFlag, t.mMalfBlockageValue >= 1)), 0, max_(0, V))


def in_load(S, tabled):
    tb, f = table(S, 'efficiency') if tabled else (None, None)
    k = inp(S, table=tb)
    this = k.this
    t0 = this
    eff0 = D(1)
    if tabled:
        eff0 = f(this.mInputPower / max_(EPS, this.mReferencePower))
    o = S.snap()
    S.call('GunnsElectConverterInput::minorStep', this, S.real('dt', 0, 100), S.int('step', 1, 100))
    t = o(this)
    V, w, P = k.pv[0], k.sv[0], this.mInputPower
    gnd = k.nm[0] == k.N
    eff = clamp(eff0 * blk(t), EPS, 1)
    S.ensure('no load, no voltage, no power at ground', Implies(gnd, And(w == 0, k.am[0] == 0, this.mInputVoltage == 0, this.mInputPower == 0, this.mFlux == 0, this.mPower == 0)))
    live = Not(gnd)
    S.ensure('gives its voltage to the output side, none when it is off', Implies(live, this.mInputVoltage == vin(t, V)))
    S.ensure('efficiency by its table and blockage, within its range', Implies(live, this.mConverterEfficiency == eff))
    S.ensure('losses are what the load is scaled up by', Implies(live, this.mTotalPowerLoss == P / eff - P))
    on = And(live, t.mEnabled, Not(t.mOverloadedState), Not(itrip(t)))
    S.ensure('draws nothing when disabled, tripped or overloaded', Implies(And(live, Not(on)), w == 0))
    S.ensure('is a pure current load that never feeds the network', And(w <= 0, k.am[0] == 0))
    uv = t.mInputUnderVoltageTrip.mLimit
    vl = this.mInputVoltage
    S.ensure('draws its scaled power at its voltage', Implies(And(on, V >= 0, P >= 0, vl > D(EPS), Or(uv <= D(EPS), vl >= D(0.99) * uv)), -w * vl == P / eff))
    S.ensure('current is limited below the under voltage limit', Implies(And(on, V >= 0, P >= 0, uv > D(EPS), vl < D(0.99) * uv), -w * D(0.99) * uv == P / eff))
    S.ensure('the solver is told when its contribution changes', Implies(And(live, k.am[0] != o(k.am)[0]), this.mAdmittanceUpdate))
    S.ensure('its power load is kept', Implies(live, P == t.mInputPower))


def in_flows(S):
    k = inp(S)
    this = k.this
    o = S.snap()
    S.call('GunnsElectConverterInput::computeFlows', this, S.real('dt', 0, 100))
    live = k.nm[0] != k.N
    V = k.pv[0]
    t = o(this)
    f = V * k.am[0] - k.sv[0]
    S.ensure('flux and power are what the stamp draws', Implies(live, And(this.mFlux == f, this.mPower == -f * V, this.mPotentialDrop == V, this.mInputVoltage == vin(t, V))))
    n = k.nodes[k.nm[0]]
    S.ensure('only the input node loses the flux', S.forall(0, k.N + 1, lambda i: And(k.nodes[i].mOutfluxRate - o(k.nodes[i]).mOutfluxRate == If(And(live, i == k.nm[0], f > 0), f, 0), k.nodes[i].mInfluxRate == o(k.nodes[i]).mInfluxRate)))


def in_confirm(S):
    k = inp(S)
    this = k.this
    conv = S.int('converged', 0, 100)
    o = S.snap()
    r = S.call('GunnsElectConverterInput::confirmSolutionAcceptable', this, conv, S.int('absolute', 0, 1000))
    t = o(this)
    V = k.pv[0]
    live = k.nm[0] != k.N
    chk = And(live, conv > 0)
    ov, uv = t.mInputOverVoltageTrip, t.mInputUnderVoltageTrip
    on = And(chk, t.mEnabled)
    fires = Or(T.fires(ov, V > ov.mLimit, conv), T.fires(uv, V < uv.mLimit, conv))
    waits = Or(T.waits(ov, V > ov.mLimit, conv), T.waits(uv, V < uv.mLimit, conv))
    for n, x, b in (('over', ov, V > ov.mLimit), ('under', uv, V < uv.mLimit)):
        y = getattr(this, 'mInput%sVoltageTrip' % n.capitalize())
        S.ensure('%s voltage trip fires exactly when armed and beyond its limit' % n, Implies(Not(x.mMalfInhibitTrip), y.mIsTripped == Or(x.mIsTripped, And(on, T.fires(x, b, conv)))))
    over = And(chk, Not(itrip(this)), Not(t.mOverloadedState), Not(And(on, waits)), Not(And(on, fires)), t.mInputPower > 0, V <= 0)
    S.ensure('overload: a positive load without positive voltage', this.mOverloadedState == Or(t.mOverloadedState, over))
    bad = Or(And(on, fires), over)
    S.ensure('rejects for a trip, an overload or an invalid output side, else waits for trips, else accepts', Implies(live, r == If(chk, If(Or(bad, Not(t.mInputPowerValid)), REJECT, If(And(on, waits), DELAY, CONFIRM)), CONFIRM)))
    S.ensure('a link at ground accepts', Implies(Not(live), r == CONFIRM))
    S.ensure('its voltage is valid unless it rejected', this.mInputVoltageValid == And(live, Not(And(chk, bad))))
    S.ensure('contributions kept', And(k.sv[0] == o(k.sv)[0], k.am[0] == o(k.am)[0]))


def reg(t):
    return Or(t.mRegulatorType == VOLTAGE, t.mRegulatorType == TRANSFORMER)


def out_step(S):
    """contribution of the output side in every regulator type, limiting and bias state"""
    k = outp(S)
    this = k.this
    step = S.int('step', 1, 100)
    S.require(And(this.mSetpoint >= 0, this.mInputVoltage >= 0))
    o = S.snap()
    S.call('GunnsElectConverterOutput::minorStep', this, S.real('dt', 0, 100), step)
    t = o(this)
    live = k.nm[0] != k.N
    V, w, g = k.pv[0], k.sv[0], k.am[0]
    S.ensure('nothing at ground', Implies(Not(live), And(w == 0, g == 0, this.mInputPower == 0, this.mInputVoltage == 0)))
    S.ensure('power is available while there is input voltage', this.mOutputPowerAvailable == If(And(live, step == 1), t.mInputVoltage > 0, t.mOutputPowerAvailable))
    on = And(live, t.mEnabled, this.mOutputPowerAvailable, Not(otrip(t)))
    S.ensure('off without command or power, or when tripped', Implies(Not(on), And(w == 0, g == 0)))
    G = t.mOutputConductance * blk(t)
    oc, ov, uv = (getattr(t, 'mOutput%sTrip' % x).mLimit for x in ('OverCurrent', 'OverVoltage', 'UnderVoltage'))
    f0 = max_(0, o(k.sv)[0] - V * o(k.am)[0])
    rl = If(And(f0 > D(EPS), V > D(EPS)), V / If(f0 > D(EPS), f0, 1), 1)
    vs = If(reg(t), If(t.mLimitState == LIMIT_OC, 0, t.mSetpoint * If(t.mRegulatorType == TRANSFORMER, t.mInputVoltage, 1)), If(t.mLimitState == LIMIT_OV, ov, If(t.mLimitState == LIMIT_UV, uv, 0)))
    src = Or(And(reg(t), t.mLimitState != LIMIT_OC), And(Not(reg(t)), Or(t.mLimitState == LIMIT_OV, t.mLimitState == LIMIT_UV)))
    S.ensure('regulated voltage is the set point (times the input voltage for a transformer) or the limit', this.mSourceVoltage == If(on, vs, 0))
    g_src = If(t.mReverseBiasState, 0, clamp(If(src, G, D(FEPS)), 0, D(COND)))
    S.ensure('voltage source behind the output conductance, current source otherwise; no conductance in reverse bias', Implies(on, g == g_src))
    S.ensure('a voltage source drives its regulated voltage', Implies(And(on, src), w == g * vs))
    S.ensure('a current limited voltage regulator delivers the current limit', Implies(And(on, reg(t), t.mLimitState == LIMIT_OC), w == oc))
    cur = And(on, Not(reg(t)), Not(src))
    S.ensure('a current regulator delivers its set point', Implies(And(cur, t.mRegulatorType == CURRENT), w == blk(t) * If(t.mLimitState == LIMIT_OC, oc, t.mSetpoint)))
    b = blk(t)
    S.ensure('a power regulator delivers the current that gives its power in the load', Implies(And(cur, t.mRegulatorType == POWER, b > 0), And(w >= 0, w * w * rl == b * b * t.mSetpoint)))
    S.ensure('the solver is told when the matrix changed', Implies(And(live, g != o(k.am)[0]), this.mAdmittanceUpdate))
    S.ensure('a rebuild that was due stays due', Implies(t.mAdmittanceUpdate, this.mAdmittanceUpdate))


def out_flows(S):
    k = outp(S)
    this = k.this
    o = S.snap()
    S.call('GunnsElectConverterOutput::computeFlows', this, S.real('dt', 0, 100))
    live = k.nm[0] != k.N
    f = If(live, max_(0, k.sv[0] - k.pv[0] * k.am[0]), 0)
    S.ensure('never a reverse current', And(this.mFlux == f, this.mFlux >= 0))
    S.ensure('only the output node gains the flux', S.forall(0, k.N + 1, lambda i: And(k.nodes[i].mInfluxRate - o(k.nodes[i]).mInfluxRate == If(And(live, i == k.nm[0]), f, 0), k.nodes[i].mOutfluxRate == o(k.nodes[i]).mOutfluxRate)))


def out_power(S):
    k = outp(S)
    this = k.this
    p = S.cell('double', 'power')
    o = S.snap()
    r = S.call('GunnsElectConverterOutput::computeInputPower', this, p)
    t = o(this)
    ok = And(k.nm[0] != k.N, t.mInputPowerValid)
    f = max_(0, k.sv[0] - k.pv[0] * k.am[0])
    loss = f * f / t.mOutputConductance
    S.ensure('input power times efficiency is output power plus channel loss', p[0] == If(ok, (f * k.pv[0] + loss) / clamp(t.mConverterEfficiency, EPS, 1), 0))
    S.ensure('output power and losses', And(this.mPower == If(ok, f * k.pv[0], 0), this.mOutputChannelLoss == If(ok, loss, 0), this.mTotalPowerLoss == p[0] - this.mPower))
    S.ensure('tells whether it is valid', And(r == t.mInputPowerValid, this.mInputPowerValid == t.mInputPowerValid))


def out_confirm(S, kind):
    """one confirmation of a solution: trips, limiting and reverse bias"""
    k = outp(S)
    this = k.this
    S.require(this.mRegulatorType == kind)
    S.require(And(this.mReverseBiasFlips >= 0, this.mLimitStateFlips >= 0, this.mStateFlipsLimit <= 100000, this.mLimitStateFlips <= 100000, this.mReverseBiasFlips <= 100000))
    conv = S.int('converged', 0, 100)
    S.require(And(this.mFlux > -BIG, this.mFlux < BIG, this.mSetpoint >= 0))
    o = S.snap()
    r = S.call('GunnsElectConverterOutput::confirmSolutionAcceptable', this, conv, S.int('absolute', 0, 1000))
    t = o(this)
    V = k.pv[0]
    live = k.nm[0] != k.N
    L0, L1 = t.mLimitState, this.mLimitState
    S.ensure('a link at ground accepts', Implies(Not(live), And(r == CONFIRM, Not(this.mInputPowerValid))))
    S.ensure('it rejects while the input side is not valid', Implies(And(live, Not(t.mInputVoltageValid)), r == REJECT))
    S.ensure('a change of limiting rejects the solution', Implies(And(L1 != L0, t.mEnabled, t.mEnableLimiting), r == REJECT))
    S.ensure('a change of reverse bias rejects the solution', Implies(Or(And(live, this.mReverseBiasState != t.mReverseBiasState)), Or(r == REJECT, this.mReverseBiasState == t.mReverseBiasState)))
    S.ensure('its power is valid only if it accepted', Implies(live, Implies(this.mInputPowerValid, Or(r != REJECT, Not(t.mInputVoltageValid)))))
    oc, ov, uv = (getattr(t, 'mOutput%sTrip' % x) for x in ('OverCurrent', 'OverVoltage', 'UnderVoltage'))
    accepted = And(live, r == CONFIRM, conv > 0)
    free = And(t.mEnabled, t.mEnableLimiting, t.mLimitStateFlips < t.mStateFlipsLimit)
    f = max_(0, k.sv[0] - V * k.am[0])
    cur = f
    S.require(f < BIG)
    vreg = kind in (VOLTAGE, TRANSFORMER)
    if vreg:
        S.ensure('an accepted solution is not over the current limit while limiting', Implies(And(accepted, free, oc.mLimit > 0, L0 == NO_LIMIT), cur <= oc.mLimit))
        S.ensure('an accepted current limited solution is not above the set point', Implies(And(accepted, t.mEnabled, t.mEnableLimiting, L0 == LIMIT_OC, t.mMalfBlockageFlag == z3.BoolVal(False) if S.mode == 'sym' else Not(t.mMalfBlockageFlag)), V <= t.mSetpoint * (t.mInputVoltage if kind == TRANSFORMER else 1)))
        S.ensure('limiting is only over current', Implies(Or(L0 == NO_LIMIT, L0 == LIMIT_OC), Or(L1 == NO_LIMIT, L1 == LIMIT_OC)))
        bias = L1 == NO_LIMIT
    else:
        S.ensure('an accepted solution is within the voltage limits while limiting', Implies(And(accepted, free, L0 == NO_LIMIT), And(Implies(ov.mLimit > 0, V <= ov.mLimit), Implies(uv.mLimit > 0, V >= uv.mLimit))))
        bias = Or(L1 == LIMIT_OV, L1 == LIMIT_UV)
    S.ensure('an accepted voltage source does not take current', Implies(And(accepted, bias, t.mReverseBiasFlips < t.mStateFlipsLimit, V > t.mSourceVoltage), this.mReverseBiasState))
    S.ensure('forward bias when the voltage allows it', Implies(And(live, V <= t.mSourceVoltage), Not(this.mReverseBiasState)))
    S.ensure('without limiting no limit state', Implies(And(accepted, Or(Not(t.mEnabled), Not(t.mEnableLimiting))), L1 == NO_LIMIT))
    for n, x, b, act in (('over voltage', ov, V > ov.mLimit, Or(Not(t.mEnableLimiting), vreg)), ('under voltage', uv, V < uv.mLimit, Or(Not(t.mEnableLimiting), vreg)), ('over current', oc, cur > oc.mLimit, Not(t.mEnableLimiting))):
        y = getattr(this, 'mOutput%sTrip' % ''.join(z.capitalize() for z in n.split()))
        S.ensure('%s trips only when armed, enabled, not limiting and beyond its limit' % n, Implies(And(y.mIsTripped, Not(x.mIsTripped)), And(live, t.mEnabled, act, r == REJECT, T.fires(x, b, conv))))
        S.ensure('no accepted solution is due for an %s trip' % n, Implies(And(accepted, t.mEnabled, act), And(Not(T.fires(x, b, conv)), Not(T.waits(x, b, conv)))))
    S.ensure('limiting changes are counted', And(this.mLimitStateFlips == t.mLimitStateFlips + If(And(L1 != L0, L1 != NO_LIMIT), 1, 0), this.mReverseBiasFlips >= t.mReverseBiasFlips, this.mReverseBiasFlips <= t.mReverseBiasFlips + 1))


def pair(S, leads):
    """both sides of a converter in one network, stepped in the order of the network"""
    ki = inp(S, 'in', out=False)
    ko = outp(S, 'out', input=False, nodes=ki.nodes, nn=(ki.N, ki.nodelist))
    i, u = ki.this, ko.this
    S.bind(i, 'mOutputLink', u)
    S.bind(u, 'mInputLink', i)
    S.set(i, 'mLeadsInterface', leads == 'input')
    S.set(u, 'mLeadsInterface', leads == 'output')
    S.require(And(ki.nm[0] != ki.N, ko.nm[0] != ki.N, u.mInputPowerValid, i.mInputVoltageValid, u.mSetpoint >= 0))
    dt, step = S.real('dt', 0, 100), S.int('step', 1, 100)
    o = S.snap()
    calls = [('GunnsElectConverterInput::minorStep', i), ('GunnsElectConverterOutput::minorStep', u)]
    for f, x in (calls if leads == 'input' else calls[::-1]):
        S.call(f, x, dt, step)
    S.ensure('the output side works with the input voltage', And(u.mInputVoltage == i.mInputVoltage, i.mInputVoltage == vin(o(i), ki.pv[0])))
    f = max_(0, o(ko.sv)[0] - ko.pv[0] * o(ko.am)[0])
    P = (f * ko.pv[0] + f * f / u.mOutputConductance) / clamp(u.mConverterEfficiency, EPS, 1)
    S.ensure('the input side draws the power of the output side', i.mInputPower == P)
    S.ensure('both sides know the other is valid', And(i.mInputPowerValid, u.mInputVoltageValid))


def pair_confirm(S):
    """an accepted step was accepted by both sides with valid values"""
    ki = inp(S, 'in', out=False)
    ko = outp(S, 'out', input=False, nodes=ki.nodes, nn=(ki.N, ki.nodelist))
    i, u = ki.this, ko.this
    S.bind(i, 'mOutputLink', u)
    S.bind(u, 'mInputLink', i)
    S.require(And(ki.nm[0] != ki.N, ko.nm[0] != ki.N, u.mSetpoint >= 0, u.mFlux > -BIG, u.mFlux < BIG))
    conv = S.int('converged', 0, 100)
    order = S.choice('order', [0, 1])
    calls = [('GunnsElectConverterInput::confirmSolutionAcceptable', i), ('GunnsElectConverterOutput::confirmSolutionAcceptable', u)]
    r = []
    for f, x in (calls if order == 0 else calls[::-1]):
        r.append(S.call(f, x, conv, conv))
    ok = And(r[0] == CONFIRM, r[1] == CONFIRM)
    S.ensure('the side confirmed last accepted only valid values of the other', Implies(ok, i.mInputVoltageValid if order == 0 else u.mInputPowerValid))


# ------------------------------------------------------------------ diode, shorts, resistors

def diode(S):
    k = link(S, 'GunnsElectRealDiode', 2)
    this = k.this
    o = S.snap()
    r = S.call('GunnsElectRealDiode::confirmSolutionAcceptable', this, S.int('c', 0, 100), S.int('a', 0, 1000))
    t = o(this)
    rev = k.pv[0] - k.pv[1] < t.mVoltageDrop
    S.ensure('reverse biased below its junction drop', this.mReverseBias == rev)
    S.ensure('accepts exactly the solutions that agree with its bias', And(Or(r == REJECT, r == CONFIRM), (r == CONFIRM) == (t.mReverseBias == rev)))
    S.call('GunnsElectRealDiode::updateState', this, S.real('dt', 0, 100))
    S.ensure('conducts forward with its drop, leaks backward without', And(this.mEffectiveConductivity == If(rev, t.mReverseConductivity, t.mDefaultConductivity), this.mSourcePotential == If(rev, 0, -t.mVoltageDrop)))


def short(S):
    """a short whose malfunctions are switched in any order"""
    this = S.obj('GunnsShortUtil', 'this')

    def inv(v):
        """at most one initial value is remembered as sized"""
        return And(v.mPreviousPower >= 0, v.mPreviousCurrent >= 0, Or(v.mPreviousPower == 0, v.mPreviousCurrent == 0))
    S.require(inv(this))
    V = S.real('voltage')
    o = S.snap()
    r = S.call('GunnsShortUtil::computeShort', this, V)
    t = o(this)
    a = abs_
    cp, cc, ip, ic = t.mMalfConstantPowerFlag, t.mMalfConstantCurrentFlag, t.mMalfInitialPowerFlag, t.mMalfInitialCurrentFlag
    v2, v1 = max_(V * V, EPS), max_(a(V), EPS)
    P, I = a(t.mMalfInitialPowerValue), a(t.mMalfInitialCurrentValue)
    want = If(cp, a(t.mMalfConstantPowerValue) / v2, If(cc, a(t.mMalfConstantCurrentValue) / v1,
              If(ip, If(And(P != 0, P == t.mPreviousPower), t.mShortConductance, P / v2), If(ic, If(And(I != 0, I == t.mPreviousCurrent), t.mShortConductance, I / v1),
              If(t.mMalfResistanceFlag, 1 / max_(t.mMalfResistanceValue, EPS), 0)))))
    S.ensure('conductance is that of the preferred active mode; initial values are sized once', And(r == want, this.mShortConductance == want))
    S.ensure('a sized initial value is forgotten when another mode takes over', And(this.mPreviousPower == If(And(ip, Not(cp), Not(cc)), P, 0), this.mPreviousCurrent == If(And(ic, Not(ip), Not(cp), Not(cc)), I, 0)))
    S.ensure('at most one initial value is remembered', inv(this))


def short_link(S):
    k = link(S, 'GunnsElectShort', 2)
    this = k.this
    V = abs_(k.pv[0] - k.pv[1])
    s = this.mShort
    S.require(And(s.mMalfConstantPowerFlag, Not(this.mMalfBlockageFlag)))
    P = abs_(s.mMalfConstantPowerValue)
    S.call('GunnsElectShort::updateState', this, S.real('dt', 0, 100))
    S.ensure('a constant power short draws its power', Implies(V * V >= D(EPS), this.mEffectiveConductivity * V * V == P))


def powfun(S, tangent):
    """flow by the power law at the potentials it was linearised about"""
    k = link(S, 'GunnsResistorPowerFunction', 2)
    this = k.this
    S.set(this, 'mUseTangentLine', tangent)
    S.require(And(k.nm[0] != k.nm[1], this.mResistance >= D(EPS), abs_(this.mExponent) >= D(0.001), this.mMinLinearizationPotential > 0))
    am = k.am
    S.require(And(am[0] == am[3], am[1] == am[2], am[0] == -am[1]))
    o = S.snap()
    S.call('GunnsResistorPowerFunction::minorStep', this, S.real('dt', 0, 100), 1)
    t = o(this)
    d = k.pv[0] - k.pv[1]
    lim = max_(abs_(d), t.mMinLinearizationPotential)
    G = 1 / max_(t.mResistance, 1 / D(COND)) * If(t.mMalfBlockageFlag, clamp(1 - t.mMalfBlockageValue, 0, 1), 1)
    ei = 1 / t.mExponent
    on = G >= 1 / D(COND)
    S.ensure('symmetric conductance stamp', And(am[0] == am[3], am[1] == am[2], am[0] == -am[1]))
    S.ensure('equal and opposite source terms', k.sv[0] == -k.sv[1])
    S.ensure('blocked: no flow', Implies(Not(on), And(am[0] == 0, k.sv[0] == 0)))
    S.ensure('the solver is told when the matrix changed', Implies(am[0] != o(am)[0], this.mAdmittanceUpdate))
    law = S.pow(lim * G, ei)
    flow = am[0] * d + k.sv[1]
    big = abs_(d) >= t.mMinLinearizationPotential
    S.ensure('flow is the power law of the drop, in its direction', Implies(And(on, big), flow == If(d >= 0, law, -law)))
    if not tangent:
        S.ensure('conducts through the origin', Implies(on, And(am[0] * lim == law, k.sv[1] == 0)))
    S.call('GunnsResistorPowerFunction::computeFlows', this, S.real('dt2', 0, 100))
    S.ensure('flux agrees with the stamp', Or(this.mFlux == flow, And(this.mFlux == 0, abs_(d) < max_(k.pv[0], k.pv[1]) * D(100 * EPS))))


def resistor(S):
    k = link(S, 'GunnsElectricalResistor', 2)
    this = k.this
    S.call('GunnsElectricalResistor::updateState', this, S.real('dt', 0, 100))
    S.ensure('conductance is the inverse of the resistance', this.mEffectiveConductivity == 1 / max_(this.mResistance, EPS))
    S.require(k.nm[0] != k.nm[1])
    o = S.snap()
    S.call('GunnsElectricalResistor::computeFlows', this, S.real('dt2', 0, 100))
    S.ensure('shows its end voltages', And(this.mVoltageIn == k.pv[0], this.mVoltageOut == k.pv[1], this.mVoltageDrop == k.pv[0] - k.pv[1]))
    S.ensure('shows its flux', this.mCurrent == this.mFlux)
    S.ensure('waste heat is the inefficient part of its power', this.mWasteHeat == this.mPower * (1 - this.mElectricalEfficiency))


def cpl(S):
    k = link(S, 'EpsConstantPowerLoad', 2)
    this = k.this
    S.require(this.mMinimumVoltageLimit >= 0)
    o = S.snap()
    S.call('EpsConstantPowerLoad::updateState', this, S.real('dt', 0, 100))
    t = o(this)
    V = k.pv[0] - k.pv[1]
    P = t.mDesiredPower + t.mBiasPowerLoadValue
    g = this.mEffectiveConductivity
    S.ensure('draws its power at its voltage', Implies(And(V >= D(0.99) * t.mMinimumVoltageLimit, V >= D(EPS), P >= 0, P <= D(COND) * V * V), g * V * V == P))
    m = D(0.99) * t.mMinimumVoltageLimit
    S.ensure('is a resistor below its minimum voltage', Implies(And(V >= 0, V < m, m >= D(EPS), P >= 0, P <= D(COND) * m * m), g * m * m == P))
    S.ensure('draws nothing backwards or for a negative load', Implies(Or(V < 0, P <= 0), g == 0))
    S.ensure('within the conductance limits', And(g >= 0, g <= D(COND)))


# ------------------------------------------------------------------ user loads

def user_load(S, cls):
    this = S.obj(cls, 'this')
    S.dyn(this, cls)
    S.require(And(this.mUnderVoltageLimit >= 0, this.mLoadOperMode >= 0, this.mLoadOperMode <= 2, Or(Not(this.mMalfOverrideCurrentFlag), this.mMalfOverrideCurrentValue >= 0), Or(Not(this.mMalfOverridePowerFlag), this.mMalfOverridePower >= 0)))
    res = cls == 'ResistiveLoad'
    if res:
        S.set(this, 'mPrintMessageOnce', True)
        lo, hi = const(S, 'MINIMUM'), const(S, 'MAXIMUM')
    else:
        S.require(And(this.mPowerNormal >= 0, this.mPowerStandby >= 0))
    v = S.real('voltage')
    o = S.snap()
    S.call(cls + '::step', this, v)
    t = o(this)
    V = If(t.mMagicPowerFlag, t.mMagicPowerValue, If(Or(t.mFuseIsBlown, t.mMalfBlowFuse), 0, v))
    S.ensure('sees the bus voltage, none behind a blown fuse', this.mVoltage == V)
    S.ensure('a blown fuse stays blown', this.mFuseIsBlown == Or(t.mFuseIsBlown, t.mMalfBlowFuse))
    valid = V > t.mUnderVoltageLimit
    S.ensure('powered above its under voltage limit', this.mPowerValid == valid)
    off = Or(Not(valid), And(Not(t.mMalfOverrideCurrentFlag), Not(t.mMalfOverridePowerFlag), t.mLoadOperMode == 0))
    mx = const(S, 'MAXIMUM')
    S.ensure('draws nothing when off or unpowered', Implies(off, And(this.mCurrent == 0, this.mActualPower == 0, this.mEquivalentResistance == mx)))
    Rq, I, P = this.mEquivalentResistance, this.mCurrent, this.mActualPower
    on = Not(off)
    S.ensure('current, power and voltage agree', Implies(on, P == V * I))
    S.ensure('resistance agrees with the power drawn', Implies(And(on, P > 0), Rq * P == V * V))
    oi, op = t.mMalfOverrideCurrentFlag, And(t.mMalfOverridePowerFlag, Not(t.mMalfOverrideCurrentFlag))
    if res:
        S.ensure('override current', Implies(And(on, oi, t.mMalfOverrideCurrentValue > 0), I == t.mMalfOverrideCurrentValue))
        S.ensure('override power', Implies(And(on, op, t.mMalfOverridePower > 0), P == t.mMalfOverridePower))
        S.ensure('an override to nothing draws through the highest resistance only', Implies(And(on, Or(And(oi, t.mMalfOverrideCurrentValue == 0), And(op, t.mMalfOverridePower == 0))), Rq == mx))
        q = If(t.mLoadOperMode == 1, t.mResistanceNormal, t.mResistanceStandby)
        S.ensure('resistance of its operating mode', Implies(And(on, Not(oi), Not(t.mMalfOverridePowerFlag)), Rq == If(q > 0, clamp(q, lo, hi), hi)))
    else:
        S.ensure('override current', Implies(And(on, oi), I == t.mMalfOverrideCurrentValue))
        S.ensure('override power', Implies(And(on, op), P == t.mMalfOverridePower))
        S.ensure('power of its operating mode', Implies(And(on, Not(oi), Not(t.mMalfOverridePowerFlag)), P == If(t.mLoadOperMode == 1, t.mPowerNormal, t.mPowerStandby)))


def const(S, which):
    return {'MAXIMUM': D(1.0e8), 'MINIMUM': D(0.1)}[which]


def fuse(S):
    this = S.obj('ConstantPowerLoad', 'this')
    S.dyn(this, 'ConstantPowerLoad')
    v = S.real('voltage')
    o = S.snap()
    r = S.call('UserLoadBase::updateFuse', this, v)
    t = o(this)
    blow = And(t.mFuseCurrentLimit > 0, Not(t.mFuseIsBlown), v / max_(t.mEquivalentResistance, EPS) > t.mFuseCurrentLimit)
    S.ensure('the fuse blows exactly above its current limit', And(r == blow, this.mFuseIsBlown == Or(t.mFuseIsBlown, blow)))


# ------------------------------------------------------------------ battery

def cell_ok(c):
    return And(c.mSoc >= 0, c.mSoc <= 1, c.mMaxCapacity >= D(EPS), c.mResistance >= 0)


def cell(S, runaway):
    tb, f = table(S, 'voc')
    this = S.obj('GunnsElectBatteryCell', 'this')
    S.require(cell_ok(this))
    S.require(And(this.mRunawayPower >= 0, this.mRunawayPowerRate >= 0))
    S.set(this, 'mMalfThermalRunawayFlag', runaway)
    i, dt = S.real('current'), S.real('dt', 0, 100)
    voc = f(this.mSoc)
    o = S.snap()
    S.call('GunnsElectBatteryCell::updateSoc', this, i, dt, tb)
    t = o(this)
    cap = If(t.mMalfCapacityFlag, t.mMalfCapacityValue, t.mMaxCapacity)
    dead = Or(t.mMalfShortCircuit, t.mMalfOpenCircuit)
    S.ensure('state of charge stays between empty and full', And(this.mSoc >= 0, this.mSoc <= 1))
    S.ensure('a shorted cell is empty', Implies(t.mMalfShortCircuit, this.mSoc == 0))
    S.ensure('an open cell keeps its charge', Implies(And(t.mMalfOpenCircuit, Not(t.mMalfShortCircuit)), this.mSoc == t.mSoc))
    ok = And(Not(dead), cap > D(EPS))
    S.ensure('charge drawn is the current over the time step', Implies(And(ok, Not(t.mMalfThermalRunawayFlag)), this.mSoc == clamp(t.mSoc - i * dt / If(ok, cap, 1) / 3600, 0, 1)))
    S.ensure('a cell without capacity is empty', Implies(And(Not(dead), Not(ok)), this.mSoc == 0))
    run = And(ok, t.mMalfThermalRunawayFlag, t.mSoc > 0)
    v = max_(voc, EPS)
    rate = If(t.mRunawayPower == 0, 2 * t.mSoc * cap * v * 3600 / max_(t.mMalfThermalRunawayDuration * t.mMalfThermalRunawayDuration, EPS), t.mRunawayPowerRate)
    pw = t.mRunawayPower + rate * dt
    S.ensure('runaway drains the cell with its own power', Implies(run, this.mSoc == clamp(t.mSoc - (i + pw / v) * dt / If(ok, cap, 1) / 3600, 0, 1)))
    S.ensure('runaway power rises until the cell is empty', Implies(And(run, this.mSoc != 0), this.mRunawayPower == pw))
    S.ensure('runaway power ends with the cell', Implies(this.mSoc == 0, this.mRunawayPower == 0))
    S.ensure('runaway power is kept by a cell that does not drain', Implies(And(Not(run), this.mSoc != 0), this.mRunawayPower == If(t.mMalfThermalRunawayFlag, t.mRunawayPower, 0)))
    S.ensure('runaway power is never negative', And(this.mRunawayPower >= 0, this.mRunawayPowerRate >= 0))


def batt(S, n=3):
    S.bounded('a battery of %d cells' % n)
    k = link(S, 'GunnsElectBattery', 2)
    this = k.this
    tb, f = table(S, 'voc')
    cells = S.arr('GunnsElectBatteryCell', n, 'cells')
    S.bind(this, 'mCells', cells)
    S.set(this, 'mNumCells', n)
    S.bind(this, 'mSocVocTable', tb)
    for i in range(n):
        S.require(cell_ok(cells[i]))
    return k, cells, f


def esoc(c):
    return If(Or(c.mMalfOpenCircuit, c.mMalfShortCircuit), 0, c.mSoc)


def eres(c):
    return If(c.mMalfShortCircuit, D(EPS), If(Or(c.mMalfOpenCircuit, c.mMalfThermalRunawayFlag), 1 / D(EPS), c.mResistance))


def batt_state(S, par):
    k, cells, f = batt(S)
    this = k.this
    S.set(this, 'mCellsInParallel', par)
    S.set(this, 'mMalfThermalRunawayFlag', False)
    S.set(this, 'mThermalRunawayTimer', 0)
    S.require(this.mInterconnectResistance >= 0)
    n = 3
    voc = [f(cells[i].mSoc) for i in range(n)]
    o = S.snap()
    S.call('GunnsElectBattery::updateState', this, S.real('dt', 0, 100))
    ev = [If(Or(cells[i].mMalfOpenCircuit, cells[i].mMalfShortCircuit, cells[i].mMalfThermalRunawayFlag), 0, voc[i]) for i in range(n)]
    er = [eres(cells[i]) for i in range(n)]
    if par:
        G = sum(1 / max_(r, EPS) for r in er)
        S.ensure('cells in parallel conduct the sum of their conductances', this.mEffectiveConductivity == 1 / (this.mInterconnectResistance + 1 / max_(G, EPS)))
        m = max_(0, max_(ev[0], max_(ev[1], ev[2])))
        S.ensure('cells in parallel give their highest voltage', this.mSourcePotential == m)
    else:
        S.ensure('cells in series resist with the sum of their resistances', this.mEffectiveConductivity == 1 / (this.mInterconnectResistance + max_(sum(er), EPS)))
        S.ensure('cells in series give the sum of their voltages', this.mSourcePotential == sum(ev))
    S.ensure('conducts and is finite', this.mEffectiveConductivity > 0)


def batt_flux(S):
    k, cells, f = batt(S)
    this = k.this
    for i in range(3):
        S.require(Not(cells[i].mMalfThermalRunawayFlag))
    dt = S.real('dt', 0, 100)
    o = S.snap()
    S.call('GunnsElectBattery::updateFlux', this, dt, S.real('flux'))
    t = o(this)
    live = [esoc(o(cells[i])) > D(EPS) for i in range(3)]
    cnt = sum(If(x, 1, 0) for x in live)
    for i in range(3):
        a, b = o(cells[i]), cells[i]
        cap = If(a.mMalfCapacityFlag, a.mMalfCapacityValue, a.mMaxCapacity)
        want = If(a.mMalfShortCircuit, 0, If(a.mMalfOpenCircuit, a.mSoc, If(cap > D(EPS), clamp(a.mSoc - t.mFlux / If(cnt > 0, z3.ToReal(cnt) if S.mode == 'sym' else cnt, 1) * dt / If(cap > D(EPS), cap, 1) / 3600, 0, 1), 0)))
        S.ensure('cell %d takes its share of the current' % i, Implies(cnt > 0, b.mSoc == want))
        S.ensure('cell %d keeps its charge in a dead battery' % i, Implies(cnt == 0, b.mSoc == a.mSoc))
    S.ensure('shows its current and voltage', And(this.mCurrent == t.mFlux, this.mVoltage == k.pv[1]))
    S.ensure('state of charge is the mean of its cells', this.mSoc == sum(esoc(cells[i]) for i in range(3)) / 3)
    S.ensure('capacity is the sum of its cells', this.mCapacity == sum(If(Or(cells[i].mMalfOpenCircuit, cells[i].mMalfShortCircuit), 0, If(cells[i].mMalfCapacityFlag, cells[i].mMalfCapacityValue, cells[i].mMaxCapacity)) for i in range(3)))
    S.ensure('heat is its resistive loss and the runaway power', this.mHeat == t.mFlux * t.mFlux / max_(t.mSystemConductance, EPS) + sum(cells[i].mRunawayPower for i in range(3)))


HARNESSES = [('input load', in_load, (False,)), ('input load by table', in_load, (True,)), ('input flows', in_flows), ('input confirm', in_confirm), ('output step', out_step), ('output flows', out_flows), ('output power', out_power)]
HARNESSES += [('output confirm ' + n, out_confirm, (i,)) for i, n in enumerate(('voltage', 'transformer', 'current', 'power'))]
HARNESSES += [('pair input leads', pair, ('input',)), ('pair output leads', pair, ('output',)), ('pair confirm', pair_confirm), ('diode', diode), ('short', short), ('short link', short_link), ('power function', powfun, (False,)), ('power function tangent', powfun, (True,)),
              ('resistor', resistor), ('constant power', cpl), ('user load power', user_load, ('ConstantPowerLoad',)), ('user load resistive', user_load, ('ResistiveLoad',)), ('fuse', fuse), ('cell', cell, (False,)), ('cell runaway', cell, (True,)), ('battery series', batt_state, (False,)), ('battery parallel', batt_state, (True,)), ('battery flux', batt_flux)]
