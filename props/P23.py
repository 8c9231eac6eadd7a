"""Solar arrays: cells, strings, sections, arrays and their regulators."""
import math
import z3
from gcv.api import *
from gcv.lib import *
ID = 'P23'
A = 'aspects/electrical/SolarArray/'
SOURCES = ['core/GunnsBasicLink.cpp', 'core/GunnsBasicNode.cpp', 'aspects/electrical/TripLogic/GunnsTripLogic.cpp', 'ms-utils/math/elementary_functions/LambertW.cpp', 'ms-utils/math/UnitConversion.cpp'] + [A + 'GunnsElectPv%s.cpp' % x for x in ('Array', 'RegConv', 'RegSensors', 'RegShunt', 'RegTrips', 'Section', 'String', 'String2')]
HEADERS = [A + 'GunnsElectPvRegShunt.hh', A + 'GunnsElectPvRegConv.hh']
META = dict(
    title='Solar arrays work on their I-V curve and regulators deliver what they draw',
    statement='A string loaded at a voltage, conductance or power takes the point of its current-voltage curve that has it - power is voltage times current, a power on the side asked for - and none at all beyond its open-circuit voltage or maximum power; cells that are shaded, bypassed, degraded or turned away give accordingly less. The array\'s curve is the sum of its strings, its maximum power point is the best point of that curve\'s short-circuit side, and the array stamps, delivers and predicts current by the side of the curve that the voltage lies on, rejecting a solution on the other side. A regulator delivers its input power times its efficiency, or loads just enough strings in its order and shunts the rest, is off when unpowered, disabled, tripped, without light or back-biased, and accepts no solution in which its state or a trip changed.',
    over=['inputs', 'histories'],
    quant='all cell, string and array parameters, light, angles, temperatures, loads, voltages, set points, states, malfunctions and trips',
    why='unit tests load a few points of one array; the points near the corner of the curve, unequal or shaded strings, state changes within a step and malfunctions are not enumerable by examples',
    files=[A + 'GunnsElectPv%s.cpp' % x for x in ('Array', 'RegConv', 'RegShunt', 'Section', 'String', 'String2')],
    mech=[('string curve', A + 'GunnsElectPvString.cpp loadAtVoltage, loadAtPower, loadAtConductance, update'), ('cell circuit', A + 'GunnsElectPvString2.cpp computeCurrent, computeVoltage, derive'),
          ('array', A + 'GunnsElectPvArray.cpp updateArray, predictLoadAtVoltage, loadAtPower, confirmSolutionAcceptable'), ('regulators', A + 'GunnsElectPvRegConv.cpp, GunnsElectPvRegShunt.cpp')],
    note='strings and cells unbounded; arrays bounded to 2 sections with 2 and 1 strings. Real arithmetic; exp, sin and the Lambert W function by their defining equations; the conversion of sensed values to single precision is exact.')
EPS = D(2.220446049250313e-16)
NODES = 3
STR, SEC = 'GunnsElectPvString', 'GunnsElectPvSection'


def curve(s, v):
    """current of a string's two-line curve at a voltage"""
    return If(Or(v < EPS, v > s.mOpenCircuitVoltage), R(0),
              If(v <= s.mMpp.mVoltage, s.mShortCircuitCurrent - (s.mShortCircuitCurrent - s.mMpp.mCurrent) * v / s.mMpp.mVoltage,
                 s.mMpp.mCurrent * (s.mOpenCircuitVoltage - v) / (s.mOpenCircuitVoltage - s.mMpp.mVoltage)))


def mpp_ok(s):
    m = s.mMpp
    return And(m.mVoltage > EPS, m.mVoltage < s.mOpenCircuitVoltage, m.mCurrent > 0, m.mCurrent < s.mShortCircuitCurrent, m.mPower == m.mVoltage * m.mCurrent, m.mConductance == m.mCurrent / m.mVoltage)


def string(S, name='this', live=True):
    s = S.obj(STR, name)
    S.dyn(s, STR)
    if live:
        S.require(mpp_ok(s))
    return s


def point(S, t, what):
    S.ensure('power is voltage times current ' + what, t.mPower == t.mVoltage * t.mCurrent)


def at_voltage(S):
    s = string(S)
    v = S.real('v')
    p = S.call(STR + '::predictCurrentAtVoltage', s, v)
    S.ensure('the current predicted at a voltage is that of the curve', p == curve(s, v))
    S.call(STR + '::loadAtVoltage', s, v)
    t = s.mTerminal
    S.ensure('loaded at a voltage it gives the current of its curve', t.mCurrent == curve(s, v))
    S.ensure('at that voltage', t.mVoltage == v)
    point(S, t, 'at a voltage')
    S.ensure('its conductance is current over voltage', If(Or(v < EPS, v > s.mOpenCircuitVoltage), t.mConductance == 0, t.mConductance * v == t.mCurrent))
    S.ensure('between no current and the short-circuit current', And(t.mCurrent >= 0, t.mCurrent <= s.mShortCircuitCurrent))


def at_power(S, short):
    s = string(S)
    P = S.real('power')
    o = S.snap()
    S.call(STR + '::loadAtPower', s, P, short)
    t, t0 = s.mTerminal, o(s.mTerminal)
    m = s.mMpp
    can = And(P > 0, P < m.mPower)
    S.ensure('no load it cannot give', Implies(Not(can), And(t.mVoltage == 0, t.mCurrent == 0, t.mPower == 0, t.mConductance == 0)))
    if S.mode == 'sym':
        S.st.pc += (B(can),)
    elif not truth_(can):
        return
    S.ensure('gives the power asked for', t.mPower == P)
    S.ensure('power is voltage times current', t.mPower == t.mVoltage * t.mCurrent)
    S.ensure('conductance is current over voltage', t.mConductance * t.mVoltage == t.mCurrent)
    Isc, Voc = s.mShortCircuitCurrent, s.mOpenCircuitVoltage
    if short:
        S.ensure('on the short-circuit side of its curve', (Isc - t.mCurrent) * m.mVoltage == t.mVoltage * (Isc - m.mCurrent))
        S.ensure('no less current than at the maximum power point', t.mCurrent >= m.mCurrent)
    else:
        S.ensure('on the open-circuit side of its curve', (Voc - t.mVoltage) * m.mCurrent == t.mCurrent * (Voc - m.mVoltage))
        S.ensure('no more current than at the maximum power point', t.mCurrent <= m.mCurrent)


def truth_(f):
    from gcv.replay import truth
    return truth(B(f), {})


def at_conductance(S):
    s = string(S)
    g = S.real('g')
    S.call(STR + '::loadAtConductance', s, g)
    t, m = s.mTerminal, s.mMpp
    Isc, Voc = s.mShortCircuitCurrent, s.mOpenCircuitVoltage
    open_ = Or(g < EPS, Isc < EPS)
    S.ensure('open circuit without a load', Implies(open_, And(t.mVoltage == Voc, t.mCurrent == 0, t.mPower == 0)))
    S.ensure('the conductance asked for', And(t.mConductance == g, Implies(Not(open_), t.mCurrent == g * t.mVoltage)))
    S.ensure('power is voltage times current', t.mPower == t.mVoltage * t.mCurrent)
    S.ensure('on the open-circuit side of its curve below the conductance of the maximum power point', Implies(And(Not(open_), g <= m.mConductance), (Voc - t.mVoltage) * m.mCurrent == t.mCurrent * (Voc - m.mVoltage)))
    S.ensure('on the short-circuit side of its curve above the conductance of the maximum power point', Implies(And(Not(open_), g > m.mConductance), (Isc - t.mCurrent) * m.mVoltage == t.mVoltage * (Isc - m.mCurrent)))


def at_mpp(S):
    s = string(S)
    S.call(STR + '::loadAtMpp', s)
    t, m = s.mTerminal, s.mMpp
    S.ensure('at its maximum power point', And(t.mVoltage == m.mVoltage, t.mCurrent == m.mCurrent, t.mPower == m.mPower, t.mConductance == m.mConductance))


HARNESSES = [('string at voltage', at_voltage), ('string at power, short side', at_power, {'short': True}), ('string at power, open side', at_power, {'short': False}),
             ('string at conductance', at_conductance), ('string at maximum power', at_mpp)]


def groups(S, cls=STR):
    """a string with its settings, its light and its cells"""
    s = S.obj(cls, 'this')
    S.dyn(s, cls)
    cfg, inp = S.obj('GunnsElectPvStringConfigData', 'config'), S.obj('GunnsElectPvStringInputData', 'input')
    S.bind(s, 'mConfig', cfg)
    S.bind(s, 'mInput', inp)
    n, iv = cfg.mNumCells, cfg.mBypassDiodeInterval
    ng = S.int('groups', 1, 1000)
    S.require(And(iv >= 1, iv <= 1000, n == ng * iv))
    return s, cfg, inp, ng


def bypassed(S):
    s, cfg, inp, ng = groups(S)
    o = S.snap()
    S.call(STR + '::updateBypassedGroups', s)
    nb, f = s.mNumBypassedGroups, clamp(inp.mSourceExposedFraction, 0, 1)
    dark = R(ng) * (1 - f)
    ask = If(s.mMalfCellGroupFlag, clamp(o(s).mMalfCellGroupValue, 0, ng), 0)
    S.ensure('every group that is not fully exposed is bypassed', R(nb) >= dark)
    S.ensure('and those failed', nb >= ask)
    S.ensure('and no more', Or(nb == ask, R(nb) < dark + 1))
    S.ensure('never more groups than there are', nb <= ng)


def cell_string(S):
    """a string updated from its environment, for any number of bypassed groups"""
    s, cfg, inp, ng = groups(S)
    eq = S.obj('GunnsElectPvCellEquivCircuit', 'eq')
    S.bind(s, 'mEqProps', eq)
    nb, iv = S.int('bypassed', 0, 1000), cfg.mBypassDiodeInterval
    S.require(nb <= ng)
    if S.mode == 'con':
        raise Reject()
    S.use(STR + '::updateBypassedGroups', lambda K, this: K.assign(this, 'mNumBypassedGroups', nb))
    c = cfg.mCellConfig
    S.require(And(c.mShuntResistance > EPS, c.mSeriesResistance > EPS, c.mSurfaceArea > EPS, c.mOpenCircuitVoltage > EPS, c.mEfficiency >= 0, c.mEfficiency <= 1, inp.mPhotoFlux >= 0, cfg.mBlockingDiodeVoltageDrop >= 0, cfg.mBypassDiodeVoltageDrop >= 0))
    S.call(STR + '::update', s)
    return s, cfg, inp, nb, ng, eq, c


def update_string(S):
    s, cfg, inp, nb, ng, eq, c = cell_string(S)
    iv = cfg.mBypassDiodeInterval
    act = (ng - nb) * iv
    S.ensure('the cells of bypassed groups do not work', s.mNumActiveCells == act)
    S.ensure('diodes in series drop their voltage', s.mSeriesVoltageDrop == cfg.mBlockingDiodeVoltageDrop + nb * cfg.mBypassDiodeVoltageDrop)
    n = R(s.mNumActiveCells)
    dT = inp.mTemperature - c.mRefTemperature
    V = s.mShuntVoltageDrop
    S.ensure('active cells in series add their voltages, falling with temperature to nothing', V == n * c.mOpenCircuitVoltage * max_(1 + dT * c.mTemperatureVoltageCoeff, 0))
    left = If(s.mMalfDegradeFlag, clamp(1 - s.mMalfDegradeValue, 0, 1), R(1))
    light = inp.mPhotoFlux * n * c.mSurfaceArea * c.mEfficiency * max_(1 + dT * c.mTemperatureCurrentCoeff, 0) * left
    S.ensure('the photo current carries the light its cells convert', If(V > EPS, eq.mIL * V == light, eq.mIL == 0))
    S.ensure('never a negative short-circuit current', s.mShortCircuitCurrent >= 0)
    S.ensure('no cells, no current and no power', Implies(s.mNumActiveCells == 0, And(s.mOpenCircuitVoltage == 0, s.mShortCircuitCurrent == 0, s.mMpp.mPower == 0, s.mMpp.mVoltage == 0, s.mMpp.mCurrent == 0, s.mMpp.mConductance == 0)))
    S.ensure('no light, no current and no power', Implies(inp.mPhotoFlux == 0, And(s.mShortCircuitCurrent == 0, s.mMpp.mPower == 0, s.mMpp.mCurrent == 0)))


def mpp_string(S):
    s, eq = S.obj(STR, 'this'), S.obj('GunnsElectPvCellEquivCircuit', 'eq')
    cfg = S.obj('GunnsElectPvStringConfigData', 'config')
    S.dyn(s, STR)
    S.bind(s, 'mEqProps', eq)
    S.bind(s, 'mConfig', cfg)
    rs = R(s.mNumActiveCells) * cfg.mCellConfig.mSeriesResistance
    S.require(And(s.mNumActiveCells >= 1, eq.mRsh > EPS, eq.mRs == rs, rs > 0, s.mShuntVoltageDrop >= 0, s.mSeriesVoltageDrop >= 0, eq.mIL >= 0))
    S.call(STR + '::updateMpp', s)
    m = s.mMpp
    V = s.mShuntVoltageDrop
    i = eq.mIL - V / eq.mRsh
    left = V - i * eq.mRs - s.mSeriesVoltageDrop
    S.ensure('maximum power is voltage times current', m.mPower == m.mVoltage * m.mCurrent)
    S.ensure('with its conductance', m.mConductance * m.mVoltage == m.mCurrent)
    S.ensure('maximum power is the light less the losses in shunt, diodes and series resistance', m.mPower == If(i > 0, max_(0, i * left), 0))
    S.ensure('the current left over the shunt flows at the voltage left over the losses', Implies(And(m.mPower > 0, left > EPS), And(m.mCurrent == i, m.mVoltage == left)))


def sine(S, x):
    return S.fun('sin', x)


def overrides(S):
    inp = S.obj('GunnsElectPvStringInputData', 'this')
    dt = S.real('dt', 0, 100)
    S.require(inp.mPhotoFluxElapsedTime >= 0)
    o = S.snap()
    S.call('GunnsElectPvStringInputData::applyOverrides', inp, dt)
    t = o(inp)
    M, T, el = t.mMalfPhotoFluxMagnitude, t.mMalfPhotoFluxDuration, t.mPhotoFluxElapsedTime
    on = And(t.mMalfPhotoFluxFlag, T > 0)
    rt = clamp(t.mMalfPhotoFluxRampTime, 0, T / 2)
    flux, f0 = inp.mPhotoFlux, t.mPhotoFlux
    S.ensure('light is not touched without the malfunction, at its start and after its end', Implies(Or(Not(on), el == 0, el > T), flux == f0))
    S.ensure('held at its magnitude between the ramps', Implies(And(on, el > rt, el <= T - rt), flux == M))
    start = t.mPhotoFluxStartMagnitude
    S.ensure('ramps from the light at its start towards its magnitude', Implies(And(on, el > 0, el <= rt, el <= T - rt), And(flux >= min_(start, M), flux <= max_(start, M))))
    S.ensure('ramps from its magnitude back to the light', Implies(And(on, el > T - rt, el <= T), And(flux >= min_(f0, M), flux <= max_(f0, M))))
    S.ensure('the light at its start is what is remembered', Implies(on, inp.mPhotoFluxStartMagnitude == If(el == 0, f0, start)))
    S.ensure('ends after its duration', inp.mMalfPhotoFluxFlag == And(t.mMalfPhotoFluxFlag, Or(T <= 0, el <= T)))
    S.ensure('its time runs while it is on', Implies(Or(Not(on), el <= T), inp.mPhotoFluxElapsedTime == If(on, el + dt, 0)))
    S.ensure('its time starts anew after its end', Implies(And(on, el > T), inp.mPhotoFluxElapsedTime == 0))
    S.ensure('exposure as overridden', inp.mSourceExposedFraction == If(t.mMalfExposedFractionFlag, t.mMalfExposedFractionValue, t.mSourceExposedFraction))
    S.ensure('temperature as overridden', inp.mTemperature == If(t.mMalfTemperatureFlag, t.mMalfTemperatureValue, t.mTemperature))


def section(S, edge):
    sec, cfg = S.obj(SEC, 'this'), S.obj('GunnsElectPvSectionConfigData', 'config')
    S.bind(sec, 'mConfig', cfg)
    S.set(cfg, 'mSourceAngleEdgeOn', edge)
    if S.mode == 'con':
        raise Reject()
    S.use('GunnsElectPvStringInputData::applyOverrides', lambda K, this, dt: None)
    S.require(And(cfg.mSourceAngleExponent >= D(0.1), cfg.mSourceAngleExponent <= 10, cfg.mBacksideReduction >= 0, cfg.mBacksideReduction <= 1))
    S.call(SEC + '::updateEnvironment', sec, S.real('dt', 0, 100))
    i, x = sec.mStringsInput, sec.mInput
    tr = S.fun('sin' if edge else 'cos', x.mSourceAngle)
    face = S.pow(abs_(tr), cfg.mSourceAngleExponent)
    face = If(tr < 0, face * (1 - cfg.mBacksideReduction), face)
    S.ensure('strings get the light of the source as exposed and facing it, the backside reduced', i.mPhotoFlux == x.mSourceFluxMagnitude * x.mSourceExposedFraction * face)
    S.ensure('exposure and temperature are those of the section', And(i.mSourceExposedFraction == x.mSourceExposedFraction, i.mTemperature == x.mTemperature))
    S.ensure('insolation relative to the reference source', Implies(cfg.mRefSourceFluxMagnitude > EPS, sec.mPercentInsolation * cfg.mRefSourceFluxMagnitude == 100 * i.mPhotoFlux))


HARNESSES += [('string bypassed groups', bypassed), ('string update', update_string), ('string maximum power point', mpp_string), ('string overrides', overrides),
              ('section edge-on', section, {'edge': True}), ('section face-on', section, {'edge': False})]


# ---- the cell's equivalent circuit
CELL = 'GunnsElectPvCellEquivCircuit2'


def lambert(S, *names):
    """W with W e^W = z: the contract of LambertW"""
    ws = []

    def w(K, z):
        x = K.fresh_real('W')
        K.assume(And(x * S.fun('exp', x) == R(z), x <= -1 if 'fastSolveW1' in names else x >= -1))
        ws.append((x, R(z)))
        return x
    for n in names:
        S.use('LambertW::' + n, w)
    return ws


def diode(S, c, V, I):
    """the single-diode law: what the circuit's current is at a voltage"""
    x = (V + I * c.mRs) / c.mNVt
    return c.mIL - c.mI0 * (S.fun('exp', x) - 1) - (V + I * c.mRs) / c.mRsh


def circuit(S, what):
    c = S.obj(CELL, 'this')
    if S.mode == 'con':
        raise Reject()
    ws = lambert(S, 'fastSolveW0')
    S.require(And(c.mRs > 0, c.mRsh > 0, c.mNVt > 0, c.mI0 > 0, c.mIL > 0, c.mVoc > EPS, c.mIsc > EPS))
    a = S.real('a')
    given = S.call(CELL + '::compute' + what, c, a, may_throw=True)
    S.st.pc += (Not(S.threw),)
    if what == 'Current':
        V, I = a, given
        z0 = V / c.mNVt * (1 - c.mRs / (c.mRs + c.mRsh)) + (c.mI0 + c.mIL) * c.mRs / c.mNVt / (1 + c.mRs / c.mRsh)
        S.ensure('short-circuit current at no voltage, none at open circuit', And(Implies(V <= EPS, I == c.mIsc), Implies(And(V > EPS, V >= c.mVoc), I == 0)))
        inside = And(V > EPS, V < c.mVoc)
    else:
        V, I = given, a
        z0 = (c.mI0 + c.mIL - I) * c.mRsh / c.mNVt
        S.ensure('open-circuit voltage at no current, none beyond the short-circuit current', And(Implies(I <= EPS, V == c.mVoc), Implies(And(I > EPS, I >= c.mIsc), V == 0)))
        inside = And(I > EPS, I < c.mIsc)
    S.st.pc += (B(inside),)
    assert len(ws) == 1, ws
    W = ws[0][0]
    x = (V + I * c.mRs) / c.mNVt
    S.ensure('the exponent of its law', x == z0 - W)
    e = lambda t: S.fun('exp', t)
    S.st.pc += (B(x == z0 - W), B(And(e(x) * e(W) == e(z0), e(x) > 0, e(W) > 0, e(z0) > 0)))      # proved just above; e^(a+b) = e^a e^b
    S.ensure('current and voltage obey the law of the single-diode circuit', I == diode(S, c, V, I))


def on_path(S, t):
    """a value without the alternatives of paths that are not taken"""
    t = R(t)
    while z3.is_app_of(t, z3.Z3_OP_ITE):
        c, a, b = t.children()
        for other, y in ((z3.Not(c), a), (c, b)):
            s = z3.Solver()
            s.set('timeout', 3000)
            s.add(*S.st.pc)
            s.add(other)
            if s.check() == z3.unsat:
                t = y
                break
        else:
            return t
    return t


def derived(S):
    c = S.obj(CELL, 'this')
    if S.mode == 'con':
        raise Reject()
    ws = lambert(S, 'fastSolveW1')
    S.require(And(c.mVoc > 0, c.mIsc > 0, c.mVmp > 0, c.mVmp < c.mVoc, c.mImp > 0, c.mImp < c.mIsc, c.mIdeality >= 1, c.mIdeality <= D(1.5), c.mTemperature > 0))
    S.call(CELL + '::derive', c, may_throw=True)
    S.st.pc += (Not(S.threw),)
    nv = c.mNVt
    e = lambda t: S.fun('exp', t)
    S.st.pc += (B(e(c.mVoc / nv) > 0), B(nv > 0))
    S.ensure('resistances and saturation current are positive', And(c.mRs > 0, c.mRsh > 0, c.mI0 > 0))
    S.ensure('without current at open circuit', c.mIL == c.mI0 * e(c.mVoc / nv) + c.mVoc / c.mRsh)
    S.ensure('short-circuit current without the diode', c.mIL * c.mRsh == c.mIsc * (c.mRsh + c.mRs))
    W = ws[0][0]
    vals = dict(Rs=on_path(S, c.mRs), Rsh=on_path(S, c.mRsh), I0=on_path(S, c.mI0), IL=on_path(S, c.mIL), nv=nv, W=W, Voc=c.mVoc, Isc=c.mIsc, Vmp=c.mVmp, Imp=c.mImp)
    vals.update(ev=e(c.mVoc / nv), eW=e(W), B=-c.mVmp * (2 * c.mImp - c.mIsc) / (c.mVmp * c.mIsc + c.mVoc * (c.mImp - c.mIsc)),
                C=-(2 * c.mVmp - c.mVoc) / nv + (c.mVmp * c.mIsc - c.mVoc * c.mImp) / (c.mVmp * c.mIsc + c.mVoc * (c.mImp - c.mIsc)))
    vals.update(eC=e(vals['C']))
    S.st.pc += (B(c.mVmp * c.mIsc + c.mVoc * (c.mImp - c.mIsc) != 0), B((c.mVmp - c.mImp * c.mRs) * (c.mIsc - c.mImp) - nv * c.mImp != 0))

    def laws(Rs, Rsh, I0, IL, nv, W, Voc, Isc, Vmp, Imp, ev, eW, eC, B, C):
        den = Vmp * Isc + Voc * (Imp - Isc)
        return [('series resistance', Rs * Imp == nv * (W - C) - (Vmp - Voc)), ('shunt resistance', Rsh * ((Vmp - Imp * Rs) * (Isc - Imp) - nv * Imp) == (Vmp - Imp * Rs) * (Vmp - Rs * (Isc - Imp) - nv)),
                ('saturation current', I0 * ev * Rsh == (Rsh + Rs) * Isc - Voc), ('photo current', IL * Rsh == (Rsh + Rs) * Isc), ('Lambert W', W * eW == B * eC)]
    rs, rsh = S.real('some.Rs'), S.real('some.Rsh')
    for n, f in laws(**vals):
        pc = S.st.pc
        if n == 'saturation current':      # it depends on the resistances only through their values
            f = z3.substitute(z3.substitute(B(f), (R(vals['Rsh']), R(rsh))), (R(vals['Rs']), R(rs)))
            S.st.pc = (B(rsh > 0), B(rs > 0), B(vals['ev'] > 0), B(nv > 0))
        S.ensure('parameters: ' + n, f)
        S.st.pc = pc
    # what follows from these for any such numbers
    S.st.pc = ()
    Rs, nv, Voc, Isc, Vmp, Imp, ev, eW, eC, ex, Wq, Bq = [S.real('q.' + n) for n in ('Rs', 'nv', 'Voc', 'Isc', 'Vmp', 'Imp', 'ev', 'eW', 'eC', 'ex', 'W', 'B')]
    den = Vmp * Isc + Voc * (Imp - Isc)
    b, cc = -Vmp * (2 * Imp - Isc) / den, -(2 * Vmp - Voc) / nv + (Vmp * Isc - Voc * Imp) / den
    w = Rs * Imp / nv + (Vmp - Voc) / nv + cc
    rd = (Vmp - Imp * Rs) * (Isc - Imp) - nv * Imp
    rsh = (Vmp - Imp * Rs) * (Vmp - Rs * (Isc - Imp) - nv) / rd
    il, i0 = (rsh + Rs) * Isc / rsh, ((rsh + Rs) * Isc - Voc) / (rsh * ev)
    pos = tuple(B(x > 0) for x in (Rs, nv, Voc, Isc, Vmp, Imp, ev, eW, eC, ex))
    S.st.pc = pos + (B(Wq <= -1), B(Wq * eW == Bq * eC), B(ex * eC == ev * eW))
    S.ensure('exponential at maximum power', ex * Wq == ev * Bq)
    S.st.pc = pos + (B(den != 0), B(w <= -1), B(rd != 0), B(rsh > 0))
    S.ensure('the exponent at maximum power', (Vmp + Imp * Rs) / nv == Voc / nv + w - cc)
    S.ensure('maximum power current at maximum power voltage', Imp == il - i0 * (ev * b / w) - (Vmp + Imp * Rs) / rsh)


HARNESSES += [('cell current', circuit, {'what': 'Current'}), ('cell voltage', circuit, {'what': 'Voltage'}), ('cell derived', derived, {}, {'check_div': False})]


# ---- strings of such cells
STR2 = 'GunnsElectPvString2'


def update_string2(S):
    s, cfg, inp, ng = groups(S, STR2)
    eq, ref = S.obj(CELL, 'eq'), S.obj(CELL, 'ref')
    S.dyn(eq, CELL)
    S.dyn(ref, CELL)
    S.bind(s, 'mEqProps', eq)
    S.bind(s, 'mRefCell', ref)
    if S.mode == 'con':
        raise Reject()
    nb = S.int('bypassed', 0, 1000)
    S.require(nb <= ng)
    S.use(STR + '::updateBypassedGroups', lambda K, this: K.assign(this, 'mNumBypassedGroups', nb))
    seen = {}

    def upd(K, this, r, T, flux, lost):
        K.require('cells are updated with the temperature, light and degradation of the string', And(T == inp.mTemperature, flux == inp.mPhotoFlux, lost == If(s.mMalfDegradeFlag, clamp(s.mMalfDegradeValue, 0, 1), 0)))
        for f in ('mVoc', 'mIsc', 'mVmp', 'mImp'):
            x = K.fresh_real(f)
            K.assume(x >= 0)
            seen[f] = x
            K.assign(this, f, x)
    S.use(CELL + '::update', upd)
    S.require(And(cfg.mBlockingDiodeVoltageDrop >= 0, cfg.mBypassDiodeVoltageDrop >= 0))
    S.call(STR2 + '::update', s)
    n = (ng - nb) * cfg.mBypassDiodeInterval
    drop = cfg.mBlockingDiodeVoltageDrop + nb * cfg.mBypassDiodeVoltageDrop
    S.ensure('the cells of bypassed groups do not work', s.mNumActiveCells == n)
    S.ensure('diodes in series drop their voltage', s.mSeriesVoltageDrop == drop)
    works = And(n > 0, inp.mTemperature > 1)
    m = s.mMpp
    S.ensure('no cells, no current and no power', Implies(Not(works), And(s.mShortCircuitCurrent == 0, s.mOpenCircuitVoltage == 0, m.mPower == 0, m.mCurrent == 0, m.mVoltage == 0, m.mConductance == 0)))
    S.ensure('cells in series share their current and add their voltages less the diodes', Implies(works, And(s.mShortCircuitCurrent == eq.mIsc, m.mCurrent == eq.mImp, s.mOpenCircuitVoltage == max_(0, eq.mVoc * n - drop), m.mVoltage == max_(0, eq.mVmp * n - drop))))
    S.ensure('maximum power is voltage times current', m.mPower == m.mVoltage * m.mCurrent)
    S.ensure('its conductance is current over voltage', If(m.mVoltage > 0, m.mConductance * m.mVoltage == m.mCurrent, m.mConductance == 0))


def scaled(S):
    """a cell at the reference temperature: everything scales with the light"""
    c, ref = S.obj(CELL, 'this'), S.obj(CELL, 'ref')
    S.dyn(c, CELL)
    S.dyn(ref, CELL)
    T, flux, lost = S.real('T'), S.real('flux'), S.real('lost', 0, 1)
    S.require(And(T > 1, flux >= 0, ref.mPhotoFlux > EPS, ref.mIsc > 0, ref.mVoc > 0, ref.mImp > 0, ref.mVmp > 0, ref.mSurfaceArea >= 0))
    if S.mode == 'con':
        raise Reject()
    S.use(CELL + '::derive', lambda K, this: [K.assign(this, f, K.fresh_real(f)) for f in ('mRs', 'mRsh', 'mI0', 'mIL', 'mNVt')] and None)
    S.call(CELL + '::update', c, ref, T, flux, lost)
    r = flux * (1 - lost) / ref.mPhotoFlux
    same = T == ref.mTemperature
    dT = T - ref.mTemperature
    voc, isc = ref.mVoc + dT * ref.mCoeffDVocDT, ref.mIsc * r + dT * ref.mCoeffDIscDT
    dead = Or(r <= EPS, And(Not(same), Or(voc <= EPS, isc <= EPS)))
    S.ensure('a dark cell gives nothing', Implies(dead, And(c.mIsc == 0, c.mVoc == 0, c.mImp == 0, c.mVmp == 0, c.mIL == 0)))
    S.ensure('currents scale with the light, resistances against it', Implies(And(Not(dead), same), And(c.mIsc == ref.mIsc * r, c.mImp == ref.mImp * r, c.mIL == ref.mIL * r, c.mI0 == ref.mI0 * r, c.mRs * r == ref.mRs, c.mRsh * r == ref.mRsh, c.mNVt == ref.mNVt, c.mVoc == ref.mVoc, c.mVmp == ref.mVmp)))
    S.ensure('temperature moves the end points by their coefficients and the maximum power point with them', Implies(And(Not(dead), Not(same)), And(c.mVoc == voc, c.mIsc == isc, c.mVmp * ref.mVoc == ref.mVmp * voc, c.mImp * ref.mIsc == ref.mImp * isc)))
    S.ensure('temperature is its own', Implies(Not(dead), And(c.mTemperature == T, c.mPhotoFlux == flux)))
    S.ensure('efficiency is maximum power over the light that falls on it', Implies(And(c.mSurfaceArea > 0, c.mPhotoFlux > 0), c.mEfficiency * c.mSurfaceArea * c.mPhotoFlux == c.mVmp * c.mImp))


def load_string2(S, how):
    s, eq = S.obj(STR2, 'this'), S.obj(CELL, 'eq')
    S.dyn(s, STR2)
    S.dyn(eq, CELL)
    S.bind(s, 'mEqProps', eq)
    if S.mode == 'con':
        raise Reject()
    from props.P07 import uf_
    S.use(CELL + '::computeCurrent', lambda K, this, v: uf_('cellCurrent', R(v)))
    a = S.real('a')
    m, t = s.mMpp, s.mTerminal
    S.require(And(s.mOpenCircuitVoltage >= 0, s.mShortCircuitCurrent >= 0, m.mVoltage >= 0, m.mCurrent >= 0, m.mPower == m.mVoltage * m.mCurrent))
    n = R(s.mNumActiveCells)
    cur = lambda v: If(s.mNumActiveCells > 0, uf_('cellCurrent', (v + s.mSeriesVoltageDrop) / n), R(0))
    if how == 'Voltage':
        S.call(STR2 + '::loadAtVoltage', s, a)
        S.ensure('at the voltage asked for', t.mVoltage == a)
    elif how == 'Conductance':
        S.call(STR2 + '::loadAtConductance', s, a)
        S.ensure('near open circuit for a small load and near short circuit for a large one', t.mVoltage == s.mOpenCircuitVoltage * If(a < m.mConductance, D(0.9999), D(0.0001)))
    else:
        side = S.bool('short')
        S.call(STR2 + '::loadAtPower', s, a, side)
        S.ensure('no power at either end of its curve', Implies(a <= EPS, And(t.mPower == 0, t.mVoltage == If(side, 0, s.mOpenCircuitVoltage), t.mCurrent == If(side, s.mShortCircuitCurrent, 0))))
        S.ensure('else at its maximum power point', Implies(a > EPS, And(t.mVoltage == m.mVoltage, t.mCurrent == m.mCurrent, t.mPower == m.mPower)))
    S.ensure('power is voltage times current', t.mPower == t.mVoltage * t.mCurrent)
    if how != 'Power':
        S.ensure('the current of its cells in series at their share of the voltage and the diode drops', t.mCurrent == cur(t.mVoltage))
        S.ensure('conductance is current over voltage', If(t.mVoltage > 0, t.mConductance * t.mVoltage == t.mCurrent, t.mConductance == 0))


HARNESSES += [('string of cells update', update_string2), ('cell scaled', scaled)] + [('string of cells at ' + h.lower(), load_string2, {'how': h}) for h in ('Voltage', 'Conductance', 'Power')]


# ---- the array
SHAPE = (2, 1)


def array(S, name='this', update=True, ok=True, **kw):
    k = link(S, 'GunnsElectPvArray', 1, name=name, **kw)
    a = k.this
    S.bounded('array of %d sections with %s strings' % (len(SHAPE), ' and '.join(str(n) for n in SHAPE)))
    secs = S.arr(SEC, len(SHAPE), name + '.sections')
    S.bind(a, 'mSections', secs)
    S.set(a.mConfig, 'mNumSections', len(SHAPE))
    S.set(a.mConfig, 'mNumStrings', sum(SHAPE))
    k.strings, k.sections, k.by = [], secs, {}
    for i, n in enumerate(SHAPE):
        st = S.arr(STR, n, '%s.strings%d' % (name, i))
        S.bind(S.addr_at(secs, i), 'mStrings', st)
        S.set(S.addr_at(secs, i), 'mNumStrings', n)
        for j in range(n):
            s = S.addr_at(st, j)
            S.dyn(s, STR)
            k.strings.append(s)
            k.by[(i, j)] = s
    return k


def lit(s):
    """a string that is working, or dark"""
    m = s.mMpp
    return Or(mpp_ok(s), And(m.mPower == 0, m.mVoltage == 0, m.mCurrent == 0, s.mShortCircuitCurrent == 0))


def total(xs):
    r = R(0)
    for x in xs:
        r = r + x
    return r


def update_array(S):
    k = array(S)
    a, st = k.this, k.strings
    for s in st:
        S.require(lit(s))
    if S.mode == 'con':
        raise Reject()
    S.use(SEC + '::update', lambda K, this, dt: None)
    S.call('GunnsElectPvArray::updateArray', a, S.real('dt', 0, 100))
    isc, vc, ic = a.mShortCircuitCurrent, a.mIvCornerVoltage, a.mIvCornerCurrent
    S.ensure('short-circuit currents of its strings add', isc == total(s.mShortCircuitCurrent for s in st))
    S.ensure('open-circuit voltage is the greatest of its strings', And(*[a.mOpenCircuitVoltage >= s.mOpenCircuitVoltage for s in st] + [Or(a.mOpenCircuitVoltage == 0, *[a.mOpenCircuitVoltage == s.mOpenCircuitVoltage for s in st])]))
    S.ensure('the corner of its curve lies at the voltage of the string with the most power', Or(And(vc == 0, *[s.mMpp.mPower <= 0 for s in st]), *[And(vc == s.mMpp.mVoltage, *[s.mMpp.mPower >= x.mMpp.mPower for x in st]) for s in st]))
    S.ensure('with the sum of the currents of its strings there', ic == total(curve(s, vc) for s in st))
    S.ensure('insolation is the mean of its sections', a.mPercentInsolation * len(SHAPE) == total(k.sections[i].mPercentInsolation for i in range(len(SHAPE))))


def mpp_array(S):
    """the maximum power point for any strings that share one curve: one string that stands for them"""
    k = array(S)
    a, st = k.this, k.strings
    for s in st[1:]:
        S.require(And(s.mMpp.mPower == 0, s.mMpp.mVoltage == 0, s.mMpp.mCurrent == 0, s.mOpenCircuitVoltage == 0, s.mShortCircuitCurrent >= 0))
    S.require(mpp_ok(st[0]))
    if S.mode == 'con':
        raise Reject()
    S.use(SEC + '::update', lambda K, this, dt: None)
    S.use(STR + '::predictCurrentAtVoltage', lambda K, this, v: K.this_current(this) if False else this.mMpp.mCurrent)
    S.call('GunnsElectPvArray::updateArray', a, S.real('dt', 0, 100))
    m, isc, vc, ic = a.mMpp, a.mShortCircuitCurrent, a.mIvCornerVoltage, a.mIvCornerCurrent
    dI = isc - ic
    live = And(dI > EPS, vc > EPS)
    S.ensure('no maximum power without light', Implies(Not(live), And(m.mPower == 0, m.mVoltage == 0, m.mCurrent == 0, m.mConductance == 0)))
    S.st.pc += (B(live),)
    S.ensure('maximum power on its curve, on the short-circuit side', And(m.mVoltage >= 0, m.mVoltage <= vc, m.mPower * vc == m.mVoltage * (isc * vc - dI * m.mVoltage)))
    big = m.mVoltage > EPS
    S.ensure('power is voltage times current', Implies(big, m.mPower == m.mVoltage * m.mCurrent))
    S.ensure('conductance is current over voltage', Implies(big, m.mConductance * m.mVoltage == m.mCurrent))
    v = S.real('v')
    S.ensure('no point of that side has more power', Implies(And(v >= 0, v <= vc), v * (isc - dI * v / vc) <= m.mPower))


def stamp_array(S):
    k = array(S)
    a = k.this
    S.require(And(a.mOpenCircuitVoltage >= a.mIvCornerVoltage, a.mIvCornerVoltage >= 0, a.mShortCircuitCurrent >= a.mIvCornerCurrent, a.mIvCornerCurrent >= 0))
    o = S.snap()
    S.call('GunnsElectPvArray::minorStep', a, S.real('dt', 0, 100), S.int('step', 1, 100))
    y, w = k.am[0], k.sv[0]
    on, op = a.mCommonStringsOutput, a.mOpenCircuitSide
    voc, isc, vc, ic = a.mOpenCircuitVoltage, a.mShortCircuitCurrent, a.mIvCornerVoltage, a.mIvCornerCurrent
    v = S.real('v')
    S.ensure('stamps nothing while its strings have no common output', Implies(Not(on), And(y == 0, w == 0)))
    S.ensure('stamps the open-circuit side of its curve', Implies(And(on, op, voc - vc > EPS), (w - y * v) * (voc - vc) == ic * (voc - v)))
    S.ensure('conductance of the short-circuit side of its curve', Implies(And(on, Not(op), vc > EPS), y * vc == isc - ic))
    S.ensure('current of the short-circuit side of its curve', Implies(And(on, Not(op), vc > EPS), w == isc))
    S.ensure('the solver is told when its contribution changes', a.mAdmittanceUpdate == Or(o(a).mAdmittanceUpdate, y != o(k.am)[0]))
    S.ensure('side and curve are kept', And(op == o(a).mOpenCircuitSide, voc == o(a).mOpenCircuitVoltage, isc == o(a).mShortCircuitCurrent, vc == o(a).mIvCornerVoltage, ic == o(a).mIvCornerCurrent))


REJECT, CONFIRM, DELAY = 0, 1, 2


def confirm_array(S):
    k = array(S)
    a = k.this
    o = S.snap()
    r = S.call('GunnsElectPvArray::confirmSolutionAcceptable', a, S.int('converged', 0, 100), S.int('absolute', 0, 100))
    right = k.pv[0] >= a.mIvCornerVoltage
    t = o(a)
    S.ensure('accepts a solution exactly when it lies on the side it was made for', r == If(And(a.mCommonStringsOutput, t.mOpenCircuitSide != right), REJECT, CONFIRM))
    S.ensure('the side the voltage lies on is next', a.mOpenCircuitSide == If(a.mCommonStringsOutput, right, t.mOpenCircuitSide))


def flows_array(S):
    k = array(S)
    a, st = k.this, k.strings
    for s in st:
        S.require(mpp_ok(s))
    o = S.snap()
    S.call('GunnsElectPvArray::computeFlows', a, S.real('dt', 0, 100))
    V = k.pv[0]
    f = o(k.sv)[0] - o(k.am)[0] * V
    S.ensure('flux is what its stamp gives at its voltage', And(a.mFlux == f, a.mPower == f * V, a.mPotentialDrop == -V))
    n = k.nodes
    S.ensure('its node alone receives the flux', S.forall(0, k.N + 1, lambda i: n[i].mInfluxRate - n[i].mOutfluxRate - (o(n[i]).mInfluxRate - o(n[i]).mOutfluxRate) == If(i == k.nm[0], f, 0)))
    at = If(k.nm[0] == k.N, o(a).mTerminal.mVoltage, V)
    for j, s in enumerate(st):
        t = s.mTerminal
        S.ensure('string %d is loaded at its voltage if the output is common' % j, If(a.mCommonStringsOutput, And(t.mVoltage == at, t.mCurrent == curve(s, at), t.mPower == t.mVoltage * t.mCurrent) if j == 0 else And(t.mVoltage == at, t.mCurrent == curve(s, at)), And(t.mVoltage == o(s).mTerminal.mVoltage, t.mCurrent == o(s).mTerminal.mCurrent)))


def acurve(a, v):
    voc, isc, vc, ic = a.mOpenCircuitVoltage, a.mShortCircuitCurrent, a.mIvCornerVoltage, a.mIvCornerCurrent
    return If(Or(v < EPS, v > voc), R(0), If(v < vc, isc - (isc - ic) * v / vc, ic * (voc - v) / (voc - vc)))


def acurve_ok(a):
    return And(a.mIvCornerVoltage > EPS, a.mIvCornerVoltage < a.mOpenCircuitVoltage, a.mIvCornerCurrent > 0, a.mIvCornerCurrent < a.mShortCircuitCurrent)


def predict_array(S):
    k = array(S)
    a = k.this
    S.require(acurve_ok(a))
    p, g, v = S.cell('double', 'power'), S.cell('double', 'conductance'), S.real('v')
    S.call('GunnsElectPvArray::predictLoadAtVoltage', a, p, g, v)
    i = acurve(a, v)
    out = Or(v < EPS, v > a.mOpenCircuitVoltage)
    S.ensure('no load beyond its curve', Implies(out, And(p[0] == 0, g[0] == 0)))
    S.ensure('power at a voltage is voltage times the current of its curve', Implies(Not(out), p[0] == v * max_(i, EPS)))
    S.ensure('conductance at a voltage is current over voltage', Implies(Not(out), g[0] * v == max_(i, EPS)))


def power_array(S, short):
    k = array(S)
    a = k.this
    S.require(acurve_ok(a))
    voc, isc, vc, ic = a.mOpenCircuitVoltage, a.mShortCircuitCurrent, a.mIvCornerVoltage, a.mIvCornerCurrent
    m, t = a.mMpp, a.mTerminal
    dI = isc - ic
    P = S.real('power')
    S.require(And(m.mVoltage > 0, m.mVoltage <= vc, m.mVoltage * 2 * dI <= isc * vc, m.mPower * vc == m.mVoltage * (isc * vc - dI * m.mVoltage)))
    o = S.snap()
    S.call('GunnsElectPvArray::loadAtPower', a, P, short)
    S.ensure('open circuit without a load', Implies(P < EPS, And(t.mVoltage == voc, t.mCurrent == 0, t.mPower == 0, t.mConductance == 0)))
    S.ensure('no load it cannot give', Implies(And(P >= EPS, P >= m.mPower), And(t.mVoltage == 0, t.mCurrent == 0, t.mPower == 0, t.mConductance == 0)))
    can = And(P >= EPS, P < m.mPower)
    disc = isc * isc - 4 * dI / vc * P if short else (ic / (voc - vc) * voc) * (ic / (voc - vc) * voc) - 4 * ic / (voc - vc) * P
    can = And(can, disc > 0)
    if S.mode == 'sym':
        S.st.pc += (B(can),)
    elif not truth_(can):
        return
    S.ensure('gives the power asked for', t.mPower == P)
    S.ensure('power is voltage times current', t.mPower == t.mVoltage * t.mCurrent)
    S.ensure('conductance is current over voltage', t.mConductance * t.mVoltage == t.mCurrent)
    big = t.mVoltage > EPS
    if short:
        S.ensure('on the short-circuit side of its curve', Implies(big, t.mCurrent * vc == isc * vc - dI * t.mVoltage))
    else:
        S.ensure('on the open-circuit side of its curve', Implies(big, t.mCurrent * (voc - vc) == ic * (voc - t.mVoltage)))


HARNESSES += [('array update', update_array), ('array maximum power', mpp_array), ('array stamp', stamp_array), ('array solution', confirm_array), ('array flows', flows_array), ('array predicted load', predict_array),
              ('array at power, short side', power_array, {'short': True}), ('array at power, open side', power_array, {'short': False})]


# ---- regulators
OFF, REG, SAG, SHORT = range(4)
TRIPS = (('mInOverVoltage', 'GunnsTripGreaterThan'), ('mInOverCurrent', 'GunnsTripGreaterThan'), ('mOutOverVoltage', 'GunnsTripGreaterThan'), ('mOutOverCurrent', 'GunnsTripGreaterThan'), ('mOutUnderVoltage', 'GunnsTripLessThan'))


def regulator(S, cls, ports, arr=None):
    k = link(S, cls, ports)
    r = k.this
    for n, c in TRIPS:
        S.dyn(S.addr(S.addr(r, 'mTrips'), n), c)
    for n in ('mInVoltage', 'mInCurrent', 'mOutVoltage', 'mOutCurrent'):
        S.bind(r.mSensors, n, None)
    k.arr = arr or array(S, 'array', nodes=k.nodes, nn=(k.N, k.nodelist))
    k.a = k.arr.this
    S.bind(r, 'mArray', k.a)
    return k


def tripped(r):
    return Or(*[getattr(r.mTrips, n).mIsTripped for n, c in TRIPS])


from props.P08 import fires, waits


def trip_chain(S, t, res, sensed, step):
    """the trips checked in order: (any fires, the answer, who is tripped after)"""
    some, after = False, {}
    for (n, c) in TRIPS:
        x = getattr(t.mTrips, n)
        v = sensed[n]
        beyond = v > x.mLimit if c == 'GunnsTripGreaterThan' else v < x.mLimit
        f, w = fires(x, beyond, step), waits(x, beyond, step)
        res = If(f, REJECT, If(And(w, res != REJECT), DELAY, res))
        some = Or(some, f)
        after[n] = Or(f, And(x.mIsTripped, Not(x.mMalfInhibitTrip)))
    return some, res, after


def conv(S, **kw):
    k = regulator(S, 'GunnsElectPvRegConv', 1, **kw)
    r = k.this
    S.require(And(r.mState >= 0, r.mState <= 3, r.mVoltageConvEfficiency >= EPS, r.mVoltageConvEfficiency <= 1, r.mVoltageConvLimit >= 1))
    return k


YMAX, YMIN = None, None


def conv_step(S):
    k = conv(S)
    r, a = k.this, k.a
    S.require(And(acurve_ok(a), r.mUserPortSetControl == 0))
    if S.mode == 'con':
        raise Reject()
    S.use('GunnsElectPvRegConv::updateRegulatorState', lambda K, this: K.fresh_bool('changed'))
    o = S.snap()
    t = o(r)
    S.call('GunnsElectPvRegConv::step', r, S.real('dt', 0, 100))
    lim, eff = r.mVoltageConvLimit, r.mVoltageConvEfficiency
    S.ensure('regulates to its set point and its malfunction', r.mRegulatedVoltage == max_(EPS, t.mVoltageSetpoint + t.mVoltageSetpointDelta + If(t.mMalfVoltageBiasFlag, t.mMalfVoltageBiasValue, 0)))
    reset = Or(t.mResetTrips, Not(t.mPowered))
    for n, c in TRIPS:
        S.ensure('%s trip is reset on command and without power' % n, getattr(r.mTrips, n).mIsTripped == And(getattr(t.mTrips, n).mIsTripped, Not(reset)))
    S.ensure('reset command is done', Not(r.mResetTrips))
    Y, W = r.mStateAdmittance, r.mStateSource
    vc, ic, voc, isc = a.mIvCornerVoltage * lim, a.mIvCornerCurrent * eff / lim, a.mOpenCircuitVoltage * lim, a.mShortCircuitCurrent / lim
    hi, lo = Y[REG], Y[OFF]
    S.ensure('off it gives nothing', And(W[OFF] == 0, lo > 0, lo < D(1e-6)))
    S.ensure('regulating it holds the regulated voltage', And(W[REG] == Y[REG] * r.mRegulatedVoltage, hi > D(1e3)))
    yo = ic / max_(voc - vc, EPS)
    S.ensure('sagging it follows the open-circuit side of the converted curve', And(Y[SAG] == clamp(yo, lo, hi), W[SAG] == Y[SAG] * voc))
    ys = (isc - ic) / max_(vc, EPS)
    S.ensure('shorted it follows the short-circuit side of the converted curve', And(Y[SHORT] == clamp(ys, lo, hi), W[SHORT] == isc))
    st = r.mState
    at = lambda arr: If(st == OFF, arr[OFF], If(st == REG, arr[REG], If(st == SAG, arr[SAG], arr[SHORT])))
    S.ensure('stamps the line of its state', And(k.am[0] == at(Y), k.sv[0] == at(W)))
    S.ensure('the solver is told when its contribution changes', r.mAdmittanceUpdate == Or(t.mAdmittanceUpdate, k.am[0] != o(k.am)[0]))
    vin = r.mRegulatedVoltage / lim
    S.ensure('greatest regulated current is what its array can give at that voltage', r.mMaxRegCurrent * vin * lim == If(Or(vin < EPS, vin > a.mOpenCircuitVoltage), 0, vin * max_(acurve(a, vin), EPS)) * eff)


def conv_state(S, trips):
    k = conv(S)
    r, a = k.this, k.a
    if S.mode == 'con':
        raise Reject()
    # the array's answer to a load (its own contract: any voltage)
    calls = {}

    def load(K, this, power, short):
        p = calls.setdefault('p', [])
        v, i = K.fresh_real('Vin'), K.fresh_real('Iin')
        K.assign(this, 'mTerminal.mVoltage', v)
        K.assign(this, 'mTerminal.mCurrent', i)
        K.assign(this, 'mTerminal.mPower', power)
        K.assign(this, 'mTerminal.mConductance', R(If(B(short), R(1), R(0))))
    S.use('GunnsElectPvArray::loadAtPower', load)
    if not trips:
        for n, c in TRIPS:
            S.set(getattr(r.mTrips, n), 'mPriority', 0)
    step = S.int('converged', 0, 100)
    o = S.snap()
    t = o(r)
    res = S.call('GunnsElectPvRegConv::confirmSolutionAcceptable', r, step, S.int('absolute', 0, 100))
    V = k.pv[0]
    st0 = t.mState
    back = V > t.mRegulatedVoltage
    off = Or(Not(And(t.mPowered, t.mEnabled)), tripped(t), And(st0 == REG, back), a.mMpp.mPower < EPS)
    some, want, after = trip_chain(S, t, R(0), dict(mInOverVoltage=a.mTerminal.mVoltage, mInOverCurrent=a.mTerminal.mCurrent, mOutOverVoltage=V, mOutOverCurrent=r.mFlux, mOutUnderVoltage=V), step)
    f = o(k.sv)[0] - o(k.am)[0] * V
    S.ensure('off it neither draws nor gives', Implies(off, And(r.mFlux == 0, r.mInputPower == 0, r.mOutputPower == 0)))
    S.ensure('gives what its stamp gives at the output voltage', Implies(Not(off), And(r.mFlux == f, r.mOutputPower == f * V)))
    S.ensure('draws what it gives over its efficiency', r.mInputPower * r.mVoltageConvEfficiency == r.mOutputPower)
    S.ensure('loads its array with what it draws, on the side of its state', And(a.mTerminal.mPower == r.mInputPower, (a.mTerminal.mConductance == 1) == And(Not(off), st0 == SHORT)))
    vin = a.mTerminal.mVoltage
    up = t.mStateUpmodeLatch
    can_reg = Or(vin * r.mVoltageConvLimit > t.mRegulatedVoltage, And(back, st0 == SAG))
    can_sag = Or(vin > a.mIvCornerVoltage, And(back, st0 == SHORT))
    target = If(off, OFF, If(can_reg, If(Or(st0 == REG, up), st0, REG), If(can_sag, If(And(st0 == SHORT, up), SHORT, SAG), SHORT)))
    if not trips:
        S.ensure('off when unpowered, disabled, tripped, dark or back-biased, else in the best state its array allows, rising once a step', r.mState == target)
        S.ensure('rejects a solution made in another state', res == If(And(step > 0, r.mState != st0), REJECT, CONFIRM))
        S.ensure('a rise is remembered for the step', r.mStateUpmodeLatch == Or(up, And(Not(off), Or(And(can_reg, st0 != REG), And(Not(can_reg), can_sag, st0 == SHORT)))))
    else:
        checked = And(step > 0, t.mPowered, t.mEnabled)
        base = If(And(step > 0, target != st0), REJECT, CONFIRM)
        some, want, after = trip_chain(S, t, base, dict(mInOverVoltage=a.mTerminal.mVoltage, mInOverCurrent=a.mTerminal.mCurrent, mOutOverVoltage=V, mOutOverCurrent=r.mFlux, mOutUnderVoltage=V), step)
        S.ensure('a trip turns it off', r.mState == If(And(checked, some), OFF, target))
        S.ensure('a trip rejects the solution, a waiting one delays it', res == If(checked, want, base))
        for n, c in TRIPS:
            S.ensure('%s trip is latched' % n, getattr(r.mTrips, n).mIsTripped == If(checked, after[n], getattr(t.mTrips, n).mIsTripped))


def conv_flows(S):
    k = conv(S)
    r = k.this
    o = S.snap()
    S.call('GunnsElectPvRegConv::computeFlows', r, S.real('dt', 0, 100))
    n = k.nodes
    S.ensure('what it draws and does not give becomes heat', And(r.mWasteHeat == r.mInputPower - r.mOutputPower, r.mPower == -r.mWasteHeat))
    S.ensure('its node alone receives the flux', S.forall(0, k.N + 1, lambda i: n[i].mInfluxRate - n[i].mOutfluxRate - (o(n[i]).mInfluxRate - o(n[i]).mOutfluxRate) == If(i == k.nm[0], r.mFlux, 0)))


# shunt regulator: loads strings of the array in its order
ORDER = ((1, 0), (0, 1), (0, 0))


def shunt(S, arr=None):
    k = regulator(S, 'GunnsElectPvRegShunt', 2, arr)
    r = k.this
    v = S.vec(r, 'mStringLoadOrder', 'GunnsElectPvStringLoadOrder', len(ORDER), 'order')
    for i, (a, b) in enumerate(ORDER):
        S.set(S.addr_at(v, i), 'mSection', a)
        S.set(S.addr_at(v, i), 'mString', b)
    k.order = [k.arr.by[x] for x in ORDER]
    S.require(And(r.mState >= 0, r.mState <= 1, r.mOutputConductance >= EPS, r.mShuntConductance >= EPS))
    return k


def shunt_load(S):
    k = shunt(S)
    r = k.this
    P = S.real('power')
    for s in k.order:
        S.require(mpp_ok(s))
    S.require(And(r.mRegulatedVoltage >= EPS))
    if S.mode == 'con':
        raise Reject()

    def cond(K, this, g):
        p = K.fresh_real('pShunt')
        K.assume(p >= 0)
        for f, x in (('mPower', p), ('mConductance', g)):
            K.assign(this, 'mTerminal.' + f, x)

    def volt(K, this, v):
        p, g = K.fresh_real('pLoad'), K.fresh_real('gLoad')
        K.assume(And(p >= 0, g >= 0))
        for f, x in (('mPower', p), ('mConductance', g), ('mVoltage', v)):
            K.assign(this, 'mTerminal.' + f, x)
    S.use(STR + '::loadAtConductance', cond)
    S.use(STR + '::loadAtVoltage', volt)
    o = S.snap()
    S.call('GunnsElectPvRegShunt::loadArray', r, P)
    pin, gin, psh = R(0), R(0), R(0)
    for i, s in enumerate(k.order):
        t = s.mTerminal
        sh = Or(P < 0, pin >= P)
        S.ensure('string %d of the order is shunted once the strings before it give the power, or all without load' % i, s.mShunted == sh)
        S.ensure('a shunted string %d has the shunt as its load' % i, Implies(sh, t.mConductance == r.mShuntConductance))
        S.ensure('string %d taken back from the shunt is loaded at the regulated voltage' % i, Implies(And(Not(sh), o(s).mShunted), t.mVoltage == r.mRegulatedVoltage))
        S.ensure('string %d that stays on its load is not touched' % i, Implies(And(Not(sh), Not(o(s).mShunted)), And(t.mPower == o(s).mTerminal.mPower, t.mVoltage == o(s).mTerminal.mVoltage)))
        pin, gin, psh = pin + If(sh, 0, t.mPower), gin + If(sh, 0, t.mConductance), psh + If(sh, t.mPower, 0)
    S.ensure('input power and conductance are those of the loaded strings', And(r.mInputPower == pin, r.mInputConductance == gin))
    S.ensure('shunt power is that of the shunted strings', r.mShuntPower == psh)


def shunt_step(S):
    k = shunt(S)
    r, a = k.this, k.a
    S.require(And(acurve_ok(a), r.mUserPortSetControl == 0))
    for s in k.order:
        S.require(mpp_ok(s))
    o = S.snap()
    t = o(r)
    S.call('GunnsElectPvRegShunt::step', r, S.real('dt', 0, 100))
    v = max_(EPS, t.mVoltageSetpoint + If(t.mMalfVoltageBiasFlag, t.mMalfVoltageBiasValue, 0))
    S.ensure('regulates to its set point and its malfunction', r.mRegulatedVoltage == v)
    reset = Or(t.mResetTrips, Not(t.mPowered))
    for n, c in TRIPS:
        S.ensure('%s trip is reset on command and without power' % n, getattr(r.mTrips, n).mIsTripped == And(getattr(t.mTrips, n).mIsTripped, Not(reset)))
    for i, s in enumerate(k.order):
        S.ensure('string %d starts loaded at the regulated voltage' % i, And(Not(s.mShunted), s.mTerminal.mVoltage == v, s.mTerminal.mCurrent == curve(s, v)))
    S.ensure('greatest regulated current is that of its strings at the regulated voltage', r.mMaxRegCurrent == total(curve(s, v) for s in k.order))
    out = Or(v < EPS, v > a.mOpenCircuitVoltage)
    S.ensure('available power is what its array gives there', r.mPvBulkPowerAvail == If(out, 0, v * max_(acurve(a, v), EPS)))
    on = And(t.mPowered, t.mEnabled, Or(reset, Not(tripped(t))), a.mMpp.mPower >= EPS, r.mPvBulkPowerAvail >= t.mMinOperatePower)
    S.ensure('regulates exactly when powered, enabled, not tripped and lit enough', r.mState == If(on, REG, OFF))
    S.ensure('turning on is remembered for the step', r.mOffToRegOccurred == And(on, t.mState == OFF))
    stamp_shunt(S, k, o)


def stamp_shunt(S, k, o):
    r = k.this
    y, w = k.am, k.sv
    on = r.mState == REG
    S.ensure('input and output sides are not connected', And(y[1] == 0, y[2] == 0))
    S.ensure('the input is loaded with the conductance of its strings', And(y[0] == r.mInputConductance, w[0] == 0))
    S.ensure('regulating, the output is held at the regulated voltage over the output conductance', Implies(on, And(y[3] == r.mOutputConductance, w[1] == r.mOutputConductance * r.mRegulatedVoltage)))
    S.ensure('off, the output gives nothing', Implies(Not(on), And(w[1] == 0, y[3] >= 0, y[3] < D(1e-9))))
    y0 = o(k.am)
    S.ensure('the solver is told when its contribution changes (beyond the floor of an off output) or a rebuild was due', Implies(Or(o(r).mAdmittanceUpdate, y[0] != y0[0], And(y[3] != y0[3], Or(on, y0[3] != 0))), r.mAdmittanceUpdate))


def shunt_confirm(S, trips):
    k = shunt(S)
    r, a = k.this, k.a
    if S.mode == 'con':
        raise Reject()
    S.require(And(r.mTripPriority >= 1, r.mTripPriority < 1000))

    def load(K, this, power):
        t = K.snap()(this)
        p = K.fresh_real('pIn')
        K.assign(this, 'mInputPower', p)
        K.assign(this, 'mInputConductance', K.fresh_real('gIn'))
        K.assign(this, 'mShuntPower', K.fresh_real('pShunt'))
        K.assign(this, 'mWasteHeat', power)       # remembers the load asked for
    S.use('GunnsElectPvRegShunt::loadArray', load)
    if not trips:
        for n, c in TRIPS:
            S.set(getattr(r.mTrips, n), 'mPriority', 0)
            S.set(getattr(r.mTrips, n), 'mMalfInhibitTrip', False)
    step = S.int('converged', 0, 1000)
    o = S.snap()
    t = o(r)
    res = S.call('GunnsElectPvRegShunt::confirmSolutionAcceptable', r, step, S.int('absolute', 0, 1000))
    V = k.pv[1]
    st0 = t.mState
    oper = And(t.mPowered, t.mEnabled, Not(tripped(t)))
    back = And(st0 == REG, V > t.mRegulatedVoltage)
    demand = t.mRegulatedVoltage * o(k.am)[3] * (t.mRegulatedVoltage - V)
    conv_ = step > 0
    mid = If(back, OFF, st0)
    regc = And(oper, conv_, mid == REG)
    offc = And(oper, conv_, mid == OFF)
    short = And(regc, r.mInputPower < demand, t.mPvBulkPowerAvail < demand)
    start = And(offc, t.mPvBulkPowerAvail >= t.mMinOperatePower, Not(t.mOffToRegOccurred))
    due = step >= t.mTripPriority
    base_r = If(And(oper, back), REJECT, CONFIRM)
    base = If(Or(short, start), If(due, REJECT, DELAY), base_r)
    state = If(And(oper, back), OFF, st0)
    state = If(And(short, due), OFF, If(And(start, due), REG, state))
    S.ensure('regulating, its strings are loaded with the demand of the output', Implies(regc, r.mWasteHeat == demand))
    S.ensure('off, its strings are all shunted', Implies(And(offc, Not(start)), r.mWasteHeat == -1))
    flux = If(state == REG, (t.mRegulatedVoltage - V) * o(k.am)[3], R(0))
    checked = And(conv_, base != REJECT)
    S.ensure('gives the current its stamp gives at the output voltage, none when off', Implies(checked, r.mFlux == flux))
    if not trips:
        S.ensure('turns off on back bias, or at its priority when the strings cannot give the demand, and on again once when they can', r.mState == state)
        S.ensure('rejects a solution made in another state and waits for its priority', res == base)
        S.ensure('turning on again is remembered for the step', r.mOffToRegOccurred == Or(t.mOffToRegOccurred, And(start, due)))
        S.ensure('the array has its common output unless it regulates', a.mCommonStringsOutput == If(oper, state != REG, o(a).mCommonStringsOutput))
    else:
        first = k.order[0].mTerminal
        S.require(And(t.mPvBulkPowerAvail >= demand, Or(t.mOffToRegOccurred, t.mPvBulkPowerAvail < t.mMinOperatePower)))
        some, want, after = trip_chain(S, t, base, dict(mInOverVoltage=first.mVoltage, mInOverCurrent=first.mCurrent, mOutOverVoltage=V, mOutOverCurrent=r.mFlux, mOutUnderVoltage=V), step)
        ck = And(checked, oper)
        S.ensure('a trip turns it off', r.mState == If(And(ck, some), OFF, state))
        S.ensure('a trip rejects the solution, a waiting one delays it', res == If(ck, want, base))
        for n, c in TRIPS:
            S.ensure('%s trip is latched' % n, getattr(r.mTrips, n).mIsTripped == If(ck, after[n], getattr(t.mTrips, n).mIsTripped))


def shunt_flows(S):
    k = shunt(S)
    r = k.this
    o = S.snap()
    S.call('GunnsElectPvRegShunt::computeFlows', r, S.real('dt', 0, 100))
    on = r.mState == REG
    f, V, n = r.mFlux, k.pv[1], k.nodes
    S.ensure('gives the power of its current at the output voltage', r.mOutputPower == If(on, f * V, 0))
    S.ensure('loses the drop from the regulated to the output voltage', r.mPower == If(on, -f * (r.mRegulatedVoltage - V), 0))
    S.ensure('off it draws nothing', Implies(Not(on), r.mInputPower == 0))
    S.ensure('shunted power and losses become heat', r.mWasteHeat == r.mShuntPower - r.mPower)
    S.ensure('what leaves the input node enters the output node', S.forall(0, k.N + 1, lambda i: n[i].mInfluxRate - n[i].mOutfluxRate - (o(n[i]).mInfluxRate - o(n[i]).mOutfluxRate) == If(i == k.nm[1], f, 0) - If(i == k.nm[0], f, 0)))


HARNESSES += [('converter regulator step', conv_step), ('converter regulator state', conv_state, {'trips': False}), ('converter regulator trips', conv_state, {'trips': True}), ('converter regulator flows', conv_flows),
              ('shunt regulator strings', shunt_load), ('shunt regulator step', shunt_step), ('shunt regulator state', shunt_confirm, {'trips': False}), ('shunt regulator trips', shunt_confirm, {'trips': True}), ('shunt regulator flows', shunt_flows)]
