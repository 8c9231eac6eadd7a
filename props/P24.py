"""Load switches, selectors, internal power supplies and power buses."""
from gcv.api import *
from gcv.lib import *
from props import P06, P08, P11
ID = 'P24'
E = 'aspects/electrical/'
SOURCES = ['core/GunnsBasicLink.cpp', 'core/GunnsBasicConductor.cpp', 'core/GunnsBasicNode.cpp', E + 'TripLogic/GunnsTripLogic.cpp', E + 'Switch/GunnsElectSwitchUtil.cpp', E + 'Switch/GunnsElectSwitchUtil2.cpp', E + 'Switch/Switch.cpp',
           E + 'Switch/SwitchElect.cpp', E + 'Switch/GunnsElectUserLoadSwitch.cpp', E + 'Switch/GunnsElectUserLoadSwitch2.cpp', E + 'Switch/GunnsElectSelector.cpp', E + 'UserLoad/UserLoadBase.cpp', E + 'UserLoad/ConstantPowerLoad.cpp',
           E + 'UserLoad/ResistiveLoad.cpp', E + 'UserLoad/GunnsElectUserLoad.cpp', E + 'UserLoad/GunnsElectConstantPowerUserLoad.cpp', E + 'UserLoad/GunnsElectResistiveUserLoad.cpp', E + 'resistive/GunnsShortUtil.cpp',
           E + 'resistive/GunnsElectricalResistor.cpp', E + 'resistive/GunnsResistiveLoad.cpp', E + 'PowerBus/PowerBusElect.cpp', E + 'IPS/GunnsElectIps.cpp', 'gunns-ts-models/common/sensors/SensorAnalog.cpp', 'gunns-ts-models/common/sensors/SensorBase.cpp',
           'ms-utils/math/UnitConversion.cpp']
HEADERS = [E + 'Switch/GunnsElectUserLoadSwitch.hh', E + 'Switch/GunnsElectUserLoadSwitch2.hh', E + 'Switch/SwitchElect.hh', E + 'UserLoad/GunnsElectConstantPowerUserLoad.hh', E + 'UserLoad/GunnsElectResistiveUserLoad.hh', E + 'PowerBus/PowerBusElect.hh', E + 'IPS/GunnsElectIps.hh']
INLINE = ['GunnsElectUserLoadSwitch::minorStep', 'GunnsElectUserLoadSwitch2::minorStep', 'GunnsElectUserLoadSwitch::isNonLinear', 'GunnsElectUserLoadSwitch2::isNonLinear', 'GunnsElectUserLoadSwitch::setLoadsOverride', 'GunnsElectUserLoadSwitch2::setLoadsOverride']
META = dict(
    title='Load switches, selectors, power supplies and buses feed only what is connected',
    statement='A switch with user loads gives its loads the voltage behind its resistance, or the override voltage, and none while it is open, conducts the series of switch and parallel loads and short, and confirms a solution only if no fuse blew and no trip fired or waits. A selector connects its first port to the selected port only, with its conductance; an internal power supply draws its load from one source that is available and not more than its tolerance below a better one, and rejects a solution when it changed source or a source voltage is negative. A power bus loads its node with the sum of its loads, within limits, and each of these tells the solver of every change of its contribution and its flow and power are those of the solution.',
    over=['inputs', 'histories'],
    quant='all potentials, commands, malfunctions, override voltages, trip and fuse limits, loads, duty cycles, port selections and prior states of each link',
    why='unit tests step each link through a few scripted states; contributions left over from an earlier state, source changes and simultaneous fuse, trip and override events are not enumerable',
    files=[E + 'Switch/GunnsElectUserLoadSwitch.cpp', E + 'Switch/GunnsElectUserLoadSwitch2.cpp', E + 'Switch/SwitchElect.cpp', E + 'Switch/GunnsElectSelector.cpp', E + 'UserLoad/GunnsElectUserLoad.cpp', E + 'UserLoad/GunnsElectConstantPowerUserLoad.cpp',
           E + 'UserLoad/GunnsElectResistiveUserLoad.cpp', E + 'resistive/GunnsResistiveLoad.cpp', E + 'PowerBus/PowerBusElect.cpp', E + 'IPS/GunnsElectIps.cpp'],
    mech=[('load switches', E + 'Switch/GunnsElectUserLoadSwitch.cpp GunnsElectUserLoadSwitch::updateState, buildConductance, confirmSolutionAcceptable, computeFlux, computePower; GunnsElectUserLoadSwitch2 likewise'),
          ('selector', E + 'Switch/GunnsElectSelector.cpp GunnsElectSelector::step, computeFlows'), ('internal power supply', E + 'IPS/GunnsElectIps.cpp GunnsElectIps::confirmSolutionAcceptable, step, computeFlows'),
          ('power bus', E + 'PowerBus/PowerBusElect.cpp PowerBusElect::step, computeFlows'), ('duty cycles', E + 'UserLoad/GunnsElectUserLoad.cpp GunnsElectUserLoad::stepDutyCycle')],
    note='bounded to switches with none or two user loads, selectors of 3 ports, power supplies of 3 sources and buses of 2 loads; otherwise unbounded. Real arithmetic stands for floating point; the sensors of the second load switch are without noise and unit conversion; the power bus is without a plug (plugs are decided elsewhere).')
CPL, RL = 0, 1
EPS, COND, LIM = D(2.220446049250313e-16), 1.0E15, 2.220446049250313e-14
REJECT, CONFIRM, DELAY = 0, 1, 2
OVG = D(1.0e8)
SENS = ('mCurrentSensor', 'mInputVoltageSensor', 'mOutputVoltageSensor')


def load(S, name, res=False):
    cls = 'GunnsElectResistiveUserLoad' if res else 'GunnsElectConstantPowerUserLoad'
    u = S.obj(cls, name)
    S.dyn(u, cls)
    S.dyn(S.addr(u, 'mLoad'), 'ResistiveLoad' if res else 'ConstantPowerLoad')
    q = u.mLoad
    S.require(And(q.mUnderVoltageLimit >= 0, q.mLoadOperMode >= 0, q.mLoadOperMode <= 2, q.mEquivalentResistance > 0, Not(q.mMalfOverrideCurrentFlag), Not(q.mMalfOverridePowerFlag)))
    if res:
        S.write(u, 'mLoad.mPrintMessageOnce', True)
        S.require(And(q.mResistanceNormal > 0, q.mResistanceStandby > 0))
    else:
        S.require(And(q.mPowerNormal >= 0, q.mPowerStandby >= 0))
    return u


def lswitch(S, two=False, loads=2, sym=None):
    cls = 'GunnsElectUserLoadSwitch2' if two else 'GunnsElectUserLoadSwitch'
    k = link(S, cls, 2)
    this = k.this
    S.set(this, 'mUserPortSetControl', 0)
    k.cls, k.two = cls, two
    k.loads = [load(S, 'load%d' % i, res=bool(i)) for i in range(loads)]
    arr = S.vec(this, 'mUserLoads', 'GunnsElectUserLoad*', loads, 'loads')
    for i, u in enumerate(k.loads):
        S.bind(arr, i, u)
    if two:
        for f, c in P08.TR.items():
            S.dyn(S.addr(S.addr(this, 'mSwitch'), f), c)
        S.require(this.mSwitch.mResistance >= D(1.1920928955078125e-07))
        if S.mode == 'con':
            n = S.addr(S.addr(this, 'mSwitch'), 'mName')
            S.wr(n._p, '<Q', n._p + 16)
            S.wr(n._p + 8, '<Q', 0)
        for x in SENS:
            q = S.addr(this, x)
            S.set(q, 'mUnitConversion', 0)
            S.bind(q, 'mNoiseFunction', None)
            S.require(q.mMinRange < q.mMaxRange)
            S.set(q, 'mMalfResolutionFlag', False)
            S.set(q, 'mNominalResolution', 0)
    else:
        P08.strs(S, S.addr(this, 'mSwitch'), 'mSwitchCardName')
        S.require(this.mSwitch.mDefaultSwitchResistance > 0)
        S.set(S.addr(this, 'mSwitch'), 'mMalfFailResistance', False)
    s = this.mShort
    S.require(And(s.mShortConductance >= 0, s.mPreviousPower >= 0, s.mPreviousCurrent >= 0, Or(s.mPreviousPower == 0, s.mPreviousCurrent == 0)))
    return k


def closed(k, o):
    """position after the update of the switch state (decided under P08)"""
    v, ov = o(k.this).mSwitch, o(k.this).mLoadsOverrideActive
    if k.two:
        cmd = And(v.mPositionCommand, Not(ov))
        rs = Or(v.mResetTripsCommand, And(P08.tripped(v), Not(cmd)))
        hold = And(Not(rs), Or(P08.tripped(v), v.mWaitingToTrip))
        return If(v.mMalfFailClosed, True, If(v.mMalfFailOpen, False, If(hold, v.mPosition, cmd)))
    cmd = And(v.mSwitchCommandedClosed, Not(ov))
    hold = Or(v.mPosTrip, v.mNegTrip, v.mExternalTrip, v.mWaitingToTrip)
    return If(v.mMalfFailClosed, True, If(v.mMalfFailOpen, False, If(hold, v.mSwitchIsClosed, cmd)))


def is_closed(k):
    return k.this.mSwitch.mPosition if k.two else k.this.mSwitch.mSwitchIsClosed


def rsw(k, o):
    v = o(k.this).mSwitch
    return v.mResistance if k.two else v.mDefaultSwitchResistance


def short_law(t, V):
    a = abs_
    P, I = a(t.mMalfInitialPowerValue), a(t.mMalfInitialCurrentValue)
    v2, v1 = max_(V * V, EPS), max_(a(V), EPS)
    return If(t.mMalfConstantPowerFlag, a(t.mMalfConstantPowerValue) / v2, If(t.mMalfConstantCurrentFlag, a(t.mMalfConstantCurrentValue) / v1,
              If(t.mMalfInitialPowerFlag, If(And(P != 0, P == t.mPreviousPower), t.mShortConductance, P / v2), If(t.mMalfInitialCurrentFlag, If(And(I != 0, I == t.mPreviousCurrent), t.mShortConductance, I / v1),
              If(t.mMalfResistanceFlag, 1 / max_(t.mMalfResistanceValue, EPS), 0)))))


def ls_state(S, two=False, loads=2):
    k = lswitch(S, two, loads)
    this = k.this
    if loads:                      # user loads hang on a switch to ground
        S.require(k.nm[1] == k.N)
    if not two:
        # mode of the short: the law of all modes is decided under P11
        pass
    S.require(conj([Not(getattr(this.mShort, f)) for f in ('mMalfInitialPowerFlag', 'mMalfInitialCurrentFlag', 'mMalfConstantPowerFlag', 'mMalfConstantCurrentFlag')]))
    o = S.snap()
    S.call(k.cls + '::updateState', this, S.real('dt', 0, 100))
    t = o(this)
    ov, C = t.mLoadsOverrideActive, is_closed(k)
    S.ensure('position as commanded, open while the loads are overridden, unless held or failed', C == closed(k, o))
    Rs = rsw(k, o)
    V = If(ov, t.mLoadsOverrideVoltage, If(And(C, t.mFlux >= 0), max_(0, k.pv[0] - t.mFlux * Rs), 0) if loads else R(0))
    S.ensure('the loads see the voltage behind the switch, the override voltage, or none', this.mLoadsVoltage == V)
    g = D(LIM)
    for i, u in enumerate(k.loads):
        q = u.mLoad
        S.ensure('load %d gets the voltage of the switch' % i, And(u.mSupplyVoltage == this.mLoadsVoltage, q.mVoltage == If(o(u).mLoad.mMagicPowerFlag, o(u).mLoad.mMagicPowerValue, If(Or(o(u).mLoad.mFuseIsBlown, o(u).mLoad.mMalfBlowFuse), 0, this.mLoadsVoltage))))
        g = g + 1 / max_(EPS, q.mEquivalentResistance)
    s = t.mShort
    sh = If(And(C, Not(ov)), If(s.mMalfResistanceFlag, 1 / max_(s.mMalfResistanceValue, EPS), 0), 0)
    if loads:
        Rt = Rs + 1 / (g + sh)
    else:
        Rt = If(k.nm[1] == k.N, D(COND), Rs)
    S.ensure('the link conducts through switch, loads and short, and nothing when open', this.mEffectiveConductivity == If(C, 1 / Rt, 0))
    S.ensure('the override is kept', And(this.mLoadsOverrideActive == ov, this.mLoadsOverrideVoltage == t.mLoadsOverrideVoltage))
    P06.same_vec(S, k, o)


def ls_short(S, two=False):
    """the short works at the voltage of the loads"""
    k = lswitch(S, two, 0)
    this = k.this
    S.require(And(k.nm[1] != k.N, Not(this.mLoadsOverrideActive)))
    o = S.snap()
    S.call(k.cls + '::updateState', this, S.real('dt', 0, 100))
    s = o(this).mShort
    S.ensure('short of a closed switch at the voltage of the loads', Implies(is_closed(k), this.mShort.mShortConductance == short_law(s, this.mLoadsVoltage)))
    S.ensure('no short behind an open switch', Implies(Not(is_closed(k)), this.mShort.mShortConductance == s.mShortConductance))


def stamped(k):
    """invariant: the matrix is a conductance stamp or that of the override"""
    a = k.am
    return Or(And(a[1] == -a[0], a[2] == -a[0], a[3] == a[0]), And(a[0] == 0, a[1] == 0, a[2] == 0, a[3] == OVG))


def ls_build(S, two=False):
    k = lswitch(S, two, 0)
    this = k.this
    S.require(stamped(k))
    S.require(And(this.mSystemConductance >= 0, this.mSystemConductance <= D(COND)))
    o = S.snap()
    S.call(k.cls + '::buildConductance', this)
    t = o(this)
    ov, g = t.mLoadsOverrideActive, t.mSystemConductance
    a, b = k.am, o(k.am)
    want = [If(ov, 0, g), If(ov, 0, -g), If(ov, 0, -g), If(ov, OVG, g)]
    S.ensure('conductance between the ports, or a source on the loads port while they are overridden', conj([a[i] == want[i] for i in range(4)]))
    S.ensure('the solver is told when the matrix changed', Implies(disj([a[i] != b[i] for i in range(4)]), this.mAdmittanceUpdate))
    S.ensure('no needless rebuild', Implies(conj([a[i] == b[i] for i in range(4)]), this.mAdmittanceUpdate == t.mAdmittanceUpdate))
    S.ensure('source of the override only', And(k.sv[0] == 0, k.sv[1] == If(ov, t.mLoadsOverrideVoltage * OVG, 0)))
    S.ensure('the matrix is a stamp', stamped(k))


def ls_step(S, two=False, minor=False):
    """the step updates and stamps; duty cycles in major steps only"""
    k = lswitch(S, two, 2)
    this = k.this
    S.require(stamped(k))
    S.require(And(k.nm[1] == k.N, Not(this.mMalfBlockageFlag)))
    for u in k.loads:
        S.require(And(u.mDutyCyclePeriod >= 0, u.mDutyCycleTimer >= 0))
    dt = S.real('dt', 0, 100)
    o = S.snap()
    if minor:
        S.call(k.cls + '::minorStep', this, dt, 1)
    else:
        S.call(k.cls + '::step', this, dt)
    g = clamp(this.mEffectiveConductivity, 0, D(COND))
    ov = o(this).mLoadsOverrideActive
    S.ensure('the matrix follows the conductivity', k.am[0] == If(ov, 0, g))
    for i, u in enumerate(k.loads):
        v = o(u)
        if minor:
            S.ensure('load %d keeps its duty cycle in minor steps' % i, And(u.mDutyCycleTimer == v.mDutyCycleTimer, u.mLoad.mLoadOperMode == v.mLoad.mLoadOperMode))
        else:
            S.ensure('load %d steps its duty cycle' % i, And(*duty(u, v, dt)))


def duty(u, v, dt):
    on = v.mDutyCyclePeriod > 0
    n = v.mDutyCycleTimer + dt
    n = If(n > v.mDutyCyclePeriod, 0, n)
    return [u.mDutyCycleTimer == If(on, n, v.mDutyCycleTimer), u.mLoad.mLoadOperMode == If(on, If(n > v.mDutyCycleFraction * v.mDutyCyclePeriod, 0, 1), v.mLoad.mLoadOperMode)]


def duty_cycle(S, res=False, spotter=False):
    u = load(S, 'this', res)
    S.require(And(u.mDutyCyclePeriod >= 0, u.mDutyCycleTimer >= 0))
    dt = S.real('dt', 0, 100)
    o = S.snap()
    S.call('GunnsElectUserLoad::stepPreSolver' if spotter else 'GunnsElectUserLoad::stepDutyCycle', u, dt)
    v = o(u)
    a, b = duty(u, v, dt)
    S.ensure('time within the cycle, starting over after its period', a)
    S.ensure('on for its fraction of the cycle and off for the rest, as set without a cycle', b)
    S.ensure('settings unchanged', And(u.mDutyCycleFraction == v.mDutyCycleFraction, u.mDutyCyclePeriod == v.mDutyCyclePeriod))


def fuses(k, o, V):
    """fuses are looked at in order until one blows"""
    out, any_ = [], BV(False)
    for u in k.loads:
        q = o(u).mLoad
        b = And(Not(any_), q.mFuseCurrentLimit > 0, Not(q.mFuseIsBlown), V / max_(q.mEquivalentResistance, EPS) > q.mFuseCurrentLimit)
        out.append(b)
        any_ = Or(any_, b)
    return out, any_


def BV(x):
    return z3.BoolVal(x)


def flux_of(k, o):
    """flux of the solution"""
    t, p, a, w = o(k.this), k.pv, o(k.am), o(k.sv)
    d = p[0] - p[1]
    nrm = If(abs_(d) < max_(p[0], p[1]) * D(LIM), 0, d * a[0])
    return If(t.mLoadsOverrideActive, If(k.nm[1] != k.N, -p[1] * a[3] + w[1], t.mFlux), nrm)


def ls_confirm(S, two=False):
    k = lswitch(S, two, 2)
    this = k.this
    S.require(stamped(k))
    n = S.int('step', 0, 100)
    absn = S.int('absolute', 0, 100)
    S.require(And(n <= absn))
    o = S.snap()
    r = S.call(k.cls + '::confirmSolutionAcceptable', this, n, absn)
    t = o(this)
    fz, anyf = fuses(k, o, k.pv[0])
    first = n == 1
    for i, u in enumerate(k.loads):
        q = o(u).mLoad
        S.ensure('fuse %d blows above its limit, in order' % i, u.mLoad.mFuseIsBlown == Or(q.mFuseIsBlown, And(first, fz[i])))
    fused = And(first, anyf)
    looked = And(n > 0, Not(fused))
    S.ensure('flux of the solution', Implies(looked, this.mFlux == flux_of(k, o)))
    w = this.mSwitch
    if two:
        for x, v in zip(SENS, (this.mFlux, k.pv[0], t.mLoadsVoltage)):
            S.ensure('senses the solution: ' + x, Implies(looked, getattr(this, x).mTruthInput == v))
        just, wait = w.mJustTripped, w.mWaitingToTrip
        i, v = this.mCurrentSensor.mSensedOutput, this.mInputVoltageSensor.mSensedOutput
        g = lambda x: getattr(t.mSwitch, x)
        beyond = {'mInputUnderVoltageTrip': v < g('mInputUnderVoltageTrip').mLimit, 'mInputOverVoltageTrip': v > g('mInputOverVoltageTrip').mLimit, 'mPosOverCurrentTrip': i > g('mPosOverCurrentTrip').mLimit, 'mNegOverCurrentTrip': i < g('mNegOverCurrentTrip').mLimit}
        armed = And(t.mSwitch.mPositionCommand, Not(P08.tripped(t.mSwitch)), Not(t.mSwitch.mMalfFailClosed), looked)
        f = disj([And(armed, P08.fires(g(x), beyond[x], n)) for x in P08.TRIPS])
        wt = And(Not(f), disj([And(armed, P08.waits(g(x), beyond[x], n)) for x in P08.TRIPS]))
        clean = Not(P08.tripped(t.mSwitch))
        S.ensure('a trip on the sensed values is rejected', Implies(f, r == REJECT))
        S.ensure('a pending trip delays', Implies(wt, r == DELAY))
        S.ensure('anything else is confirmed', Implies(And(looked, clean, Not(f), Not(wt)), r == CONFIRM))
    else:
        sensed = If(t.mSwitch.mSwitchIsClosed, this.mFlux, 0)
        prot = And(t.mSwitch.mOverCurrentProtection, Not(t.mSwitch.mMalfFailClosed))
        b = And(prot, Or(sensed > t.mSwitch.mActivePosTripLimit, sensed < t.mSwitch.mActiveNegTripLimit))
        due = n >= t.mSwitch.mTripPriority
        S.require(t.mSwitch.mActivePosTripLimit >= t.mSwitch.mActiveNegTripLimit)
        trp = lambda v: Or(v.mPosTrip, v.mNegTrip, v.mExternalTrip)
        clean = Not(trp(t.mSwitch))
        S.ensure('a trip on the flux is rejected', Implies(And(looked, clean, b, due), r == REJECT))
        S.ensure('a pending trip delays', Implies(And(looked, clean, b, Not(due)), r == DELAY))
        S.ensure('anything else is confirmed', Implies(And(looked, clean, Not(b)), r == CONFIRM))
        S.ensure('the switch sees flux and voltage of the solution', Implies(looked, And(w.mVoltageIn == k.pv[0], w.mCurrentSensed == sensed)))
    S.ensure('a blown fuse is rejected', Implies(fused, r == REJECT))
    S.ensure('an unconverged solution is delayed', Implies(n == 0, r == DELAY))
    P06.same_vec(S, k, o)


def ls_power(S, two=False):
    k = lswitch(S, two, 2)
    this = k.this
    S.require(stamped(k))
    t0 = this
    o = S.snap()
    S.call(k.cls + '::computePower', this)
    t = o(this)
    ov = t.mLoadsOverrideActive
    tot = sum_([o(u).mLoad.mActualPower for u in k.loads])
    gr = k.nm[1] == k.N
    S.ensure('overridden loads take the sum of their powers', Implies(And(ov, gr), And(this.mLoadsPower == tot, this.mPower == tot, this.mFlux * max_(t.mLoadsOverrideVoltage, EPS) == tot)))
    S.ensure('overridden network loads take the power at their node', Implies(And(ov, Not(gr)), And(this.mPower == t.mFlux * k.pv[1], this.mLoadsPower == this.mPower, this.mFlux == t.mFlux)))
    P = -t.mFlux * (k.pv[0] - k.pv[1])
    diss = t.mFlux * t.mFlux * If(t.mSwitch.mPosition, t.mSwitch.mResistance, 1 / D(EPS)) if two else t.mSwitch.mPowerDissipation
    lp = -P - diss
    if not two:
        ref = And(t.mLoadsPowerRefV != 0, t.mLoadsVoltage > 0)
        lp = If(ref, lp * (t.mLoadsPowerRefV / If(t.mLoadsVoltage > 0, t.mLoadsVoltage, 1)), lp)
    S.ensure('the loads take the power of the link less that of the switch', Implies(Not(ov), And(this.mPower == P, this.mLoadsPower == lp, this.mFlux == t.mFlux)))


def ls_flows(S, two=False):
    k = lswitch(S, two, 0)
    this = k.this
    S.require(stamped(k))
    S.require(Not(this.mLoadsOverrideActive))
    o = S.snap()
    S.call('GunnsBasicConductor::computeFlows', this, S.real('dt', 0, 100))
    P06.flows(S, k, o, flux_of(k, o))


def ls_other(S, two=False):
    k = lswitch(S, two, 2)
    this = k.this
    a, v = S.bool('active'), S.real('voltage')
    S.call(k.cls + '::setLoadsOverride', this, a, v)
    S.ensure('override as set', And(this.mLoadsOverrideActive == a, this.mLoadsOverrideVoltage == v))
    r = S.call(k.cls + '::isNonLinear', this)
    S.ensure('nonlinear unless overridden', r == Not(a))
    node = S.int('node', 0, 1000)
    port = S.int('port', 0, 1)
    S.require(node <= k.N)
    r = S.call(k.cls + '::checkSpecificPortRules', this, port, node)
    S.ensure('a switch with user loads stays on ground', r == Not(And(port == 1, node != k.N)))


def sum_(xs):
    r = D(0)
    for x in xs:
        r = r + x
    return r


# ------------------------------------------------------------------ switch link

def se_state(S):
    k = link(S, 'SwitchElect', 2)
    this = k.this
    sw = S.addr(this, 'mSwitch')
    P08.strs(S, sw, 'mSwitchCardName')
    S.require(this.mSwitch.mDefaultSwitchResistance > 0)
    S.set(sw, 'mMalfFailResistance', False)
    o = S.snap()
    S.call('SwitchElect::updateState', this, S.real('dt', 0, 100))
    v, w = o(this).mSwitch, this.mSwitch
    hold = Or(v.mPosTrip, v.mNegTrip, v.mExternalTrip, v.mWaitingToTrip)
    S.ensure('position', w.mSwitchIsClosed == If(v.mMalfFailClosed, True, If(v.mMalfFailOpen, False, If(hold, v.mSwitchIsClosed, v.mSwitchCommandedClosed))))
    S.ensure('conducts by its resistance when closed only', this.mEffectiveConductivity == If(w.mSwitchIsClosed, 1 / v.mDefaultSwitchResistance, 0))


def se_confirm(S):
    k = link(S, 'SwitchElect', 2)
    this = k.this
    sw = S.addr(this, 'mSwitch')
    P08.strs(S, sw, 'mSwitchCardName')
    S.require(And(k.am[1] == -k.am[0], k.am[2] == -k.am[0], k.am[3] == k.am[0], this.mSwitch.mActivePosTripLimit >= this.mSwitch.mActiveNegTripLimit))
    n, m = S.int('step', 0, 100), S.int('absolute', 0, 100)
    o = S.snap()
    r = S.call('SwitchElect::confirmSolutionAcceptable', this, n, m)
    t = o(this)
    d = k.pv[0] - k.pv[1]
    flux = If(abs_(d) < max_(k.pv[0], k.pv[1]) * D(LIM), 0, d * k.am[0])
    c = n > 0
    S.ensure('flux, current, voltage and power of the solution', Implies(c, And(this.mFlux == flux, this.mCurrent == flux, this.mVoltage == k.pv[0], this.mPower == -flux * d)))
    sensed = If(t.mSwitch.mSwitchIsClosed, flux, 0)
    prot = And(t.mSwitch.mOverCurrentProtection, Not(t.mSwitch.mMalfFailClosed))
    b = And(prot, Or(sensed > t.mSwitch.mActivePosTripLimit, sensed < t.mSwitch.mActiveNegTripLimit))
    due = n >= t.mSwitch.mTripPriority
    clean = And(Not(t.mSwitch.mPosTrip), Not(t.mSwitch.mNegTrip), Not(t.mSwitch.mExternalTrip))
    S.ensure('a trip is rejected', Implies(And(c, clean, b, due), r == REJECT))
    S.ensure('a pending trip delays', Implies(And(c, clean, b, Not(due)), r == DELAY))
    S.ensure('anything else is confirmed', Implies(And(c, clean, Not(b)), r == CONFIRM))
    S.ensure('an unconverged solution is delayed', Implies(n == 0, And(r == DELAY, this.mFlux == t.mFlux)))


# ------------------------------------------------------------------ resistive load link

def resload(S):
    k = link(S, 'GunnsResistiveLoad', 2)
    this = k.this
    sw = S.addr(this, 'mLoadSwitch')
    P08.strs(S, sw, 'mSwitchCardName')
    o = S.snap()
    S.call('GunnsResistiveLoad::updateState', this, S.real('dt', 0, 100))
    t, c = o(this), this.mLoadSwitch.mSwitchIsClosed
    r = If(c, If(t.mSwitchPrevClosed, t.mResistance, t.mLoadConfigResistance), D(1.0e12))
    S.ensure('resistance of the load while its switch is closed, next to none conducted when open', And(this.mResistance == r, this.mEffectiveConductivity == 1 / max_(EPS, r)))
    S.ensure('load voltage', this.mVoltage == If(c, t.mVoltageIn, 0))
    S.ensure('the position is remembered', this.mSwitchPrevClosed == c)


# ------------------------------------------------------------------ selector

NP = 3


def selector(S):
    k = link(S, 'GunnsElectSelector', NP)
    this = k.this
    S.set(this, 'mUserPortSetControl', 0)
    k.port = lambda v: If(Or(v < 1, v >= NP), 0, v)
    S.require(And(this.mLastConnectedPort >= -1, this.mLastConnectedPort < NP))
    last = this.mLastConnectedPort
    # invariant: what is in the matrix is the connection to the last port
    g = k.am[0]
    S.require(And(g >= 0, Implies(last < 1, g == 0)))
    for i in range(NP):
        for j in range(NP):
            if i or j:
                S.require(k.am[i * NP + j] == want(g, last, i, j))
    return k


def want(g, port, i, j):
    if i == 0 and j == 0:
        return If(port >= 1, g, 0)
    if i == 0 or j == 0:
        return If(port == max(i, j), -g, 0)
    return If(port == i, g, 0) if i == j else D(0)


def sel_step(S):
    k = selector(S)
    this = k.this
    o = S.snap()
    S.call('GunnsElectSelector::step', this, S.real('dt', 0, 100))
    t = o(this)
    port = k.port(t.mSelector)
    e = t.mDefaultConductance
    e = If(t.mMalfBlockageFlag, e * clamp(1 - t.mMalfBlockageValue, 0, 1), e)
    e = If(e < D(LIM), 0, min_(e, D(COND)))
    g = If(port > 0, e, 0)
    S.ensure('only the selected port is connected to the first, by the conductance less blockage', conj([k.am[i * NP + j] == want(g, port, i, j) for i in range(NP) for j in range(NP)]))
    ch = disj([k.am[i] != o(k.am)[i] for i in range(NP * NP)])
    S.ensure('the solver is told when the matrix changed', Implies(ch, this.mAdmittanceUpdate))
    S.ensure('the solver is told when another port is connected', Implies(And(ch, g > 0), this.mAdmittanceUpdate))
    S.ensure('a pending rebuild is kept', Implies(t.mAdmittanceUpdate, this.mAdmittanceUpdate))
    S.ensure('the connected port is remembered', this.mLastConnectedPort == port)


def sel_flows(S):
    k = selector(S)
    this = k.this
    S.require(this.mLastConnectedPort == k.port(this.mSelector))
    o = S.snap()
    S.call('GunnsElectSelector::computeFlows', this, S.real('dt', 0, 100))
    t = o(this)
    port = k.port(t.mSelector)
    vp = If(port == 0, k.pv[0], If(port == 1, k.pv[1], k.pv[2]))
    d = k.pv[0] - vp
    f = If(abs_(d) < max_(k.pv[0], vp) * D(LIM), 0, d * k.am[0])
    S.ensure('flux from the first to the selected port', And(this.mPotentialDrop == d, this.mFlux == f, this.mPower == -f * d))
    dn = lambda n, x: getattr(n, x) - getattr(o(n), x)
    for i in range(NP):
        q = k.nodes[k.nm[i]]
        own = conj([k.nm[i] != k.nm[j] for j in range(NP) if j != i])
        fi = If(port == 0, 0, f) if i == 0 else If(port == i, -f, 0)
        S.ensure('port %d exchanges what flows through it' % i, Implies(own, dn(q, 'mOutfluxRate') - dn(q, 'mInfluxRate') == fi))


def sel_restart(S):
    k = link(S, 'GunnsElectSelector', NP)
    S.call('GunnsElectSelector::restartModel', k.this)
    S.ensure('nothing is connected after a restart', And(k.this.mLastConnectedPort == -1, k.this.mEffectiveConductance == 0))


# ------------------------------------------------------------------ internal power supply

NS = 3


def ips(S, backup):
    k = link(S, 'GunnsElectIps', NS)
    this = k.this
    S.set(this, 'mNumberOfPowerSources', NS)
    S.set(this, 'mBackUpPowerImplemented', backup)
    S.set(this, 'mBackUpPowerSource', NS - 1 if backup else -1)
    S.set(this, 'mVerbose', False)
    k.v = {}
    for f, ty in (('mMalfPowerInput', 'bool'), ('mPowerSupplyVoltage', 'double'), ('mOutputPower', 'double'), ('mConductance', 'double'), ('mActiveConductance', 'double'), ('mInputCurrent', 'double'), ('mInputVoltage', 'double')):
        k.v[f] = S.arr(ty, NS, f)
        S.bind(this, f, k.v[f])
    S.require(And(this.mActivePowerSource >= -1, this.mActivePowerSource < NS))
    S.require(And(this.mUnderVoltageLimit >= 0, this.mPotentialOnTolerance >= 0, this.mBackUpVoltageThreshold >= 0, this.mConductanceTolerance >= 0, this.mPowerConsumedOn >= 0, this.mAuxOnePowerConsumedOn >= 0, this.mAuxTwoPowerConsumedOn >= 0))
    return k


def at(vals, i, other=0):
    r = other
    for n, v in reversed(list(enumerate(vals))):
        r = If(i == n, v, r)
    return r


def demand(t):
    return If(t.mLoadAddedFromInstructor > 0, t.mLoadAddedFromInstructor, t.mPowerConsumedOn + t.mAuxOnePowerConsumedOn + t.mAuxTwoPowerConsumedOn)


def ips_step(S, minor=False):
    k = ips(S, S.choice('backup', [False, True]) if False else False)
    this = k.this
    act = this.mActivePowerSource
    ac = k.v['mActiveConductance']
    for i in range(NS):
        S.require(k.am[i * NS + i] == ac[i])
    dt = S.real('dt', 0, 100)
    o = S.snap()
    if minor:
        S.call('GunnsElectIps::minorStep', this, dt, 1)
    else:
        S.call('GunnsElectIps::step', this, dt)
    t = o(this)
    L = demand(t)
    ch = []
    for i in range(NS):
        q = If(And(t.mActivePowerSource == i, k.pv[i] > EPS), L / (k.pv[i] * k.pv[i]), t.mUnselectedInputConductance)
        c = abs_(o(ac)[i] - q) > t.mConductanceTolerance
        ch.append(c)
        S.ensure('source %d is loaded by the demand when it is in use, and as unused otherwise' % i, And(k.am[i * NS + i] == If(c, q, o(ac)[i]), ac[i] == k.am[i * NS + i]))
    S.ensure('the solver is told when a load changed by more than the tolerance', this.mAdmittanceUpdate == Or(t.mAdmittanceUpdate, disj(ch)))
    S.ensure('sources stay separate', conj([k.am[i * NS + j] == o(k.am)[i * NS + j] for i in range(NS) for j in range(NS) if i != j]))


def ips_confirm(S, backup):
    k = ips(S, backup)
    this = k.this
    n, m = S.int('step', 0, 100), S.int('absolute', 0, 100)
    o = S.snap()
    r = S.call('GunnsElectIps::confirmSolutionAcceptable', this, n, m)
    t = o(this)
    p, mf = k.pv, o(k.v['mMalfPowerInput'])
    S.ensure('an unconverged solution leaves the supply alone', Implies(n <= 0, And(r == CONFIRM, this.mActivePowerSource == t.mActivePowerSource, this.mPowerValid == t.mPowerValid)))
    c = n > 0
    tol, uv = t.mPotentialOnTolerance, t.mUnderVoltageLimit
    up = Or(Not(t.mCommandOnUsed), t.mCommandOn)
    free = [And(up, Not(mf[i]), Not(t.mMalfAllPowerInputs)) for i in range(NS)]
    choose = And(c, t.mVoltageSwitches < t.mNumberOfVoltageSwitchesInASolution)
    a0 = t.mActivePowerSource
    a = this.mActivePowerSource
    va = at([p[i] for i in range(NS)], a)
    # a source of no voltage cannot become the active one
    S.require(uv > 0)
    if not backup:
        ok = [And(free[i], p[i] >= uv) for i in range(NS)]
        S.ensure('the source in use is available', Implies(And(choose, a >= 0), at(ok, a, False)))
        S.ensure('no available source is better by more than the tolerance', Implies(And(choose, a >= 0), conj([Implies(ok[i], p[i] - va <= tol) for i in range(NS)])))
        S.ensure('no source in use only if none is available above the tolerance', Implies(And(choose, a < 0), conj([Implies(ok[i], And(a0 != i, p[i] <= tol)) for i in range(NS)])))
        S.ensure('an available source is left only for a better one', Implies(And(choose, a0 >= 0, a != a0, at(ok, a0, False)), And(a >= 0, va > at([p[i] for i in range(NS)], a0) + tol)))
    else:
        B_ = NS - 1
        hi = [And(free[i], p[i] > t.mBackUpVoltageThreshold, p[i] > tol) for i in range(B_)]
        lo = [And(free[i], p[i] > uv, p[i] > tol) for i in range(B_)]
        inr = And(Not(mf[B_]), Not(t.mMalfAllPowerInputs), up, p[B_] >= t.mBackupVoltageMin, p[B_] <= t.mBackupVoltageMax)
        # sources without voltage are not taken (see calculateFlow)
        S.require(And(t.mBackupVoltageMin > 0))
        best = lambda ok: conj([Implies(ok[i], p[i] - va <= tol) for i in range(B_)])
        S.ensure('a primary source above the threshold is used when there is one, the best within the tolerance', Implies(And(choose, disj(hi)), And(a >= 0, a < B_, at(hi, a, False), best(hi))))
        S.ensure('else a primary source above the limit, or the backup when better', Implies(And(choose, Not(disj(hi)), disj(lo)), And(a >= 0, best(lo), Or(at(lo, a, False), And(a == B_, free[B_])))))
        S.ensure('the backup is taken over a weak primary exactly when it is better by more than the tolerance', Implies(And(choose, Not(disj(hi)), disj(lo), a < B_, free[B_]), p[B_] - va <= tol))
        S.ensure('else the backup when it is in its range, else none', Implies(And(choose, Not(disj(hi)), Not(disj(lo))), a == If(inr, B_, -1)))
        S.ensure('shows when it runs on the backup', Implies(choose, this.mControlInputPowerInUse == (a == B_)))
    S.ensure('no more changes than allowed in a solution', Implies(And(c, Not(choose)), a == a0))
    S.ensure('changes are counted', Implies(c, this.mVoltageSwitches == t.mVoltageSwitches + If(a != a0, 1, 0)))
    neg = disj([p[i] < 0 for i in range(NS)])
    S.ensure('a solution is rejected exactly when the source changed or a voltage is negative', Implies(c, r == If(Or(a != a0, neg), REJECT, CONFIRM)))
    L = t.mTotalPowerLoad
    for i in range(NS):
        use = And(c, a == i, p[i] > 0)
        S.ensure('source %d delivers the load when it is in use' % i, Implies(use, And(k.v['mOutputPower'][i] == L, k.v['mInputCurrent'][i] * p[i] == L, k.v['mPowerSupplyVoltage'][i] == p[i])))
        S.ensure('source %d delivers nothing when it is not' % i, Implies(And(c, a != i), And(k.v['mOutputPower'][i] == 0, k.v['mInputCurrent'][i] == 0, k.v['mPowerSupplyVoltage'][i] == 0)))
    S.ensure('power is valid above the under voltage limit', Implies(c, this.mPowerValid == And(a >= 0, va > uv)))


def ips_flows(S, backup=False):
    k = ips(S, backup)
    this = k.this
    S.require(conj([k.am[i * NS + j] == 0 for i in range(NS) for j in range(NS) if i != j]))
    o = S.snap()
    S.call('GunnsElectIps::computeFlows', this, S.real('dt', 0, 100))
    t = o(this)
    I = [k.pv[i] * k.am[i * NS + i] for i in range(NS)]
    S.ensure('total current drawn from the sources', this.mFlux == sum_(I))
    S.ensure('total power drawn from the sources', this.mPower == sum_([I[i] * k.pv[i] for i in range(NS)]))
    one = conj([k.am[i * NS + i] == 0 for i in range(1, NS)])
    S.ensure('current and power drawn when only the first source conducts', Implies(one, And(this.mFlux == I[0], this.mPower == I[0] * k.pv[0])))
    on = t.mDefaultPowerConsumedOn + If(t.mMalfBiasPowerConsumedFlag, t.mMalfBiasPowerConsumedValue, 0)
    S.ensure('consumed power with its bias', this.mPowerConsumedOn == on)
    S.ensure('total load', this.mTotalPowerLoad == If(t.mLoadAddedFromInstructor > 0, t.mLoadAddedFromInstructor, on + t.mAuxOnePowerConsumedOn + t.mAuxTwoPowerConsumedOn))
    S.ensure('waste heat while powered', this.mHeatGenerated == If(t.mPowerValid, on * t.mThermalFraction, 0))
    S.ensure('changes are counted anew', this.mVoltageSwitches == 0)
    if backup:
        B_ = NS - 1
        up = Or(Not(t.mCommandOnUsed), t.mCommandOn)
        S.ensure('backup in range', this.mBackupVoltageInRange == And(up, Not(o(k.v['mMalfPowerInput'])[B_]), Not(t.mMalfAllPowerInputs), k.pv[B_] >= t.mBackupVoltageMin, k.pv[B_] <= t.mBackupVoltageMax))
    else:
        S.ensure('no backup', Not(this.mBackupVoltageInRange))


# ------------------------------------------------------------------ power bus

def bus(S):
    k = link(S, 'PowerBusElect', 1)
    this = k.this
    plug = S.addr(this, 'mPlug')
    S.bind(plug, 0, None)
    S.set(this, 'mNumLoads', 2)
    k.loads = []
    arr = S.arr('UserLoadBase*', 2, 'loads')
    for i, cls in enumerate(('ConstantPowerLoad', 'ResistiveLoad')):
        u = S.obj(cls, 'load%d' % i)
        S.dyn(u, cls)
        S.set(u, 'mUserLoadType', CPL if i == 0 else RL)
        S.require(And(u.mUnderVoltageLimit >= 0, u.mLoadOperMode >= 0, u.mLoadOperMode <= 2, Not(u.mMalfOverrideCurrentFlag), Not(u.mMalfOverridePowerFlag)))
        if i:
            S.set(u, 'mPrintMessageOnce', True)
            S.require(And(u.mResistanceNormal > 0, u.mResistanceStandby > 0))
        else:
            S.require(And(u.mPowerNormal >= 0, u.mPowerStandby >= 0))
        k.loads.append(u)
        S.bind(arr, i, u)
    S.bind(this, 'mLoad', arr)
    S.require(And(this.mMinConductance > 0, this.mMaxConductance > this.mMinConductance, this.mMaxResistance > D(EPS), this.mLoadChangeTolerance >= 0))
    return k


def bus_step(S, minor=False):
    k = bus(S)
    this = k.this
    dt = S.real('dt', 0, 100)
    o = S.snap()
    if minor:
        S.call('PowerBusElect::minorStep', this, dt, 1)
    else:
        S.call('PowerBusElect::step', this, dt)
    t, V = o(this), k.pv[0]
    cp, rs = k.loads
    S.ensure('the loads see the voltage of the bus', conj([u.mVoltage == If(o(u).mMagicPowerFlag, o(u).mMagicPowerValue, If(Or(o(u).mFuseIsBlown, o(u).mMalfBlowFuse), 0, V)) for u in k.loads]))
    lim = lambda g: If(g > t.mMaxConductance, t.mMaxConductance, If(g < t.mMinConductance, 0, g))
    R_ = rs.mEquivalentResistance
    g1 = lim(If(And(R_ >= EPS, R_ <= t.mMaxResistance), 1 / If(R_ > 0, R_, 1), 0))
    g2 = lim(If(V > EPS, cp.mActualPower / If(V * V > 0, V * V, 1), t.mCPowerLoadsConductance))
    tol = t.mLoadChangeTolerance
    c1, c2 = abs_(t.mActiveResLoadsConductance - g1) > tol, abs_(t.mActiveCPowerLoadsConductance - g2) > tol
    a1, a2 = If(c1, g1, t.mActiveResLoadsConductance), If(c2, g2, t.mActiveCPowerLoadsConductance)
    S.ensure('conductance of the resistive loads', this.mActiveResLoadsConductance == a1)
    S.ensure('conductance of the constant power loads', this.mActiveCPowerLoadsConductance == a2)
    S.ensure('the node is loaded by both', k.am[0] == a1 + a2 + D(2.220446049250313e-16 / .0000001))
    S.ensure('the solver is told when a load changed by more than the tolerance', this.mAdmittanceUpdate == Or(t.mAdmittanceUpdate, c1, c2))


def bus_flows(S):
    k = bus(S)
    this = k.this
    o = S.snap()
    S.call('PowerBusElect::computeFlows', this, S.real('dt', 0, 100))
    V, f = k.pv[0], k.am[0] * k.pv[0]
    S.ensure('current and power of the bus', And(this.mFlux == f, this.mPower == f * V, this.mBusVoltage == V, this.mPotentialDrop == V))
    n = k.nodes[k.nm[0]]
    S.ensure('the node gives what the loads take', Implies(k.nm[0] != k.N, n.mOutfluxRate - o(n).mOutfluxRate == max_(f, 0)))
    S.call('PowerBusElect::determineLinearity', this)
    S.ensure('constant power loads make it nonlinear', this.mNonLinear)


HARNESSES = [('duty cycle', duty_cycle), ('duty cycle resistive', duty_cycle, {'res': True}), ('duty cycle spotter', duty_cycle, {'spotter': True})]
for two in (False, True):
    x = ' 2' if two else ''
    HARNESSES += [('load switch%s %s' % (x, n), f, dict(a, two=two)) for n, f, a in (
        ('loads', ls_state, {}), ('network loads', ls_state, {'loads': 0}), ('short', ls_short, {}), ('stamp', ls_build, {}), ('step', ls_step, {}), ('minor step', ls_step, {'minor': True}),
        ('confirm', ls_confirm, {}), ('power', ls_power, {}), ('flows', ls_flows, {}), ('settings', ls_other, {}))]
HARNESSES += [('switch link state', se_state), ('switch link confirm', se_confirm), ('resistive load', resload), ('selector step', sel_step), ('selector flows', sel_flows), ('selector restart', sel_restart),
              ('supply step', ips_step), ('supply minor step', ips_step, {'minor': True}), ('supply confirm', ips_confirm, {'backup': False}), ('supply confirm with backup', ips_confirm, {'backup': True}),
              ('supply flows', ips_flows), ('supply flows with backup', ips_flows, {'backup': True}), ('bus step', bus_step), ('bus minor step', bus_step, {'minor': True}), ('bus flows', bus_flows)]
