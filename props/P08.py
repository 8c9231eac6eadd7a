from gcv.api import *
ID = 'P08'
SOURCES = ['aspects/electrical/TripLogic/GunnsTripLogic.cpp', 'aspects/electrical/Switch/GunnsElectSwitchUtil2.cpp', 'aspects/electrical/Switch/GunnsElectSwitchUtil.cpp', 'aspects/electrical/Switch/Switch.cpp']
HEADERS = ['aspects/electrical/Switch/Switch.hh', 'aspects/electrical/Switch/GunnsElectSwitchUtil2.hh', 'aspects/electrical/Switch/GunnsElectSwitchUtil.hh', 'aspects/electrical/TripLogic/GunnsTripLogic.hh']
INLINE = ['Switch::getConductance', 'GunnsElectSwitchUtil2::getResistance', 'GunnsElectSwitchUtil::getConductance', 'GunnsElectSwitchUtil::getOutputVolts', 'GunnsTripLogic::resetTrip']
META = dict(
    title='Circuit protection trips exactly when armed and beyond its limit',
    statement='A protective trip fires, and stays latched until reset, exactly when it is enabled, not inhibited, not already tripped, and either forced or its sensed value is beyond its limit at the minor step of its priority; while the value is beyond the limit before that step it asks the solver to wait. A switch opens on a trip and stays open until the trip is reset, resetting follows from an open command, a reset command or (for voltage trips) the voltage recovering past its reset limit, and a switch failed open or failed closed keeps that position whatever the trips and commands. In all other cases the switch takes its commanded position.',
    over=['inputs', 'histories'], quant='all limits, sensed voltages and currents, trip priorities, minor steps, commands, malfunction flags and prior trip states (each operation from an arbitrary state, so every history)',
    why='Unit tests step one switch through a few scripted trips; the product of latched trips, inhibit/force malfunctions, priorities and the sensed values at the limit boundaries is not enumerable by examples.',
    files=['aspects/electrical/TripLogic/GunnsTripLogic.cpp', 'aspects/electrical/TripLogic/GunnsTripLogic.hh', 'aspects/electrical/Switch/GunnsElectSwitchUtil2.cpp', 'aspects/electrical/Switch/GunnsElectSwitchUtil.cpp', 'aspects/electrical/Switch/Switch.cpp'],
    mech=[('GunnsTripLogic::checkForTrip', 'aspects/electrical/TripLogic/GunnsTripLogic.cpp'), ('GunnsElectSwitchUtil2::updateState, updateTrips', 'aspects/electrical/Switch/GunnsElectSwitchUtil2.cpp'),
          ('GunnsElectSwitchUtil::updateSwitchState, updateSwitchFlow', 'aspects/electrical/Switch/GunnsElectSwitchUtil.cpp')],
    note='Unbounded: every obligation is discharged for all inputs and all prior states. Sensed values are real numbers; the conversion of a voltage or current to single precision is taken as exact.')
REJECT, CONFIRM, DELAY = 0, 1, 2


def active(t):
    return And(Not(t.mMalfInhibitTrip), Not(t.mIsTripped), t.mLimit != 0, t.mPriority >= 1)


def fires(t, beyond, step):
    return And(active(t), Or(t.mMalfForceTrip, And(beyond, step == t.mPriority)))


def waits(t, beyond, step):
    return And(active(t), Not(t.mMalfForceTrip), beyond, step != t.mPriority)


def trip(S, cls):
    this = S.obj(cls, 'this')
    S.dyn(this, cls)
    res = S.cell('int', 'result')
    S.require(And(res[0] >= 0, res[0] <= 2))
    x, step = S.real('param'), S.int('step', 0, 1000)
    pre = S.snap()
    r = S.call('GunnsTripLogic::checkForTrip', this, res, x, step)
    o = pre(this)
    beyond = x > o.mLimit if cls == 'GunnsTripGreaterThan' else x < o.mLimit
    f, w = fires(o, beyond, step), waits(o, beyond, step)
    S.ensure('reports a trip exactly when it fires', r == f)
    S.ensure('latched until reset or inhibited', this.mIsTripped == Or(f, And(o.mIsTripped, Not(o.mMalfInhibitTrip))))
    S.ensure('a trip rejects the solution, waiting delays it, else the answer is unchanged',
             res[0] == If(f, REJECT, If(And(w, pre(res)[0] != REJECT), DELAY, pre(res)[0])))
    S.ensure('settings unchanged', And(this.mLimit == o.mLimit, this.mPriority == o.mPriority))


def reset(S, cls):
    this = S.obj(cls, 'this')
    S.call('GunnsTripLogic::resetTrip', this)
    S.ensure('reset clears the latch', Not(this.mIsTripped))
    pr, lim, tr = S.int('prio', 0, 1000), S.real('limit'), S.bool('tripped')
    S.call('GunnsTripLogic::initialize', this, lim, pr, tr)
    S.ensure('initialised as configured', And(this.mLimit == lim, this.mPriority == pr, this.mIsTripped == tr))


TR = {'mInputUnderVoltageTrip': 'GunnsTripLessThan', 'mInputUnderVoltageReset': 'GunnsTripGreaterThan', 'mInputOverVoltageTrip': 'GunnsTripGreaterThan',
      'mInputOverVoltageReset': 'GunnsTripLessThan', 'mPosOverCurrentTrip': 'GunnsTripGreaterThan', 'mNegOverCurrentTrip': 'GunnsTripLessThan'}
TRIPS = ['mInputUnderVoltageTrip', 'mInputOverVoltageTrip', 'mPosOverCurrentTrip', 'mNegOverCurrentTrip']


def switch2(S):
    this = S.obj('GunnsElectSwitchUtil2', 'this')
    for f, c in TR.items():
        S.dyn(S.addr(this, f), c)
    if S.mode == 'con':
        n = S.addr(this, 'mName')
        S.wr(n._p, '<Q', n._p + 16)
        S.wr(n._p + 8, '<Q', 0)
    return this


def tripped(v):
    return disj([getattr(v, t).mIsTripped for t in TRIPS])


def sw2_state(S):
    this = switch2(S)
    pre = S.snap()
    S.call('GunnsElectSwitchUtil2::updateState', this)
    o = pre(this)
    rs = Or(o.mResetTripsCommand, And(tripped(o), Not(o.mPositionCommand)))
    for t in TRIPS:
        S.ensure('latched until reset: ' + t, getattr(this, t).mIsTripped == And(getattr(o, t).mIsTripped, Not(rs)))
    hold = And(Not(rs), Or(tripped(o), o.mWaitingToTrip))
    S.ensure('position', this.mPosition == If(o.mMalfFailClosed, True, If(o.mMalfFailOpen, False, If(hold, o.mPosition, o.mPositionCommand))))
    S.ensure('reset command is consumed', Not(this.mResetTripsCommand))
    S.ensure('command unchanged', this.mPositionCommand == o.mPositionCommand)
    S.ensure('reset limits never cross the trip limits', And(this.mInputUnderVoltageReset.mLimit >= this.mInputUnderVoltageTrip.mLimit, this.mInputOverVoltageReset.mLimit <= this.mInputOverVoltageTrip.mLimit))
    S.ensure('trip limits unchanged', conj([getattr(this, t).mLimit == getattr(o, t).mLimit for t in TRIPS]))
    S.ensure('resistance stays positive', And(this.mResistance > 0, Implies(o.mResistance >= D(1.1920928955078125e-07), this.mResistance == o.mResistance)))


def sw2_trips(S):
    this = switch2(S)
    v, i, step = S.real('voltage'), S.real('current'), S.int('step', 0, 1000)
    pre = S.snap()
    S.call('GunnsElectSwitchUtil2::updateTrips', this, i, v, step)
    o = pre(this)
    g = lambda n: getattr(o, n)
    beyond = {'mInputUnderVoltageTrip': v < g('mInputUnderVoltageTrip').mLimit, 'mInputOverVoltageTrip': v > g('mInputOverVoltageTrip').mLimit,
              'mPosOverCurrentTrip': i > g('mPosOverCurrentTrip').mLimit, 'mNegOverCurrentTrip': i < g('mNegOverCurrentTrip').mLimit}
    uvr, ovr = v > g('mInputUnderVoltageReset').mLimit, v < g('mInputOverVoltageReset').mLimit
    conv = step > 0
    armed = And(conv, o.mPositionCommand, Not(tripped(o)), Not(o.mMalfFailClosed))
    f = {t: And(armed, fires(g(t), beyond[t], step)) for t in TRIPS}
    w = {t: And(armed, waits(g(t), beyond[t], step)) for t in TRIPS}
    vt = And(conv, Or(g('mInputUnderVoltageTrip').mIsTripped, g('mInputOverVoltageTrip').mIsTripped), Not(o.mMalfFailOpen), Not(g('mPosOverCurrentTrip').mIsTripped), Not(g('mNegOverCurrentTrip').mIsTripped))
    ur = And(vt, g('mInputUnderVoltageTrip').mIsTripped, fires(g('mInputUnderVoltageReset'), uvr, step))
    orr = And(vt, g('mInputOverVoltageTrip').mIsTripped, fires(g('mInputOverVoltageReset'), ovr, step))
    uw = And(vt, g('mInputUnderVoltageTrip').mIsTripped, waits(g('mInputUnderVoltageReset'), uvr, step))
    ow = And(vt, g('mInputOverVoltageTrip').mIsTripped, waits(g('mInputOverVoltageReset'), ovr, step))
    anyf, anyw = disj(list(f.values())), disj(list(w.values()))
    anyr = Or(ur, orr)
    S.cover('trip', anyf)
    S.cover('reset', anyr)
    rst = {'mInputUnderVoltageTrip': ur, 'mInputOverVoltageTrip': orr}
    # an inhibited trip that is evaluated is cleared as well
    for t in TRIPS:
        S.ensure('latch of ' + t, Implies(Not(g(t).mMalfInhibitTrip), getattr(this, t).mIsTripped == Or(f[t], And(g(t).mIsTripped, Not(rst.get(t, z3.BoolVal(False)))))))
        S.ensure('an inhibited trip never trips: ' + t, Implies(g(t).mMalfInhibitTrip, Or(Not(getattr(this, t).mIsTripped), g(t).mIsTripped)))
    S.ensure('opens exactly on a trip; recloses only when a voltage trip resets and it is commanded closed',
             this.mPosition == If(anyf, False, If(And(anyr, o.mPositionCommand), True, o.mPosition)))
    S.ensure('tells the solver about a trip', this.mJustTripped == Or(anyf, anyr))
    S.ensure('asks the solver to wait', this.mWaitingToTrip == Or(And(anyw, Not(anyf)), And(Or(uw, ow), Not(anyr))))
    S.ensure('failed closed never opens', Implies(And(o.mMalfFailClosed, o.mPosition), this.mPosition))
    S.ensure('failed open never closes', Implies(And(o.mMalfFailOpen, Not(o.mPosition)), Not(this.mPosition)))


def sw2_res(S):
    this = switch2(S)
    r = S.call('GunnsElectSwitchUtil2::getResistance', this)
    S.ensure('open switch has no usable conductance, closed switch its own resistance', r == If(this.mPosition, this.mResistance, 1 / D(2.220446049250313e-16)))
    S.call('GunnsElectSwitchUtil2::resetTrips', this)
    S.ensure('reset clears everything', And(Not(tripped(this)), Not(this.mWaitingToTrip), Not(this.mJustTripped)))


def strs(S, this, *names):
    if S.mode == 'con':
        for x in names:
            n = S.addr(this, x)
            S.wr(n._p, '<Q', n._p + 16)
            S.wr(n._p + 8, '<Q', 0)


def sw1_state(S, cls='GunnsElectSwitchUtil'):
    this = S.obj(cls, 'this')
    strs(S, this, 'mSwitchCardName')
    valid = S.bool('supplyValid')
    pre = S.snap()
    S.call(cls + '::updateSwitchState', this, valid)
    o = pre(this)
    trp = Or(o.mPosTrip, o.mNegTrip, o.mExternalTrip)
    cmd = And(o.mSwitchCommandedClosed, valid)
    hold = Or(trp, o.mWaitingToTrip)
    S.ensure('position', this.mSwitchIsClosed == If(Not(valid), False, If(o.mMalfFailClosed, True, If(o.mMalfFailOpen, False, If(hold, o.mSwitchIsClosed, o.mSwitchCommandedClosed)))))
    rs = Or(Not(valid), o.mTripReset, And(trp, Not(cmd)))
    for t in ('mPosTrip', 'mNegTrip', 'mExternalTrip'):
        S.ensure('latched until reset: ' + t, getattr(this, t) == And(getattr(o, t), Not(rs)))
    S.ensure('lost power opens the command', this.mSwitchCommandedClosed == cmd)
    S.ensure('trip limits', And(this.mActivePosTripLimit == If(o.mMalfPosTripSetpointFail, o.mMalfPosTripSetpointFailValue, o.mDefaultPosTripLimit),
                                this.mActiveNegTripLimit == If(o.mMalfNegTripSetpointFail, o.mMalfNegTripSetpointFailValue, o.mDefaultNegTripLimit)))
    R0 = If(o.mDefaultSwitchResistance > 0, o.mDefaultSwitchResistance, D(1e-15))
    f = o.mMalfFailResistPercent
    S.ensure('resistance is its default, or the failed fraction of it', this.mActiveSwitchResistance == If(o.mMalfFailResistance, R0 * If(f > 1, f / 100, f), R0))
    S.ensure('ignoring trips disables protection', this.mOverCurrentProtection == And(o.mOverCurrentProtection, Not(o.mMalfIgnoreCurrentTrip)))


def sw1_flow(S, cls='GunnsElectSwitchUtil'):
    this = S.obj(cls, 'this')
    strs(S, this, 'mSwitchCardName')
    a, s, v, n, m = S.real('actual'), S.real('sensed'), S.real('voltage'), S.int('step', 0, 1000), S.bool('minor')
    pre = S.snap()
    S.call(cls + '::updateSwitchFlow', this, a, s, v, n, m)
    o = pre(this)
    sensed = If(o.mSwitchIsClosed, s, D(0))
    prot = And(o.mOverCurrentProtection, Not(o.mMalfFailClosed))
    hi, lo = And(prot, sensed > o.mActivePosTripLimit), And(prot, sensed < o.mActiveNegTripLimit)
    due = n >= o.mTripPriority
    trips = And(Or(hi, lo), due)
    ext = And(o.mExternalTrip, o.mSwitchIsClosed, Not(o.mMalfFailClosed))
    S.ensure('opens exactly on a trip', this.mSwitchIsClosed == And(o.mSwitchIsClosed, Not(trips), Not(ext)))
    S.ensure('positive trip', this.mPosTrip == If(hi, due, o.mPosTrip))
    S.ensure('negative trip', this.mNegTrip == If(lo, due, o.mNegTrip))
    S.ensure('waits while beyond a limit before its turn', this.mWaitingToTrip == And(Or(hi, lo), Not(due), Not(ext)))
    S.ensure('no current through an open switch', this.mCurrentActual == If(this.mSwitchIsClosed, a, D(0)))
    S.ensure('power is never negative', this.mPowerDissipation >= 0)
    S.ensure('newly tripped', Implies(Not(m), this.mJustTripped == And(Or(this.mPosTrip, this.mNegTrip, this.mExternalTrip), Not(Or(o.mPosTrip, o.mNegTrip, o.mExternalTrip)))))


def sw1_out(S, cls='GunnsElectSwitchUtil'):
    this = S.obj(cls, 'this')
    r = S.call(cls + '::getConductance', this)
    S.ensure('an open switch does not conduct', Implies(Not(this.mSwitchIsClosed), r == 0))
    S.ensure('a closed switch conducts by its resistance', Implies(And(this.mSwitchIsClosed, this.mActiveSwitchResistance > 0), r == 1 / this.mActiveSwitchResistance))
    S.ensure('conductance is never negative', r >= 0)


HARNESSES = [('switch1 outputs', sw1_out), ('gt', trip, {'cls': 'GunnsTripGreaterThan'}), ('lt', trip, {'cls': 'GunnsTripLessThan'}), ('reset gt', reset, {'cls': 'GunnsTripGreaterThan'}), ('reset lt', reset, {'cls': 'GunnsTripLessThan'}),
             ('switch2 state', sw2_state), ('switch2 trips', sw2_trips), ('switch2 resistance', sw2_res), ('switch1 state', sw1_state), ('switch1 flow', sw1_flow)]
HARNESSES += [('switch ' + n, f, {'cls': 'Switch'}) for n, f in (('state', sw1_state), ('flow', sw1_flow), ('outputs', sw1_out))]
