"""Fluid valves: position, hysteresis, malfunctions, flow stamps."""
from gcv.api import *
from gcv.lib import *
from props import P09 as L
ID = 'P10'
SOURCES = L.SOURCES + ['aspects/fluid/conductor/%s.cpp' % c for c in ('GunnsFluidValve', 'GunnsFluidCheckValve', 'GunnsFluidPressureSensitiveValve', 'GunnsFluidReliefValve', 'GunnsFluidRegulatorValve', 'GunnsFluid3WayValve',
                                                                       'GunnsFluid3WayCheckValve', 'GunnsFluidBalancedPrv', 'GunnsFluidHatch', 'GunnsFluidSimpleQd', 'GunnsFluidLeak')]
META = dict(
    title='Valves stay within their stops, move as rated and pass what they should',
    statement='A valve position stays within 0 to 1, moves by no more than its rate limit per step, holds when stuck and goes to the failed position when failed; check valves open by their pressure curve, and relief and regulator valves without lag follow their opening and closing curves with hysteresis, moving only when the pressure leaves the band between the curves. A valve conducts its maximum times its position, at least its leak malfunction, and a leak conducts what its active malfunction asks for; a three-way valve splits its position between its paths and never opens both within the dead band. Pressure sensitive valves stamp a symmetric conductance between their flow ports only and announce every change to the solver, a balanced regulator delivers at its set point and never backwards and accounts for every mass it owes its inlet, and a hatch moves the same heat and diffused mass out of one node as into the other.',
    over=['inputs', 'histories'],
    quant='every configuration that the models accept, position, pressure history, malfunction combination and switching order, time step and node map',
    why='unit tests step valves through a few pressures; hysteresis, malfunctions toggled in any order and rate limits have to hold over all pressure histories',
    files=['aspects/fluid/conductor/GunnsFluidValve.cpp', 'aspects/fluid/conductor/GunnsFluidCheckValve.cpp', 'aspects/fluid/conductor/GunnsFluidPressureSensitiveValve.cpp', 'aspects/fluid/conductor/GunnsFluidReliefValve.cpp',
           'aspects/fluid/conductor/GunnsFluidRegulatorValve.cpp', 'aspects/fluid/conductor/GunnsFluid3WayValve.cpp', 'aspects/fluid/conductor/GunnsFluid3WayCheckValve.cpp', 'aspects/fluid/conductor/GunnsFluidBalancedPrv.cpp',
           'aspects/fluid/conductor/GunnsFluidHatch.cpp', 'aspects/fluid/conductor/GunnsFluidLeak.cpp'],
    mech=[('position control', 'aspects/fluid/conductor/GunnsFluidCheckValve.cpp GunnsFluidCheckValve::updateState'),
          ('hysteresis', 'aspects/fluid/conductor/GunnsFluidReliefValve.cpp GunnsFluidReliefValve::updateValveState, updatePosition, derive'),
          ('stamp', 'aspects/fluid/conductor/GunnsFluidPressureSensitiveValve.cpp GunnsFluidPressureSensitiveValve::step'),
          ('mass account', 'aspects/fluid/conductor/GunnsFluidBalancedPrv.cpp GunnsFluidBalancedPrv::transportFlows'),
          ('malfunctions', 'aspects/fluid/conductor/GunnsFluidLeak.cpp GunnsFluidLeak::updateState')],
    note='unbounded except 1 fluid constituent and 3 nodes in the transport harnesses. Real arithmetic stands for floating point. Callee contracts assumed: predictConductivity (its own contract is P09), collectInflux, computeGasDiffusion.')
EPS, COND = L.EPS, L.COND
FEPS = 1.1920928955078125e-07
CLOSED, OPENING, TRANS, CLOSING, OPEN = range(5)


def leak_pred(S, k):
    """predictConductivity as an arbitrary function of the flow (uninterpreted; the real one when replayed)"""
    w = k.this.mMalfLeakThruValue
    a, b = k.n0.mOutflow, k.n1.mOutflow
    L.fluid_ok(S, a, b)
    if S.mode == 'sym':
        S.use('GunnsFluidUtils::predictConductivity', lambda K, w, m, a, b, e: L.uf5(w, m, a.mDensity, b.mDensity, e))
        return L.uf5(w, k.this.mMinLinearizationPotential, a.mDensity, b.mDensity, D(0.5))
    return S.call('GunnsFluidUtils::predictConductivity', w, k.this.mMinLinearizationPotential, a, b, D(0.5))


def leak_thru(S, k, o, pred):
    """the leak malfunction is sized for its flow once, when it is activated or changed"""
    t, this = o(k.this), k.this
    want = If(t.mMalfLeakThruFlag, If(t.mPreviousLeakRate == t.mMalfLeakThruValue, t.mLeakConductivity, pred), 0)
    S.ensure('leak conductivity is the one for the malfunction flow, none without it', this.mLeakConductivity == want)
    S.ensure('the sized flow is remembered', this.mPreviousLeakRate == If(t.mMalfLeakThruFlag, t.mMalfLeakThruValue, 0))
    S.ensure('conducts its maximum times its position, at least the leak', this.mEffectiveConductivity == max_(t.mMaxConductivity * this.mPosition, this.mLeakConductivity))
    S.ensure('maximum kept', this.mMaxConductivity == t.mMaxConductivity)


def pos_ok(S, this, f='mPosition'):
    S.require(And(getattr(this, f) >= 0, getattr(this, f) <= 1))


def moved(S, this, t, dt):
    S.ensure('position stays within its stops', And(this.mPosition >= 0, this.mPosition <= 1))
    auto = And(Not(t.mMalfStuckFlag), Not(t.mMalfFailToFlag))
    S.ensure('moves by no more than the rate limit', Implies(auto, abs_(this.mPosition - t.mPosition) <= t.mRateLimit * dt))
    S.ensure('a stuck valve holds its position', Implies(t.mMalfStuckFlag, this.mPosition == t.mPosition))
    S.ensure('a failed valve is at its failed position', Implies(And(Not(t.mMalfStuckFlag), t.mMalfFailToFlag), this.mPosition == clamp(t.mMalfFailToValue, 0, 1)))
    return auto


def valve(S):
    k = L.mk(S, 'GunnsFluidValve')
    pos_ok(S, k.this)
    pred = leak_pred(S, k)
    o = S.snap()
    S.call('GunnsFluidValve::updateState', k.this, S.real('dt', 0, 100))
    leak_thru(S, k, o, pred)
    S.ensure('position kept', k.this.mPosition == o(k.this).mPosition)


def check_valve(S):
    k = L.mk(S, 'GunnsFluidCheckValve')
    pos_ok(S, k.this)
    S.require(And(k.this.mRateLimit >= 0, k.this.mOpenPressure >= k.this.mClosePressure))
    pred = leak_pred(S, k)
    dt = S.real('dt', 0, 100)
    o = S.snap()
    S.call('GunnsFluidCheckValve::updateState', k.this, dt)
    t, this = o(k.this), k.this
    auto = moved(S, this, t, dt)
    dp, po, pc = t.mPotentialDrop, t.mOpenPressure, t.mClosePressure
    want = If(dp >= po, 1, If(dp <= pc, 0, (dp - pc) / If(po == pc, 1, po - pc)))
    d = t.mRateLimit * dt
    S.ensure('moves towards its pressure curve', Implies(auto, this.mPosition == clamp(want, t.mPosition - d, t.mPosition + d)))
    S.ensure('open at the open pressure, shut at the close pressure, given time', Implies(And(auto, d >= 1), And(Implies(dp >= po, this.mPosition == 1), Implies(And(dp <= pc, dp < po), this.mPosition == 0))))
    leak_thru(S, k, o, pred)


SIGN = {'GunnsFluidReliefValve': 1, 'GunnsFluidRegulatorValve': -1}


def curves(this, cls):
    """the coefficients of the opening (inc) and closing (dec) curves; for a regulator the roles swap with the sign of the pressure"""
    g = lambda n: getattr(this, n)
    a = {n: g('mPop' + n) for n in ('IncM', 'IncMInv', 'IncB', 'IncP', 'DecM', 'DecMInv', 'DecB', 'DecP')}
    b = {n: g('mNom' + n) for n in ('IncM', 'IncMInv', 'IncB', 'DecM', 'DecMInv', 'DecB')}
    return a, b


def curve_facts(this, cls):
    """what derive() establishes and every update keeps"""
    s = SIGN[cls]
    a, b = curves(this, cls)
    # relief: inc curve starts at crack, dec at reseat; regulator: dec curve starts at crack, inc at reseat
    start = {'Inc': this.mCrackPressure, 'Dec': this.mReseatPressure} if s == 1 else {'Inc': this.mReseatPressure, 'Dec': this.mCrackPressure}
    f = []
    for c in ('Inc', 'Dec'):
        f += [('%s curve starts closed at its start pressure' % c, a[c + 'B'] == -a[c + 'M'] * start[c]), ('%s curve passes the pop position at the pop pressure' % c, a[c + 'M'] * a[c + 'P'] + a[c + 'B'] == this.mPopPosition),
              ('%s curve continues from the pop position' % c, b[c + 'M'] * a[c + 'P'] + b[c + 'B'] == this.mPopPosition), ('%s curve ends fully open' % c, b[c + 'M'] * this.mFullOpenPressure + b[c + 'B'] == 1),
              ('%s curve rises towards open' % c, And(s * a[c + 'M'] > 0, s * b[c + 'M'] > 0)), ('%s inverse slopes' % c, And(a[c + 'MInv'] * a[c + 'M'] == 1, b[c + 'MInv'] * b[c + 'M'] == 1))]
    opens, closes = ('Inc', 'Dec') if s == 1 else ('Dec', 'Inc')
    return f + [('the opening curve pops at a higher pressure than the closing curve' if s == 1 else 'the opening curve pops at a lower pressure than the closing curve', s * a[opens + 'P'] > s * a[closes + 'P'])]


def cfg(this, cls):
    s = SIGN[cls]
    e = D(FEPS)
    lo, mid, hi = (this.mReseatPressure, this.mCrackPressure, this.mFullOpenPressure) if s == 1 else (this.mFullOpenPressure, this.mCrackPressure, this.mReseatPressure)
    return And(lo >= e, mid - lo >= e, hi - mid >= e, this.mPopPosition >= e, this.mPopPosition <= 1 - e, this.mPopSlopeScale >= 1, this.mRateLimit >= 0)


def derive(S, cls):
    this = S.obj(cls, 'this')
    S.dyn(this, cls)
    S.require(cfg(this, cls))
    pos_ok(S, this)
    o = S.snap()
    S.call(cls + '::derive', this)
    for n, f in curve_facts(this, cls):
        S.ensure(n, f)
    t = o(this)
    S.ensure('state fits the position', And(Implies(this.mState == CLOSED, t.mPosition == 0), Implies(this.mState == OPEN, t.mPosition == 1), Or(this.mState == CLOSED, this.mState == OPEN, this.mState == OPENING)))
    S.ensure('position kept', this.mPosition == t.mPosition)


def curve(this, cls, c, p):
    a, b = curves(this, cls)
    s = SIGN[cls]
    before = p <= a[c + 'P'] if s == 1 else p >= a[c + 'P']
    return clamp(If(before, a[c + 'B'] + a[c + 'M'] * p, b[c + 'B'] + b[c + 'M'] * p), 0, 1)


def psv(S, cls):
    k = L.mk(S, cls, ports=4)
    this = k.this
    S.require(cfg(this, cls))
    pos_ok(S, this)
    return k


def band(S, cls, rated, state=None):
    """position of a relief or regulator valve for any pressure history"""
    k = psv(S, cls)
    this = k.this
    S.require(conj([f for n, f in curve_facts(this, cls)]))
    S.require(And(this.mState >= 0, this.mState <= 4) if state is None else this.mState == state)
    pred = leak_pred(S, k)
    dt = S.real('dt', 0, 100)
    opens, closes = ('Inc', 'Dec') if SIGN[cls] == 1 else ('Dec', 'Inc')
    op = lambda v, p: curve(v, cls, opens, p)
    cl = lambda v, p: curve(v, cls, closes, p)
    s = SIGN[cls]

    def inv(v, p):
        """position and state belong to the pressure"""
        return [('closed means shut', Implies(v.mState == CLOSED, And(v.mPosition == 0, s * p <= s * v.mCrackPressure))), ('open means fully open', Implies(v.mState == OPEN, And(v.mPosition == 1, s * p >= s * v.mFullOpenPressure))),
                ('opening follows the opening curve', Implies(v.mState == OPENING, v.mPosition == op(v, p))), ('closing follows the closing curve', Implies(v.mState == CLOSING, v.mPosition == cl(v, p))),
                ('between the curves the position holds', Implies(v.mState == TRANS, And(v.mPosition >= op(v, p), v.mPosition <= cl(v, p))))]
    if not rated:
        S.require(And(this.mRateLimit * dt >= 1, Not(this.mMalfStuckFlag), Not(this.mMalfFailToFlag)))
        S.require(conj([f for n, f in inv(this, this.mPreviousPressure)]))
    o = S.snap()
    S.call(cls + '::updateState', this, dt)
    t = o(this)
    p = t.mControlPressure
    if rated:
        moved(S, this, t, dt)
        S.ensure('the pressure is remembered', this.mPreviousPressure == p)
        S.ensure('a valve that is not fully shut is not closed, one not fully open is not open', Implies(And(Not(t.mMalfStuckFlag), Not(t.mMalfFailToFlag)), And(Implies(this.mState == CLOSED, this.mPosition == 0), Implies(this.mState == OPEN, this.mPosition == 1))))
        S.ensure('configuration kept', conj([getattr(this, x) == getattr(t, x) for x in ('mReseatPressure', 'mCrackPressure', 'mFullOpenPressure', 'mPopPosition', 'mRateLimit', 'mPopIncP', 'mPopDecP')]))
        leak_thru(S, k, o, pred)
        return
    S.ensure('the position holds unless the pressure leaves the hysteresis band, then it follows the curve', this.mPosition == min_(max_(t.mPosition, op(t, p)), cl(t, p)))
    S.ensure('fully open at the full open pressure', Implies(s * p >= s * t.mFullOpenPressure, this.mPosition == 1))
    S.ensure('shut at the reseat pressure', Implies(s * p <= s * t.mReseatPressure, this.mPosition == 0))
    for n, f in inv(this, this.mPreviousPressure):
        S.ensure(n, f)


def psv_step(S, cls):
    k = L.mk(S, cls, ports=4)
    this = k.this
    S.set(this, 'mTuneMode', 0)
    f0, f1 = k.n0.mOutflow, k.n1.mOutflow
    L.fluid_ok(S, f0, f1)
    if S.mode == 'con':
        raise Reject()
    S.use(cls + '::updateState', lambda K, v, dt: K.assign(v, 'mEffectiveConductivity', upd(v.mControlPressure)))
    o = S.snap()
    S.call('GunnsFluidPressureSensitiveValve::step', this, S.real('dt', 0, 100))
    t = o(this)
    pc = k.pv[2] - k.pv[3] + If(t.mMalfPressureBiasFlag, t.mMalfPressureBiasValue, 0) - t.mSetPointPressureBias - (t.mInletDependencyCoeff0 + t.mInletDependencyCoeff1 * k.pv[0])
    S.ensure('control pressure is the sensed difference, biased by malfunction, set point and inlet pressure', this.mControlPressure == pc)
    eff = L.blocked(t, upd(this.mControlPressure))
    S.ensure('blockage reduces the conductivity', this.mEffectiveConductivity == eff)
    g = clamp(L.admittance(S, eff, t.mMinLinearizationPotential, o(f0), o(f1)), 0, D(COND))
    L.stamp(S, k, o, g, 4)
    L.vec_kept(S, k, o, P=4)
    L.vec_kept(S, k, o, 'no source contribution', 'sv', P=4)


def upd(p):
    from gcv.exec import uf, RS
    return uf('updateState', RS, RS)(R(p))


def psv_flows(S, cls):
    k = L.mk(S, cls, ports=4)
    S.require(k.nm[0] != k.nm[1])
    o = S.snap()
    S.call('GunnsFluidPressureSensitiveValve::computeFlows', k.this, S.real('dt', 0, 100))
    S.ensure('potential drop', k.this.mPotentialDrop == k.pv[0] - k.pv[1])
    f = (k.pv[0] - k.pv[1]) * k.am[0]
    S.ensure('flux by the component law', k.this.mFlux == f)
    L.sched(S, k, o, f)
    S.ensure('the sensing ports carry no flow', And(k.pd[2] == 0, k.pd[3] == 0))


def simple_qd(S):
    this = S.obj('GunnsFluidSimpleQd', 'this')
    o = S.snap()
    S.call('GunnsFluidSimpleQd::updateState', this, S.real('dt', 0, 100))
    S.ensure('conducts only when connected', this.mEffectiveConductivity == If(o(this).mState == 1, o(this).mMaxConductivity, 0))


def leak(S):
    """two steps of a leak with arbitrary malfunctions: the malfunction that is active decides, whatever was active before"""
    k = L.mk(S, 'GunnsFluidLeak')
    this = k.this
    a, b = k.n0.mOutflow, k.n1.mOutflow
    L.fluid_ok(S, a, b)
    w = this.mMalfLeakRateValue
    if S.mode == 'sym':
        S.use('GunnsFluidUtils::predictConductivity', lambda K, w, m, a, b, e: If(w == 0, 0, L.uf5(w, m, a.mDensity, b.mDensity, e)))
        pred = If(w == 0, 0, L.uf5(w, this.mMinLinearizationPotential, a.mDensity, b.mDensity, D(0.5)))
    else:
        pred = S.call('GunnsFluidUtils::predictConductivity', w, this.mMinLinearizationPotential, a, b, D(0.5))

    def inv(v):
        """how the link remembers which malfunction its conductivity was sized for"""
        h, r = v.mPreviousLeakHole, v.mPreviousLeakRate
        return And(Or(h == 0, r == 0), Implies(r == 0, v.mLeakConductivity == h))
    S.require(inv(this))
    o = S.snap()
    S.call('GunnsFluidLeak::updateState', this, S.real('dt', 0, 100))
    t = o(this)
    sized = And(t.mPreviousLeakRate == w, t.mPreviousLeakHole == 0)
    want = If(t.mMalfLeakHoleFlag, t.mMalfLeakHoleValue, If(t.mMalfLeakRateFlag, If(sized, t.mLeakConductivity, pred), 0))
    S.ensure('conducts what the active malfunction asks for', this.mEffectiveConductivity == want)
    S.ensure('no conductance without a malfunction', Implies(And(Not(t.mMalfLeakHoleFlag), Not(t.mMalfLeakRateFlag)), this.mEffectiveConductivity == 0))
    S.ensure('remembers which malfunction its conductivity was sized for', inv(this))
    S.ensure('the sized rate is the active one', Implies(And(t.mMalfLeakRateFlag, Not(t.mMalfLeakHoleFlag)), this.mPreviousLeakRate == w))


def three_way(S):
    this = S.obj('GunnsFluid3WayValve', 'this')
    pos_ok(S, this)
    S.require(And(this.mNonMixingBand >= 0, this.mNonMixingBand <= 1 - D(EPS)))
    o = S.snap()
    S.call('GunnsFluid3WayValve::updateState', this, S.real('dt', 0, 100))
    t = o(this)
    A, B_ = this.mPathA.mPosition, this.mPathB.mPosition
    x = If(t.mPositionPathB, t.mPosition, 1 - t.mPosition)
    S.ensure('both paths stay within their stops', And(A >= 0, A <= 1, B_ >= 0, B_ <= 1))
    S.ensure('without a dead band the position is split between the paths', Implies(t.mNonMixingBand == 0, And(A == 1 - x, B_ == x)))
    S.ensure('with a dead band at most one path is open', Implies(t.mNonMixingBand > 0, Or(A == 0, B_ == 0)))
    S.ensure('within the dead band both paths are shut', Implies(And(t.mNonMixingBand > 0, abs_(t.mPosition - D(0.5)) <= t.mNonMixingBand / 2 - D(EPS)), And(A == 0, B_ == 0)))
    S.ensure('at its ends one path is fully open', And(Implies(x == 0, And(A == 1, B_ == 0)), Implies(x == 1, And(A == 0, B_ == 1))))
    S.ensure('position kept', this.mPosition == t.mPosition)


def three_way_check(S):
    this = S.obj('GunnsFluid3WayCheckValve', 'this')
    S.dyn(this, 'GunnsFluid3WayCheckValve')
    pos_ok(S, this)
    S.require(And(this.mNonMixingBand >= 0, this.mNonMixingBand <= 1 - D(EPS), this.mRateLimit >= 0))
    S.require(And(this.mMinPressureDiff >= 0, this.mOpenPressureA > this.mMinPressureDiff, this.mOpenPressureB > this.mMinPressureDiff))
    dt = S.real('dt', 0, 100)
    o = S.snap()
    S.call('GunnsFluid3WayCheckValve::updateState', this, dt)
    t = o(this)
    auto = moved(S, this, t, dt)
    pa, pb = t.mPathA.mPotentialDrop, t.mPathB.mPotentialDrop
    S.ensure('without driving pressure the position holds', Implies(And(auto, pa < 0, pb < 0), this.mPosition == t.mPosition))
    x = If(t.mPositionPathB, 1 - this.mPosition, this.mPosition)
    m = t.mMinPressureDiff
    ramp = lambda d, po: D(0.5) * clamp((d - m) / (po - m), 0, 1)
    S.ensure('given time it opens towards the higher pressure, each path by its own open pressure', Implies(And(auto, t.mRateLimit * dt >= 1, Or(pa >= 0, pb >= 0)),
             x == If(abs_(pa - pb) < m, D(0.5), If(pa > pb, D(0.5) + ramp(pa - pb, t.mOpenPressureA), D(0.5) - ramp(pb - pa, t.mOpenPressureB)))))


def prv(S):
    """balanced pressure regulating valve: contributions to the network"""
    k = link(S, 'GunnsFluidBalancedPrv', 3, ncls='GunnsFluidNode')
    this = k.this
    S.set(this, 'mUserPortSetControl', 0)
    a = k.am
    S.require(conj([a[i] == 0 for i in range(9) if i not in (0, 4)]))
    S.require(And(this.mExitPressureDroop >= 0, this.mInletMassBuffer >= 0, this.mPressureSetpoint >= 0))
    n0 = k.nodes[k.nm[0]]
    dt = S.real('dt', 0, 100)
    o = S.snap()
    S.call('GunnsFluidBalancedPrv::step', this, dt)
    t = o(this)
    mw = o(n0).mOutflow.mMWeight
    pv = k.pv
    cut = If(pv[1] > pv[0], True, If(pv[1] < t.mPressureSetpoint, False, t.mBackPressureCutoff))
    reg = min_(t.mPressureSetpoint + pv[2] + If(t.mMalfPressureBiasFlag, t.mMalfPressureBiasValue, 0), pv[0])
    S.ensure('shut by back pressure until the exit falls below the set point', this.mBackPressureCutoff == cut)
    S.ensure('regulates to the set point over the reference pressure, no higher than the inlet', this.mRegulatedPressure == reg)
    gx = If(Or(cut, mw < D(FEPS)), 0, 1 / If(mw < D(FEPS), 1, mw) / clamp(t.mExitPressureDroop, D(FEPS), 1 / D(FEPS)) * If(t.mMalfBlockageFlag, 1 - t.mMalfBlockageValue, 1))
    S.ensure('exit conductance gives the droop per mass flow', this.mExitConductance == gx)
    on = And(dt >= D(EPS), mw >= D(FEPS), pv[0] >= D(EPS))
    gi = If(on, D(0.2) * t.mInletMassBuffer / If(on, dt, 1) / If(on, mw, 1) / If(on, pv[0], 1), 0)
    S.ensure('the inlet works off a fifth of the owed mass per step', this.mInletConductance == clamp(gi, 0, D(COND)))
    S.ensure('contributions stand on the diagonal of the inlet and exit ports', And(a[0] == this.mInletConductance, a[4] == this.mExitConductance, conj([a[i] == 0 for i in range(9) if i not in (0, 4)])))
    S.ensure('the source drives the exit to the regulated pressure', And(k.sv[0] == 0, k.sv[1] == this.mRegulatedPressure * this.mExitConductance, k.sv[2] == 0))
    S.ensure('the solver is told when the matrix changed', Implies(Or(a[0] != o(a)[0], a[4] != o(a)[4]), this.mAdmittanceUpdate))
    S.ensure('a rebuild that was already due, as after a port moved, stays due', Implies(t.mAdmittanceUpdate, this.mAdmittanceUpdate))


def prv_flows(S):
    k = link(S, 'GunnsFluidBalancedPrv', 3, ncls='GunnsFluidNode')
    this = k.this
    S.require(k.nm[0] != k.nm[1])
    S.require(k.nm[0] != k.N)
    n0 = k.nodes[k.nm[0]]
    o = S.snap()
    S.call('GunnsFluidBalancedPrv::computeFlows', this, S.real('dt', 0, 100))
    pv, a = k.pv, k.am
    S.ensure('inlet flux is what the inlet gives, never backwards', this.mInletFlux == max_(0, pv[0] * a[0]))
    S.ensure('exit flux is what the exit takes, never backwards', this.mFlux == max_(0, k.sv[1] - pv[1] * a[4]))
    d = lambda n: n.mScheduledOutflux - o(n).mScheduledOutflux
    S.ensure('only the inlet node is scheduled to lose', S.forall(0, k.N + 1, lambda i: d(k.nodes[i]) == If(And(i == k.nm[0], this.mInletFlux > D(EPS)), this.mInletFlux, 0)))
    E = this.mInletFlux > D(EPS)
    S.ensure('port directions', And(k.pd[0] == If(E, 1, 0), k.pd[1] == If(E, 2, 0), k.pd[2] == 0))


def nodes3(S, cls, ports, nmap):
    S.bounded('1 fluid constituent where flows are mixed into nodes (the mixing itself is the contract of collectInflux)')
    F = Fluids(S, 1, phase=0)
    nodes = S.arr('GunnsFluidNode', 3, 'nodes')
    S.dyn(nodes[0], 'GunnsFluidNode')
    for i in range(3):
        nd = S.addr_at(nodes, i)
        S.set(nd, 'mNumFluidTypes', 1)
        for x in ('mContent', 'mInflow', 'mOutflow'):
            F.fluid('n%d.%s' % (i, x), obj=S.addr(nd, x))
    nl = S.obj('GunnsNodeList', 'nodeList')
    S.set(nl, 'mNumNodes', 3)
    S.bind(nl, 'mNodes', nodes)
    k = link(S, cls, ports, ncls='GunnsFluidNode', nodes=nodes, nn=(2, nl))
    for i, v in enumerate(nmap):
        S.write(k.nm, i, v)
        S.bind(k.np, i, S.addr_at(nodes, v))
    return k, F, nodes


def prv_transport(S, case):
    k, F, nodes = nodes3(S, 'GunnsFluidBalancedPrv', 3, case)
    this = k.this
    S.bind(this, 'mInternalFluid', None)
    if S.mode == 'sym':
        S.use('GunnsFluidNode::collectInflux', L.collect)
    S.require(And(this.mInletFlux >= 0, this.mFlux >= 0, this.mInletMassBuffer >= 0))
    n0, n1 = nodes[case[0]], nodes[case[1]]
    S.require(And(n0.mOutflow.mMWeight >= 0, n0.mOutflow.mDensity >= 0))
    dt = S.real('dt', 0, 100)
    o = S.snap()
    S.call('GunnsFluidBalancedPrv::transportFlows', this, dt)
    t = o(this)
    mw = o(n0).mOutflow.mMWeight
    wi, wx = t.mInletFlux * mw, t.mFlux * mw
    S.ensure('mass flows are the fluxes of the inlet fluid', And(this.mInletFlowRate == wi, this.mFlowRate == wx))
    lim = D(100 * EPS)
    d = lambda n, f: getattr(n, f) - getattr(o(n), f)
    S.ensure('the inlet node loses the inlet flow', And(d(n0, 'mOutfluxRate') == If(wi > lim, wi, 0), d(n0, 'mInfluxRate') == 0))
    S.ensure('the exit node gains the exit flow of inlet fluid', And(d(n1, 'mInfluxRate') == If(wx > lim, wx, 0), d(n1, 'mOutfluxRate') == 0))
    if S.mode == 'sym':
        S.ensure('heat enters with the fluid', d(n1, 'mInflowHeatFlux') == If(wx > lim, wx * o(n0).mOutflow.mSpecificEnthalpy, 0))
    owed = t.mInletMassBuffer + (wx - wi) * dt
    S.ensure('what was delivered and not yet drawn is owed', this.mInletMassBuffer == If(owed < D(EPS), 0, owed))


def hatch(S):
    """heat and diffusion through an open hatch"""
    k, F, nodes = nodes3(S, 'GunnsFluidHatch', 2, (0, 1))
    this = k.this
    S.bind(this, 'mInternalFluid', F.fluid('internal'))
    df = F.fluid('diffusive')
    S.bind(this, 'mDiffusiveFluid', df)
    if S.mode == 'sym':
        S.use('GunnsFluidNode::collectInflux', L.collect)
        ghost = dict(q=S.real('conduction'), w=S.real('diffusion'))
        S.use('GunnsFluidUtils::computeGasDiffusion', lambda K, f, a, f0, f1, w, l0, l1: ghost['w'])
        S.use('GunnsFluidUtils::computeConductiveHeatFlux', lambda K, a, f0, f1, l0, l1: ghost['q'])
    n0, n1 = nodes[0], nodes[1]
    dt = S.real('dt', 0, 100)
    w = this.mFlowRate
    o = S.snap()
    S.call('GunnsFluidHatch::updateFluid', this, dt, w)
    t = o(this)
    d = lambda n, f: getattr(n, f) - getattr(o(n), f)
    q = this.mConductiveHeatFlux
    S.ensure('heat conducted out of one node enters the other', And(d(n0, 'mInflowHeatFlux') == -q, d(n1, 'mInflowHeatFlux') == q))
    calm = And(dt > D(EPS), n0.mVolume > 0, n1.mVolume > 0)
    S.ensure('no conduction or diffusion to a node without volume', Implies(Not(calm), And(q == 0, this.mDiffusiveFlowRate == 0)))
    if S.mode == 'sym':
        S.ensure('the nodes always exchange heat otherwise', Implies(calm, q == ghost['q']))
        S.ensure('and diffuse when at rest', Implies(And(calm, abs_(t.mPotentialDrop) < D(0.01), abs_(n0.mOutflow.mTemperature - n1.mOutflow.mTemperature) < D(20)), this.mDiffusiveFlowRate == ghost['w']))
    S.ensure('no diffusion against a real pressure or temperature difference', Implies(Or(abs_(t.mPotentialDrop) >= D(0.01), abs_(n0.mOutflow.mTemperature - n1.mOutflow.mTemperature) >= D(20)), this.mDiffusiveFlowRate == 0))
    o = S.snap()
    S.call('GunnsFluidHatch::transportFluid', this, S.bool('forced'), 0, 1)
    t = o(this)
    lim = D(100 * EPS)
    g = lambda x: If(abs_(x) > lim, x, 0)
    d = lambda n, f: getattr(n, f) - getattr(o(n), f)
    net = g(t.mFlowRate) + g(t.mDiffusiveFlowRate)
    S.ensure('bulk and diffused mass leave one node and enter the other', And(d(n1, 'mInfluxRate') - d(n1, 'mOutfluxRate') == net, d(n0, 'mInfluxRate') - d(n0, 'mOutfluxRate') == -net))
    S.ensure('only the bulk flow leaves as outflow', And(d(n0, 'mOutfluxRate') == If(t.mFlowRate > lim, t.mFlowRate, 0), d(n1, 'mOutfluxRate') == If(t.mFlowRate < -lim, -t.mFlowRate, 0)))
    S.ensure('the link shows its bulk flow', And(this.mFlowRate == t.mFlowRate, S.same(this.mInternalFluid, t.mInternalFluid)))


def three_way_step(S):
    """the three-way valve itself conducts nothing: its paths do"""
    k = L.mk(S, 'GunnsFluid3WayValve', ports=3)
    this = k.this
    S.set(this, 'mUserPortSetControl', 0)
    if S.mode == 'con':
        raise Reject()
    st = []
    ok = S.bool('accepts')

    def setp(K, v, p, n, *e):
        st.append((S.same(v, S.addr(this, 'mPathA')), S.same(v, S.addr(this, 'mPathB')), p, n))
        return ok
    S.use('GunnsBasicLink::setPort', setp)
    S.use('GunnsFluid3WayValve::updateState', lambda K, v, dt: K.assign(v, 'mPosition', K.fresh_real('x')))
    pos_ok(S, this)
    o = S.snap()
    S.call('GunnsFluid3WayValve::step', this, S.real('dt', 0, 100), may_throw=True)
    S.ensure('an error if its paths cannot follow its ports, none otherwise', S.threw == Not(ok))
    S.st.pc += (Not(S.threw),)
    nm = k.nm
    has = lambda a, p, n: disj([And(z[0 if a else 1], z[2] == p, z[3] == nm[n]) for z in st])
    S.ensure('both paths follow the ports of the valve', And(has(True, 0, 0), has(True, 1, 2), has(False, 0, 1), has(False, 1, 2)))
    S.ensure('the valve itself stamps nothing', conj([k.am[i] == 0 for i in range(9)] + [k.sv[i] == 0 for i in range(3)]))
    S.call('GunnsFluid3WayValve::computeFlows', this, S.real('dt2', 0, 100))
    S.ensure('and schedules no flow of its own', conj([k.pd[i] == 0 for i in range(3)]))


CLS = ('GunnsFluidReliefValve', 'GunnsFluidRegulatorValve')
HARNESSES = [('valve', valve), ('check valve', check_valve), ('quick disconnect', simple_qd), ('leak', leak), ('three way', three_way), ('three way step', three_way_step), ('three way check', three_way_check), ('prv', prv), ('prv flows', prv_flows), ('hatch', hatch)]
HARNESSES += [('transport %s %d-%d%s' % (c[10:], a, b, ' internal' if i else ''), L.transport, (c, (a, b), i)) for c in CLS[:1] for a, b in L.CASES for i in (False, True)]
HARNESSES += [('derive ' + c[10:], derive, (c,)) for c in CLS] + [('band %s from %s' % (c[10:], n), band, (c, False, i)) for c in CLS for i, n in enumerate(('closed', 'opening', 'between', 'closing', 'open'))] + [('rate ' + c[10:], band, (c, True)) for c in CLS]
HARNESSES += [('psv step', psv_step, ('GunnsFluidReliefValve',)), ('psv flows', psv_flows, ('GunnsFluidReliefValve',))]
HARNESSES += [('prv transport %d-%d' % c[:2], prv_transport, (c,)) for c in ((0, 1, 2), (1, 0, 2), (0, 2, 2))]
