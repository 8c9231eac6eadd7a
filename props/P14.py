"""Sensors, limit switches, valve controllers, motors and PID control."""
from gcv.api import *
from gcv.lib import *
import math
ID = 'P14'
C = 'gunns-ts-models/common/'
SN = ['sensors/' + x for x in ('SensorAnalog', 'SensorBase', 'SensorBooleanAi', 'SensorBooleanBi', 'SensorVlvOpenClose', 'TsFanSpeedSensors', 'TsLimitSwitch', 'TsLimitSwitchAnalog', 'TsNoise', 'TsOpticSmokeDetector')]
CT = ['controllers/fluid/Ts' + x for x in ('PoweredValveController', 'PositionValveController', 'ValveController', 'DualSolenoidValveController', 'OpenCloseValveController', 'SpeedValveController', 'ToggleValveController',
                                           'TValveController', 'ToggleValveCmd', 'PumpMotorController')] + ['controllers/generic/TsPidController']
AS = ['controllers/valveAssemblies/Ts' + x for x in ('OpenCloseValveAssembly', 'DualSolenoidValveAssembly', 'ToggleValveAssembly')]
MO = ['effectors/mechanical/motor/DcDynPumpMotor', 'effectors/mechanical/motor/TsDcPwmDynMotor']
TH = ['gunns-ts-models/aspects/signal/effectors/thermostat/' + x for x in ('Thermostat.cpp', 'HtrControl.cpp')]
SOURCES = TH + [C + x + '.cpp' for x in SN + CT + AS + MO] + ['ms-utils/math/UnitConversion.cpp', 'core/GunnsSensorAnalogWrapper.cpp', 'core/GunnsNetworkSpotter.cpp']
META = dict(
    title='Sensors, switches, valve and motor controllers output what they should, in range',
    statement='An analog sensor senses the truth with its scale, bias, drift, noise and resolution within its range, gives its off value without power, holds when stuck and gives the failed value when failed; boolean sensors, limit switches, valve position sensors and the smoke detector give the value that their input, power and failures call for. A valve controller keeps its position within its stops, moves as commanded, powered, latched, forced by hand or failed, toward a position command by no more than its rate, draws hold, move or stuck power accordingly, and its flow area follows the position. A PID controller acts once per interval with its gains and stays within its limits, a thermostat turns its heater on below its set points, off above and keeps it between, by all or any of its sensors and as failed or killed, and a motor or its controller turns voltage, speed, load and trips into current, torque, speed, power and waste heat that balance.',
    over=['inputs', 'histories'],
    quant='every truth, power state, malfunction combination, command, position, time step, configuration accepted and prior state',
    why='unit tests step through chosen malfunctions one at a time; the priority of power, failures, manual control and malfunctions over each other must hold for every combination and history',
    files=[C + x + '.cpp' for x in ('sensors/SensorAnalog', 'sensors/SensorBooleanBi', 'sensors/SensorBooleanAi', 'sensors/TsLimitSwitchAnalog', 'sensors/TsOpticSmokeDetector', 'controllers/fluid/TsPoweredValveController', 'controllers/fluid/TsPositionValveController',
                                    'controllers/fluid/TsToggleValveController', 'controllers/fluid/TsPumpMotorController', 'controllers/generic/TsPidController', 'effectors/mechanical/motor/DcDynPumpMotor', 'effectors/mechanical/motor/TsDcPwmDynMotor')] + TH,
    mech=[('sensors', C + 'sensors/SensorAnalog.cpp SensorAnalog::update; SensorBooleanBi::update; TsLimitSwitch::update; TsOpticSmokeDetector::update'),
          ('valve controllers', C + 'controllers/fluid/TsValveController.cpp TsValveController::updatePosition; TsPoweredValveController::update, updatePower and the controllers derived from it'),
          ('control and motors', C + 'controllers/generic/TsPidController.cpp TsPidController::update; TsPumpMotorController::step; DcDynPumpMotor::step; TsDcPwmDynMotor::step'),
          ('thermostat', 'gunns-ts-models/aspects/signal/effectors/thermostat/Thermostat.cpp Thermostat::update, readSensors, evaluateAgainstSetpoints; HtrControl::considerCommandMalfs')],
    note='unbounded except the queue of toggle frames (3 frames) and the thermostat (1 to 3 sensors). Real arithmetic stands for single and double precision; outputs in whole steps of a resolution are stated below a million steps. Analog sensors are done without unit conversion and the noise function as any function with values in -1 to 1; the smoke detector, fan speed and wrapper sensors without noise and resolution; the pump motor controller with zero noise amplitude.')
ON, AND_, SINGLE = 1, 2, 1
EPS, FEPS, FMIN = D(2.220446049250313e-16), D(1.1920928955078125e-07), D(1.1754943508222875e-38)


def near(S, a, b):
    if S.mode == 'con':
        from gcv.replay import truth
        if truth(B(abs_(a - b) < D(1e-3)), {}):
            raise Reject()


def floor_(x):
    return z3.ToReal(z3.ToInt(x))


def powered(t):
    return And(Or(t.mPowerFlag, t.mMalfIgnorePower), Not(t.mMalfFailOffFlag))


def degraded(t):
    return And(Or(t.mMalfFailToFlag, t.mMalfFailOffFlag, t.mMalfFailStuckFlag), Not(t.mMalfPerfectSensor))


def analog(S, noise=False):
    """range, off value, malfunctions"""
    this = S.obj('SensorAnalog', 'this')
    S.set(this, 'mUnitConversion', 0)
    S.require(this.mMinRange < this.mMaxRange)
    S.require(And(this.mOffValue >= this.mMinRange, this.mOffValue <= this.mMaxRange))
    got = []
    if noise:
        if S.mode == 'sym':
            def noise_contract(K):
                r = K.fresh_real('noise')
                K.assume(And(r >= -1, r <= 1))
                got.append(r)
                return r
            S.use('TsNoise::getNoise', noise_contract)
        S.bind(this, 'mNoiseFunction', S.func('TsNoise::getNoise'))
        S.set(this, 'mNominalScale', 1)
        S.set(this, 'mMalfScaleFlag', False)
    else:
        S.bind(this, 'mNoiseFunction', None)
    dt = S.real('dt', 0, 100)
    o = S.snap()
    S.call('SensorAnalog::update', this, dt)
    t = o(this)
    x = t.mTruthInput
    x0 = If(abs_(x) < FMIN, 0, x)
    drift = If(t.mMalfDriftFlag, t.mDrift + t.mMalfDriftRate * dt, 0)
    y = x0 * t.mNominalScale * If(t.mMalfScaleFlag, t.mMalfScaleValue, 1) + t.mNominalBias + If(t.mMalfBiasFlag, t.mMalfBiasValue, 0) + drift
    r = abs_(If(t.mMalfResolutionFlag, t.mMalfResolutionValue, t.mNominalResolution))
    out = this.mSensedOutput
    chain = And(Not(t.mMalfPerfectSensor), powered(t), Not(t.mMalfFailToFlag), Not(t.mMalfFailStuckFlag))
    lim = lambda v: max_(min_(v, t.mMaxRange), t.mMinRange)
    S.ensure('output stays in the range of the sensor', And(out >= t.mMinRange, out <= t.mMaxRange))
    S.ensure('a perfect sensor gives the truth', Implies(t.mMalfPerfectSensor, out == lim(x0)))
    S.ensure('an unpowered sensor gives its off value', Implies(And(Not(t.mMalfPerfectSensor), Not(powered(t))), out == t.mOffValue))
    S.ensure('a sensor failed to a value gives that value', Implies(And(Not(t.mMalfPerfectSensor), powered(t), t.mMalfFailToFlag), out == lim(t.mMalfFailToValue)))
    S.ensure('a stuck sensor holds its output', Implies(And(Not(t.mMalfPerfectSensor), powered(t), Not(t.mMalfFailToFlag), t.mMalfFailStuckFlag), out == lim(t.mSensedOutput)))
    if noise:
        if S.mode == 'con':
            raise Reject()
        sc = If(t.mMalfNoiseFlag, t.mMalfNoiseScale, t.mNominalNoiseScale)
        mu = If(t.mMalfNoiseFlag, t.mMalfNoiseMultiplier, t.mNominalNoiseMult) * abs_(y - t.mOffValue)
        n = (got + [D(0)] * 2)[:2]
        S.ensure('noise of its scale and proportion', Implies(And(chain, r == 0), out == lim(y + If(abs_(mu) > FEPS, n[0] * mu, 0) + If(abs_(sc) > FEPS, n[1] * sc, 0))))
    else:
        q = r * floor_(y / If(r == 0, 1, r) + D(0.5))
        S.ensure('scale, bias and drift', Implies(And(chain, r <= FEPS), out == lim(y)))
        S.ensure('output in whole steps of the resolution', Implies(And(chain, r > FEPS, y / If(r == 0, 1, r) < 1000000, y / If(r == 0, 1, r) > -1000000), out == lim(q)))
    S.ensure('drift builds up while it is active', Implies(chain, this.mDrift == drift))
    S.ensure('drift is kept otherwise', Implies(Not(chain), this.mDrift == t.mDrift))
    S.ensure('true output is the input', this.mTruthOutput == x)
    S.ensure('degraded when failed unless perfect', this.mDegradedFlag == And(Or(t.mMalfFailToFlag, t.mMalfFailOffFlag, t.mMalfFailStuckFlag, t.mMalfScaleFlag, t.mMalfBiasFlag, t.mMalfDriftFlag, t.mMalfNoiseFlag, t.mMalfResolutionFlag), Not(t.mMalfPerfectSensor)))


def analog_sense(S):
    this = S.obj('SensorAnalog', 'this')
    S.set(this, 'mUnitConversion', 0)
    S.bind(this, 'mNoiseFunction', None)
    S.require(this.mMinRange < this.mMaxRange)
    S.set(this, 'mMalfPerfectSensor', True)
    p, x = S.bool('power'), S.real('truth')
    r = S.call('SensorAnalog::sense', this, S.real('dt', 0, 100), p, x)
    S.ensure('sensing uses the input given', And(this.mTruthInput == x, this.mPowerFlag == p))
    S.ensure('sensing returns the output', r == this.mSensedOutput)


def boolean(S, ai=False):
    this = S.obj('SensorBooleanAi' if ai else 'SensorBooleanBi', 'this')
    p = S.bool('power')
    x = S.real('truth') if ai else S.bool('truth')
    o = S.snap()
    r = S.call('SensorBooleanAi::sense' if ai else 'SensorBooleanBi::sense', this, S.real('dt', 0, 100), p, x)
    t = o(this)
    on = And(Or(p, t.mMalfIgnorePower), Not(t.mMalfFailOffFlag))
    truth = abs_(x - t.mTarget) <= t.mTolerance if ai else x
    if ai:
        near(S, abs_(x - t.mTarget), t.mTolerance)
    out = If(t.mMalfPerfectSensor, truth, If(Not(on), t.mOffValue, If(t.mMalfFailToFlag, t.mMalfFailToValue, If(t.mMalfFailStuckFlag, t.mSensedOutput, truth))))
    S.ensure('sensed value', And(this.mSensedOutput == out, r == out))
    S.ensure('degraded when failed unless perfect', this.mDegradedFlag == degraded(t))


def open_close(S):
    this = S.obj('SensorVlvOpenClose', 'this')
    p, x = S.bool('power'), S.real('position')
    for s in (this.mOpen, this.mClose):
        S.set(s, 'mMalfPerfectSensor', False)
    o = S.snap()
    S.call('SensorVlvOpenClose::sense', this, S.real('dt', 0, 100), p, x)
    for n, s in (('open', this.mOpen), ('close', this.mClose)):
        t = o(s)
        near(S, abs_(x - t.mTarget), t.mTolerance)
        on = And(Or(p, t.mMalfIgnorePower), Not(t.mMalfFailOffFlag))
        S.ensure('%s sensor' % n, s.mSensedOutput == If(Not(on), t.mOffValue, If(t.mMalfFailToFlag, t.mMalfFailToValue, If(t.mMalfFailStuckFlag, t.mSensedOutput, abs_(x - t.mTarget) <= t.mTolerance))))


def fan_speed(S):
    this = S.obj('TsFanSpeedSensors', 'this')
    ss = [this.mSensorA, this.mSensorB, this.mSensorC]
    for s in ss:
        S.set(s, 'mUnitConversion', 0)
        S.bind(s, 'mNoiseFunction', None)
        S.require(s.mMinRange < s.mMaxRange)
        S.set(s, 'mMalfPerfectSensor', False)
        S.set(s, 'mMalfResolutionFlag', False)
        S.set(s, 'mNominalResolution', 0)
    p, x = S.bool('power'), S.real('speed')
    r = S.call('TsFanSpeedSensors::sense', this, S.real('dt', 0, 100), p, x)
    S.ensure('average of the three sensors', And(r == this.mAverageSpeed, this.mAverageSpeed * 3 == ss[0].mSensedOutput + ss[1].mSensedOutput + ss[2].mSensedOutput))
    S.ensure('each sensor senses the speed', conj([And(s.mTruthInput == x, s.mPowerFlag == p) for s in ss]))


def smoke(S):
    this = S.obj('TsOpticSmokeDetector', 'this')
    for s in (this.obscurationSensor, this.scatterSensor):
        S.set(s, 'mUnitConversion', 0)
        S.bind(s, 'mNoiseFunction', None)
        S.require(s.mMinRange < s.mMaxRange)
        S.set(s, 'mMalfResolutionFlag', False)
        S.set(s, 'mNominalResolution', 0)
    c = this.configD
    S.require(And(c.obsMinPercentage < c.obsMaxPercentage, c.scatterMinPercentage < c.scatterMaxPercentage, c.nominalObscuration > c.obsMinPercentage, c.nominalScatter > c.scatterMinPercentage, c.scatterMinPercentage >= 0,
                  c.bitOnMaxScatterValue > c.scatterMinPercentage, c.bitRecoveryTime > FMIN, this.smokeLevelFactor >= 0, this.smokeLevelFactor <= 1, this.bitTimer >= 0))
    dt = S.real('dt', 0, 100)
    o = S.snap()
    S.call('TsOpticSmokeDetector::update', this, dt)
    t = o(this)
    on = And(Or(t.isPowered, t.malfPowerToOn), Not(t.malfTotalFail))
    bit = Or(t.isBitEnabled, t.isBitInProcess)
    f = t.smokeLevelFactor
    ob = If(on, If(bit, c.obsMaxPercentage, c.nominalObscuration + c.obsSmokeContributer * f), c.obsOffValue)
    sc = If(on, If(bit, If(t.isBitEnabled, c.bitOnMaxScatterValue, c.scatterMinPercentage), c.nominalScatter + (c.scatterMaxPercentage - c.nominalScatter) * f), c.scatOffValue)
    S.ensure('on when powered and not failed', (this.isLoadOn != 0) == on)
    S.ensure('obscuration within its range', this.obscurationPercentage == clamp(ob, c.obsMinPercentage, c.obsMaxPercentage))
    S.ensure('scatter within its range', this.scatterPercentage == clamp(sc, 0, c.scatterMaxPercentage))
    S.ensure('self test runs on for its recovery time', Implies(And(on, bit), And(this.isBitInProcess == (t.bitTimer <= c.bitRecoveryTime), this.bitTimer == t.bitTimer + If(t.isBitEnabled, 0, dt))))
    S.ensure('timer is reset without a test', Implies(And(on, Not(bit)), this.bitTimer == 0))
    for s, v in ((this.obscurationSensor, this.obscurationPercentage), (this.scatterSensor, this.scatterPercentage)):
        S.ensure('sensor senses the percentage', And(s.mTruthInput == v, s.mPowerFlag == on))
    S.ensure('voltages follow the sensed percentages', And(this.obsSensedVoltage == c.obsPercentVoltSlope * this.obscurationSensor.mSensedOutput + c.obsVoltIntercept,
                                                           this.scatSensedVoltage == c.scatPercentVoltSlope * this.scatterSensor.mSensedOutput + c.scatVoltIntercept))


def limit_switch(S, analog=False):
    this = S.obj('TsLimitSwitch' + ('Analog' if analog else ''), 'this')
    p, f = S.bool('power'), S.bool('failed')
    x = S.real('value') if analog else S.bool('value')
    o = S.snap()
    S.call('TsLimitSwitch%s::update' % ('Analog' if analog else ''), this, x, p, f)
    t = o(this)
    tv = Or(abs_(x - t.mTargetValue) < t.mTolerance, And(t.mTargetValue > 0, x > t.mTargetValue), And(t.mTargetValue < 0, x < t.mTargetValue)) if analog else x
    S.ensure('true value', this.mTrueValue == tv)
    S.ensure('sensed value', this.mSensedValue == If(f, t.mFailedValue, If(p, tv, t.mNotPoweredValue)))


def noise_fn(S):
    """noise lies in -1..1"""
    if S.mode == 'sym':
        S.use('rand', lambda K: K.fresh_int('rand', 0, 2147483647))
    r = S.call('TsNoise::getNoise')
    S.ensure('noise within -1..1', And(r >= -1, r <= 1))


def wrapper(S):
    this = S.obj('GunnsSensorAnalogWrapper', 'this')
    s = this.mSensor
    S.set(s, 'mUnitConversion', 0)
    S.bind(s, 'mNoiseFunction', None)
    S.require(s.mMinRange < s.mMaxRange)
    S.set(s, 'mMalfPerfectSensor', True)
    o = S.snap()
    S.call('GunnsSensorAnalogWrapper::stepPreSolver', this, S.real('dt', 0, 100))
    a = s.mTruthOutput
    t = o(this)
    S.ensure('updated before the solver when only that is selected', If(And(t.mStepPreSolverFlag, Not(t.mStepPostSolverFlag)), a == o(s).mTruthInput, a == o(s).mTruthOutput))
    S.call('GunnsSensorAnalogWrapper::stepPostSolver', this, S.real('dt', 0, 100))
    S.ensure('updated after the solver when selected', If(t.mStepPostSolverFlag, s.mTruthOutput == o(s).mTruthInput, s.mTruthOutput == a))


def validate(S):
    """configurations refused"""
    a = S.obj('SensorAnalog', 'analog')
    S.call('SensorAnalog::validate', a, may_throw=True)
    S.ensure('a sensor needs a range with the off value in it', S.threw == Or(a.mMinRange >= a.mMaxRange, a.mOffValue < a.mMinRange, a.mOffValue > a.mMaxRange))


def validate_ai(S):
    b = S.obj('SensorBooleanAi', 'boolean')
    S.call('SensorBooleanAi::validate', b, may_throw=True)
    S.ensure('a tolerance is not negative', S.threw == (b.mTolerance < 0))


# ---------------------------------------------------------------- valve controllers
CF = C + 'controllers/fluid/'


def vc(S, cls, name='this', this=None):
    this = S.obj(cls, name) if this is None else this
    S.require(this.mMinCmdPosition < this.mMaxCmdPosition)
    return this


def placed(S, this, o, want, label=''):
    t = o(this)
    p = If(t.mMalfValveStuckFlag, t.mCmdPosition, If(t.mMalfValveFailToFlag, t.mMalfValveFailToValue, If(And(this.mManualPositionFlag, Not(t.mMalfManualFlag)), this.mManualPositionValue, want)))
    lo, hi = t.mMinCmdPosition, t.mMaxCmdPosition
    S.ensure(label + 'position as commanded, by hand or failed', this.mCmdPosition == clamp(p, lo, hi))
    S.ensure(label + 'position within its stops', And(this.mCmdPosition >= lo, this.mCmdPosition <= hi))
    S.ensure(label + 'flow area follows the position', this.mFluidPosition == clamp(t.mFluidBias + t.mFluidScale * this.mCmdPosition, 0, 1))
    S.ensure(label + 'limit and stuck flags', And(this.mLowerLimitFlag == (p <= lo), this.mUpperLimitFlag == (p >= hi), this.mStuckFlag == Or(t.mMalfValveStuckFlag, t.mMalfValveFailToFlag)))


def valve(S):
    this = vc(S, 'TsValveController')
    o = S.snap()
    S.call('TsValveController::update', this, S.real('dt', 0, 100))
    placed(S, this, o, o(this).mCmdPosition)


def drive(S, t, cmd, dt, volt, en, latch):
    """position the drive of a powered valve asks for"""
    pw = And(Or(volt, t.mMalfPowerGoodFlag), Not(t.mMalfPowerFailFlag), en)
    return If(t.mMalfDriveStuckFlag, t.mCmdPosition, If(t.mMalfDriveFailToFlag, t.mMalfDriveFailToValue,
              If(pw, t.mCmdPosition + cmd * t.mCmdScale * dt, If(latch == 2, t.mMinCmdPosition, If(latch == 1, t.mMaxCmdPosition, t.mCmdPosition))))), pw


def powered_checks(S, this, o, cmd, dt, volt, en):
    t = o(this)
    want, pw = drive(S, t, cmd, dt, volt, en, t.mLatch)
    placed(S, this, o, want)
    moving = And(abs_(cmd) > EPS, Or(Not(t.mManualPositionFlag), t.mMalfManualFlag))
    against = Or(And(t.mCmdPosition <= t.mMinCmdPosition, cmd * t.mCmdScale < 0), And(t.mCmdPosition >= t.mMaxCmdPosition, cmd * t.mCmdScale > 0))
    held = Or(t.mMalfValveStuckFlag, t.mMalfDriveStuckFlag, against)
    S.ensure('power drawn', this.mPower == If(pw, If(moving, If(held, t.mStuckPower, t.mMovePower), t.mHoldPower), 0))
    S.ensure('load resistance', this.mResistance == If(pw, If(moving, If(held, t.mStuckResistance, t.mMoveResistance), t.mHoldResistance), 1000000))


def powered_valve(S):
    this = vc(S, 'TsPoweredValveController')
    S.require(And(this.mLatch >= 0, this.mLatch <= 2))
    v, en, cmd, dt = S.bool('supply'), S.bool('enable'), S.real('cmd'), S.real('dt', 0, 100)
    o = S.snap()
    S.call('TsPoweredValveController::update(bool, bool, double, double)', this, v, en, cmd, dt)
    powered_checks(S, this, o, cmd, dt, v, en)


def speed_valve(S):
    this = vc(S, 'TsSpeedValveController')
    S.require(And(this.mLatch >= 0, this.mLatch <= 2))
    dt = S.real('dt', 0, 100)
    o = S.snap()
    S.call('TsSpeedValveController::update(double)', this, dt)
    t = o(this)
    c = t.mCommand.mSpeed
    at = And(t.mEotInterrupt, Or(And(t.mSensed.mOpen, c * t.mCmdScale > 0), And(t.mSensed.mClose, c * t.mCmdScale < 0)))
    cmd = If(at, 0, c)
    S.ensure('command stops at the sensed end', this.mCmd == cmd)
    powered_checks(S, this, o, cmd, dt, t.mSupplyVoltageFlag, t.mCommand.mEnable)


def open_close_valve(S):
    this = vc(S, 'TsOpenCloseValveController')
    S.require(And(this.mLatch >= 0, this.mLatch <= 2, this.mHandleStowed >= 0, this.mHandleStowed <= 1))
    dt = S.real('dt', 0, 100)
    o = S.snap()
    S.call('TsOpenCloseValveController::update(double)', this, dt)
    t = o(this)
    m = t.mCommand
    hand = t.mHandleStowed == 1
    cmd = If(t.mEotInterrupt, If(And(m.mOpen, Not(m.mClose), Not(t.mSensed.mOpen)), 1, If(And(m.mClose, Not(m.mOpen), Not(t.mSensed.mClose)), -1, 0)),
             If(hand, If(t.mHandlePosition > FEPS, 1, -1), If(And(m.mOpen, Not(m.mClose)), 1, If(And(m.mClose, Not(m.mOpen)), -1, 0))))
    S.ensure('opens or closes as commanded until the end is sensed', this.mCmd == cmd)
    powered_checks(S, this, o, cmd, dt, t.mSupplyVoltageFlag, m.mEnable)


def position_valve(S):
    this = vc(S, 'TsPositionValveController')
    S.require(And(this.mLatch >= 0, this.mLatch <= 2, this.mTolerance >= 0, Or(this.mCmdScale > EPS, this.mCmdScale < -EPS)))
    dt = S.real('dt', 0, 100)
    S.require(Or(dt == 0, dt >= D(1e-6)))
    o = S.snap()
    S.call('TsPositionValveController::update(double)', this, dt)
    t = o(this)
    err = t.mCommand.mPosition - t.mSensed
    rate = abs_(t.mCmdScale)
    want, pw = drive(S, t, this.mCmd, dt, t.mSupplyVoltageFlag, t.mCommand.mEnable, t.mLatch)
    S.ensure('moves toward the command by at most its rate', Implies(dt > 0, this.mCmd * t.mCmdScale * dt == If(abs_(err) < t.mTolerance, 0, clamp(err, -rate * dt, rate * dt))))
    S.ensure('no motion in no time', Implies(dt == 0, this.mCmd == 0))
    powered_checks(S, this, o, this.mCmd, dt, t.mSupplyVoltageFlag, t.mCommand.mEnable)


def toggle_valve(S):
    this = vc(S, 'TsToggleValveController')
    S.require(And(this.mLatch >= 0, this.mLatch <= 2))
    m = this.mCommand
    S.set(m, 'mToggle_queue_size', 0)
    S.require(And(m.mToggleCount >= 0, m.mToggleCount < 1000000))
    S.require(this.mMidPosition * 2 == this.mMinCmdPosition + this.mMaxCmdPosition)
    dt = S.real('dt', D(0.001), 100)
    o = S.snap()
    S.call('TsToggleValveController::update', this, dt)
    t, c = o(this), o(m)
    tog = And(c.mToggle, Or(And(c.mArmed, c.mEnable), And(Not(c.mArmed), Not(c.mToggle), c.mEnable)))
    S.ensure('a toggle counts once until it is released', And(this.mCommand.mToggle == And(c.mToggle, c.mArmed, c.mEnable), this.mCommand.mToggleCount == c.mToggleCount + If(And(c.mToggle, c.mArmed, c.mEnable), 1, 0)))
    S.ensure('armed again when released', this.mCommand.mArmed == If(And(c.mArmed, c.mToggle, c.mEnable), False, If(And(Not(c.mArmed), Not(c.mToggle), c.mEnable), True, c.mArmed)))
    span = t.mMaxCmdPosition - t.mMinCmdPosition
    low = t.mCmdPosition < t.mMidPosition
    stop = And(t.mEotInterrupt, If(low, t.mSensed.mOpen, t.mSensed.mClose))
    S.ensure('toggles to the other end', this.mCmd * dt == If(And(this.mCommand.mToggle, Not(stop)), If(low, span, -span), 0))
    powered_checks(S, this, o, this.mCmd, dt, t.mSupplyVoltageFlag, c.mEnable)


def toggle_queue(S, n=3):
    """queue of toggle frames"""
    S.bounded('%d queued frames' % n)
    this = S.obj('TsToggleValveCmd', 'this')
    tq, eq = S.arr('bool', n, 'toggles'), S.arr('bool', n, 'enables')
    S.bind(this, 'mToggle_queue', tq)
    S.bind(this, 'mEnable_queue', eq)
    S.set(this, 'mToggle_queue_size', n)
    S.set(this, 'mEnable_queue_size', n)
    S.require(And(this.mToggleCount >= 0, this.mToggleCount < 1000000))
    dt = S.real('dt', 0, 100)
    o = S.snap()
    S.call('TsToggleValveCmd::update', this, dt)
    t = o(this)
    armed, cnt = t.mArmed, 0
    for i in range(n):
        hit = And(armed, tq[i], eq[i])
        rel = And(Not(armed), Not(tq[i]), eq[i])
        cnt = cnt + If(hit, 1, 0)
        armed = And(Or(armed, rel), Not(hit))
    go = dt > EPS
    S.ensure('each press counts once', Implies(go, And(this.mToggleCount == t.mToggleCount + cnt, this.mArmed == armed)))
    S.ensure('an odd number of presses toggles', Implies(go, this.mToggle == disj([cnt == k for k in range(1, n + 1, 2)])))
    S.ensure('nothing happens in no time', Implies(Not(go), And(this.mToggleCount == t.mToggleCount, this.mArmed == t.mArmed, this.mToggle == t.mToggle, this.mEnable == t.mEnable)))
    en = sum([If(eq[i], 1, 0) for i in range(1, n)], If(eq[0], 1, 0))
    S.ensure('enabled by a toggle or by half the frames', Implies(go, this.mEnable == Or(this.mToggle, en * 100 >= 49 * n)))


def t_valve(S):
    this = S.obj('TsTValveController', 'this')
    a, b = this.mAPath, this.mBPath
    for p in (a, b):
        vc(S, None, this=p)
        S.set(p, 'mMalfValveStuckFlag', False)
        S.set(p, 'mMalfValveFailToFlag', False)
        S.set(p, 'mMalfManualFlag', False)
    S.require(And(this.mPosition >= 0, this.mPosition <= 2))
    o = S.snap()
    S.call('TsTValveController::update', this, S.real('dt', 0, 100))
    w = o(this).mPosition
    S.ensure('path A is open only when selected', a.mCmdPosition == If(w == 1, a.mMaxCmdPosition, a.mMinCmdPosition))
    S.ensure('path B is open only when selected', b.mCmdPosition == If(w == 2, b.mMaxCmdPosition, b.mMinCmdPosition))
    for n, p in (('path A ', a), ('path B ', b)):
        placed(S, p, o, o(p).mCmdPosition, n)


def solenoid(S):
    this = vc(S, 'TsDualSolenoidValveController')
    S.require(And(this.mLatch >= 0, this.mLatch <= 2))
    S.require(this.mMidCmdPosition * 2 == this.mMinCmdPosition + this.mMaxCmdPosition)
    o = S.snap()
    S.call('TsDualSolenoidValveController::update', this, S.real('dt', 0, 100))
    t = o(this)
    op, cl = And(t.mOpenSolenoidCmd, Not(t.mMalfOpenSolenoidFail)), And(t.mCloseSolenoidCmd, Not(t.mMalfCloseSolenoidFail))
    lo, hi = t.mMinCmdPosition, t.mMaxCmdPosition
    S.ensure('loads follow the commands', And(Implies(op == cl, this.mOpenSolenoidLoad == this.mCloseSolenoidLoad), Implies(op != cl, this.mOpenSolenoidLoad != this.mCloseSolenoidLoad)))
    want = If(And(op, Not(cl)), hi, If(And(cl, Not(op)), lo, If(t.mLatch == 1, hi, If(t.mLatch == 2, lo, If(t.mCmdPosition >= t.mMidCmdPosition, hi, lo)))))
    placed(S, this, o, want)


# ---------------------------------------------------------------- control and motors
def pid(S):
    this = S.obj('TsPidController', 'this')
    S.require(And(this.mInterval > D(0.001), this.mLimitLow < this.mLimitHigh, this.mTimer >= 0, this.mOutput >= this.mLimitLow, this.mOutput <= this.mLimitHigh))
    dt, x = S.real('dt', 0, 100), S.real('input')
    o = S.snap()
    r = S.call('TsPidController::update(double, double)', this, dt, x)
    t = o(this)
    T = t.mTimer + dt
    go = T >= t.mInterval
    e = x - t.mSetpoint
    snapped = lambda v: If(abs_(v) < EPS, 0, v)
    i = t.mIntegral + e * T
    d = this.mDerivative
    S.ensure('output within its limits', And(this.mOutput >= t.mLimitLow, this.mOutput <= t.mLimitHigh, r == this.mOutput))
    S.ensure('acts once per interval', If(go, this.mTimer == 0, And(this.mTimer == T, this.mOutput == t.mOutput, this.mIntegral == t.mIntegral, this.mError == t.mError)))
    S.ensure('error, integral and derivative', Implies(go, And(this.mError == e, this.mIntegral == snapped(i), d * T == e - t.mError)))
    S.ensure('output law', Implies(go, this.mOutput == clamp(snapped(t.mOutput + e * t.mGainP + i * t.mGainI + d * t.mGainD), t.mLimitLow, t.mLimitHigh)))
    S.ensure('input is stored', this.mInput == x)


def motor(S):
    this = S.obj('DcDynPumpMotor', 'this')
    S.require(And(this.mWindingResistance >= EPS, this.mTorqueConstant >= EPS, this.mFrictionConstant >= 0, this.mFrictionMinSpeed >= 0, this.mInertia >= EPS, this.mVoltage >= 0, this.mMotorSpeed >= 0, this.mCurrentLimit >= 0))
    S.require(Or(Not(this.mMalfDegradeFlag), this.mMalfDegradeValue <= 1 - EPS))
    dt = S.real('dt', 0, 100)
    o = S.snap()
    S.call('DcDynPumpMotor::step', this, dt)
    t = o(this)
    k = rpm(S)
    I = this.mCurrent
    R_ = this.mDegradedResistance
    S.ensure('resistance grows with degradation', R_ * If(t.mMalfDegradeFlag, 1 - t.mMalfDegradeValue, 1) == t.mWindingResistance)
    S.ensure('current of voltage less back emf, within its limit', I * R_ == clamp(t.mVoltage - t.mTorqueConstant * t.mMotorSpeed / k, 0, t.mCurrentLimit * R_))
    S.ensure('current is never negative', I >= 0)
    S.ensure('power is current times voltage', this.mPower == I * t.mVoltage)
    S.ensure('resistance seen by the supply', this.mResistance * max_(I, EPS) == t.mVoltage)
    S.ensure('stall torque of the voltage', this.mStallTorque * R_ == t.mTorqueConstant * t.mVoltage)
    S.ensure('torque of the current', this.mDriveTorque == I * t.mTorqueConstant)
    S.ensure('sum of the loads', this.mTotalExternalLoad == t.mLoadTorques[0] + t.mLoadTorques[1] + t.mLoadTorques[2] + t.mLoadTorques[3] - If(t.mMalfJamFlag, t.mMalfJamValue * this.mStallTorque, 0))
    f = -t.mFrictionConstant * max_(t.mMotorSpeed, t.mFrictionMinSpeed)
    S.ensure('speed changes by the net torque', this.mMotorSpeed == If(t.mMalfSpeedOverrideFlag, t.mMalfSpeedOverrideValue, max_(0, t.mMotorSpeed + (this.mDriveTorque + this.mTotalExternalLoad + f) * dt * k / t.mInertia)))
    use = -this.mTotalExternalLoad * this.mMotorSpeed / k
    S.ensure('waste heat is the power not used', this.mWasteHeat == max_(0, this.mPower - use) + If(t.mMalfHeatRateBiasFlag, t.mMalfHeatRateBiasValue, 0))
    S.ensure('efficiency', Implies(this.mPower > 0, this.mEfficiency * this.mPower == use))


def rpm(S):
    return 60 / (2 * D(math.pi))


def pwm_motor(S):
    this = S.obj('TsDcPwmDynMotor', 'this')
    S.require(And(this.mPulseWasteFraction >= 0, this.mPulseWasteFraction <= 1, this.mArmatureResistance >= EPS, this.mInertia >= EPS, this.mSpeedLoadRatio >= EPS, this.mVoltage >= 0, this.mPulseWidth >= 0, this.mPulseWidth <= 1, this.mMotorSpeed >= 0, this.mFrictionTorque <= 0))
    dt = S.real('dt', 0, 100)
    o = S.snap()
    S.call('TsDcPwmDynMotor::step', this, dt)
    t = o(this)
    k = rpm(S)
    V, w = t.mVoltage, this.mMotorSpeed
    S.ensure('sum of the loads', this.mTotalExternalLoad == t.mLoadTorques[0] + t.mLoadTorques[1] + t.mLoadTorques[2] + t.mLoadTorques[3] - If(t.mMalfJamFlag, t.mMalfJamValue * this.mStallTorque, 0))
    S.ensure('speed changes by the net torque', w == If(t.mMalfSpeedOverrideFlag, t.mMalfSpeedOverrideValue, max_(0, t.mMotorSpeed + (this.mDriveTorque + this.mTotalExternalLoad + t.mFrictionTorque) * dt * k / t.mInertia)))
    st = this.mStallTorque
    S.ensure('stall torque of the voltage', st == (t.mStallTorqueCoeff1 * V + t.mStallTorqueCoeff2 * V * V) * If(t.mMalfDegradeFlag, 1 - t.mMalfDegradeValue, 1))
    S.ensure('drive torque falls with speed', this.mDriveTorque == max_(0, st - t.mMotorSpeed / t.mSpeedLoadRatio) * t.mPulseWidth)
    pw = t.mPulseWasteFraction + t.mPulseWidth * (1 - t.mPulseWasteFraction)
    S.ensure('current of the pulsed voltage less back emf', this.mCurrent * t.mArmatureResistance == max_(0, pw * (V - t.mBemfConstant * w) * If(t.mMalfDegradeFlag, 1 - t.mMalfDegradeValue, 1)))
    S.ensure('power is current times voltage', this.mPower == this.mCurrent * V)
    S.ensure('resistance seen by the supply', Implies(this.mCurrent > EPS, this.mResistance * this.mCurrent == V))
    S.ensure('generated current is the back emf beyond the draw', this.mGeneratedCurrent == max_(0, t.mBemfConstant * w / t.mArmatureResistance - this.mCurrent))
    use = -this.mTotalExternalLoad * w / k
    S.ensure('waste heat is the power not used', this.mWasteHeat == max_(0, this.mPower - use) + If(t.mMalfHeatRateBiasFlag, t.mMalfHeatRateBiasValue, 0))


def pump_motor(S):
    this = S.obj('TsPumpMotorController', 'this')
    S.require(And(this.mForcingGain >= 0, this.mForcingGain <= 1, this.mDampingGain >= 0, this.mDampingGain <= 1, this.mDampingCutoff >= 0, this.mDampingCutoff <= 1,
                  this.mTemperatureTripReset >= 0, this.mTemperatureTripLimit > this.mTemperatureTripReset, this.mMinVoltage >= 0, this.mMaxVoltage > this.mMinVoltage, this.mControllerPowerLoad >= 0, this.mNoiseFrequency >= 0, this.mVoltage >= 0))
    S.set(this, 'mNoiseAmplitude', 0)
    m = this.mMotor
    S.require(m.mInertia >= EPS)
    dt = S.real('dt', 0, 100)
    o = S.snap()
    S.call('TsPumpMotorController::step', this, dt)
    t = o(this)
    v = If(t.mMalfPowerOverrideFlag, t.mMalfPowerOverrideValue, t.mVoltage)
    ctl = And(v >= t.mMinVoltage, v <= t.mMaxVoltage, Not(t.mMalfFailPower))
    trip = And(ctl, Or(t.mSensedTemperature > t.mTemperatureTripLimit, t.mTrippedTemperature), Not(t.mSensedTemperature < t.mTemperatureTripReset))
    mot = And(ctl, t.mCommandEnable, Not(trip))
    S.ensure('controller is powered within its voltage range', this.mControllerPowerBus == ctl)
    S.ensure('temperature trip latches until reset', this.mTrippedTemperature == trip)
    S.ensure('motor is powered when enabled and not tripped', this.mMotorPowerBus == mot)
    c = If(t.mMalfCommandSpeedFlag, t.mMalfCommandSpeedValue, t.mCommandSpeed)
    run = And(mot, c > FEPS)
    S.ensure('stopped without power or command', Implies(Not(run), And(this.mPulseWidth == 0, this.mSpeedError == 0, this.mStartupState)))
    e = this.mSpeedError
    S.ensure('speed error is relative to the command', Implies(run, e * c == c - t.mSensedSpeed))
    damp = abs_(e) > t.mDampingCutoff
    S.ensure('pulse width follows the error, damped, within 0..1', Implies(run, this.mPulseWidth == clamp(t.mPulseWidth + e * t.mForcingGain + If(damp, t.mDampingGain * (e - t.mSpeedError) / max_(abs_(e), D(0.0001)), 0), 0, 1)))
    S.ensure('startup ends when the speed is reached', Implies(run, this.mStartupState == And(damp, t.mStartupState)))
    S.ensure('motor gets the pulsed voltage', m.mVoltage == this.mPulseWidth * v)
    S.ensure('current is limited during startup', m.mCurrentLimit == If(this.mStartupState, t.mStartupCurrentLimit, D(1e15)))
    cond = If(ctl, t.mControllerPowerLoad / max_(EPS, v * v), 0) + If(mot, this.mPulseWidth * this.mPulseWidth / max_(EPS, m.mResistance), 0)
    S.ensure('waste heat of controller and motor', this.mTotalWasteHeat == If(ctl, t.mControllerPowerLoad, 0) + If(mot, m.mWasteHeat, 0))
    S.ensure('load is the conductance of controller and motor', this.mTotalResistiveLoad * max_(EPS, cond) == 1)


def assembly(S, cls='OpenClose'):
    this = S.obj('Ts%sValveAssembly' % cls, 'this')
    c = vc(S, None, this=this.mController)
    S.require(And(c.mLatch >= 0, c.mLatch <= 2))
    for s in (this.mSensorOpen, this.mSensorClosed):
        S.set(s, 'mMalfPerfectSensor', True)
    if cls == 'OpenClose':
        S.require(And(c.mHandleStowed >= 0, c.mHandleStowed <= 1))
    S.call('Ts%sValveAssembly::update(double)' % cls, this, S.real('dt', 0, 100))
    so = lambda s: abs_(c.mCmdPosition - s.mTarget) <= s.mTolerance
    for n, s in (('open', this.mSensorOpen), ('closed', this.mSensorClosed)):
        near(S, abs_(c.mCmdPosition - s.mTarget), s.mTolerance)
        S.ensure('%s sensor senses the new position' % n, s.mSensedOutput == so(s))
    if cls == 'OpenClose':
        S.ensure('the controller gets what is sensed', And(c.mSensed.mOpen == this.mSensorOpen.mSensedOutput, c.mSensed.mClose == this.mSensorClosed.mSensedOutput))


def thermostat(S, n=1):
    this = S.obj('Thermostat', 'this')
    S.dyn(this, 'Thermostat')
    S.bounded('%d sensors' % n)
    S.set(this, 'mInitialized', True)
    S.set(this, 'mNumSensors', n)
    xs = S.arr('SensorAnalog', n, 'sensors')
    S.bind(this, 'mTempSensor', xs)
    for i in range(n):
        S.dyn(S.addr_at(xs, i), 'SensorAnalog')
        S.set(S.addr_at(xs, i), 'mMalfPerfectSensor', True)
        S.set(S.addr_at(xs, i), 'mUnitConversion', 0)
        S.bind(S.addr_at(xs, i), 'mNoiseFunction', None)
        S.require(And(xs[i].mMinRange < xs[i].mMaxRange, Or(xs[i].mTruthInput == 0, abs_(xs[i].mTruthInput) >= D(1e-6))))
    S.require(And(this.mLogicType >= 1, this.mLogicType <= 3))
    for f in ('mCommandNominal', 'mCommandSetpt'):
        S.require(And(getattr(this, f) >= 0, getattr(this, f) <= 1))
    S.require((this.mLogicType == SINGLE) if n == 1 else (this.mLogicType != SINGLE))
    o = S.snap()
    S.call('Thermostat::update', this, S.real('dt', 0, 100))
    t = o(this)
    bias = t.mTemperatureSetpt - t.mNominalTemperatureSetpt

    def cmd(lo, hi, last):
        on = [If(x > hi, False, If(x < lo, True, last == ON)) for x in (xs[i].mSensedOutput for i in range(n))]
        return If(t.mLogicType == AND_, And(*on), Or(*on))
    nom = cmd(t.mNominalSetptLow + bias, t.mNominalSetptHigh + bias, t.mCommandNominal)
    lo = If(t.mMalfSetptLowFlag, t.mMalfSetptLowValue, t.mNominalSetptLow + bias)
    hi = If(t.mMalfSetptHighFlag, t.mMalfSetptHighValue, t.mNominalSetptHigh + bias)
    last = If(Or(t.mMalfSetptLowFlag, t.mMalfSetptHighFlag), t.mCommandSetpt, t.mCommandNominal)
    act = cmd(lo, hi, last)
    S.ensure('sensors sense their temperatures', And(*[xs[i].mSensedOutput == max_(min_(o(xs)[i].mTruthInput, xs[i].mMaxRange), xs[i].mMinRange) for i in range(n)]))
    S.ensure('set points move with the commanded set point, unless failed to a value', And(this.mSetptLow == lo, this.mSetptHigh == hi, this.mCommandSetptBias == bias))
    S.ensure('on below, off above and as before between the nominal set points', (this.mCommandNominal == ON) == nom)
    S.ensure('on below, off above and as before between the set points in force', (this.mCommandSetpt == ON) == act)
    S.ensure('failed off over failed on over the kill switch over the set points', (this.mCommandActual == ON) == And(Not(t.mMalfCmdOffFlag), Or(t.mMalfCmdOnFlag, And(Not(t.mIsKillSwitchEngaged), act))))
    S.ensure('commands are on or off', And(*[Or(getattr(this, f) == 0, getattr(this, f) == 1) for f in ('mCommandNominal', 'mCommandSetpt', 'mCommandActual')]))


def setpoint(S, bias=False):
    this = S.obj('Thermostat', 'this')
    v = S.real('value', -1e4, 1e4)
    o = S.snap()
    S.call('Thermostat::setCommandSetptBias' if bias else 'Thermostat::setTemperatureSetpt', this, v)
    S.ensure('the set point commanded', this.mTemperatureSetpt == (o(this).mNominalTemperatureSetpt + v if bias else v))


HARNESSES = [('thermostat %d' % n, thermostat, {'n': n}) for n in (1, 2, 3)] + [('thermostat set point', setpoint), ('thermostat set point bias', setpoint, {'bias': True})]
HARNESSES += [('analog', analog), ('analog noise', analog, {'noise': True}), ('analog sense', analog_sense), ('boolean', boolean), ('boolean analog', boolean, {'ai': True}), ('valve position sensors', open_close), ('fan speed', fan_speed),
             ('smoke', smoke), ('limit switch', limit_switch), ('limit switch analog', limit_switch, {'analog': True}), ('sensor wrapper', wrapper),
             ('valve', valve), ('powered valve', powered_valve), ('speed valve', speed_valve), ('open close valve', open_close_valve), ('position valve', position_valve), ('toggle valve', toggle_valve), ('toggle queue', toggle_queue), ('T valve', t_valve),
             ('solenoid valve', solenoid), ('pid', pid), ('motor', motor), ('pwm motor', pwm_motor), ('pump motor', pump_motor), ('open close assembly', assembly), ('solenoid assembly', assembly, {'cls': 'DualSolenoid'}), ('sensor range', validate), ('sensor tolerance', validate_ai)]
