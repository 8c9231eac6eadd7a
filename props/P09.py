"""Fluid links: conductance, flow law, transport between nodes."""
from gcv.api import *
from gcv.lib import *
ID = 'P09'
SOURCES = ['ms-utils/math/UnitConversion.cpp', 'core/GunnsBasicLink.cpp', 'core/GunnsBasicNode.cpp', 'core/GunnsFluidNode.cpp', 'core/GunnsFluidLink.cpp', 'core/GunnsFluidConductor.cpp', 'core/GunnsFluidPotential.cpp', 'core/GunnsFluidSource.cpp', 'core/GunnsFluidCapacitor.cpp',
           'core/GunnsFluidFlowController.cpp', 'core/GunnsFluidExternalDemand.cpp', 'core/GunnsFluidExternalSupply.cpp', 'core/GunnsFluidUtils.cpp', 'aspects/fluid/fluid/PolyFluid.cpp', 'aspects/fluid/fluid/MonoFluid.cpp', 'ms-utils/properties/FluidProperties.cpp',
           'ms-utils/math/approximation/TsApproximation.cpp', 'ms-utils/math/approximation/LinearFit.cpp', 'aspects/fluid/fluid/GunnsFluidTraceCompounds.cpp', 'aspects/fluid/conductor/GunnsFluidPipe.cpp', 'aspects/fluid/hi-fi/GunnsFluidHiFiOrifice.cpp', 'aspects/fluid/hi-fi/GunnsFluidHiFiValve.cpp', 'aspects/fluid/source/GunnsGasDisplacementPump.cpp']
META = dict(
    title='Fluid links move fluid and heat between nodes by their flow law, losing none',
    statement='A fluid conductor conducts the molar flow its conductivity (less blockage) gives over the pressure drop, the same in both directions, within 0 and the conductance limit, symmetrically stamped and announced to the solver; an orifice passes choked, subsonic or incompressible flow by its throat, flow regime and open area; a conductivity or expansion factor tuned for a flow or temperature drop is a valid number that gives that flow. Flux, flow rate, volume flow, power and port directions of conductors, pressure sources, flow sources, flow controllers and capacitors follow from the solved potentials and the fluid of the node the flow leaves. What a link takes out of one node, mass and enthalpy, it puts into the other and into no other node; a flow controller never conducts more than its maximum and not backwards unless enabled, a wall gains exactly the heat the fluid loses, and the fluid never passes the wall temperature.',
    over=['inputs', 'histories'],
    quant='every link state, fluid state (pressure, density, molecular weight, phase), node map including the vacuum node on either side, flow direction, malfunction, tuning mode, user setting and number of nodes',
    why='unit tests run each link on two fixed nodes with a few flows; both directions, the vacuum on either side, blockage, vanishing pressure drops and tuning at equal pressures have to be right in every state of the network',
    files=['core/GunnsFluidConductor.cpp', 'core/GunnsFluidLink.cpp', 'core/GunnsFluidSource.cpp', 'core/GunnsFluidPotential.cpp', 'core/GunnsFluidCapacitor.cpp', 'core/GunnsFluidFlowController.cpp', 'core/GunnsFluidUtils.cpp'],
    mech=[('flow law', 'core/GunnsFluidUtils.cpp GunnsFluidUtils::computeAdmittance, predictConductivity, predictExpansionScaleFactor'),
          ('step and flux', 'core/GunnsFluidConductor.cpp GunnsFluidConductor::step, computeFlows, transportFlows'),
          ('transport', 'core/GunnsFluidLink.cpp GunnsFluidLink::transportFluid'), ('orifices', 'aspects/fluid/hi-fi/GunnsFluidHiFiOrifice.cpp step, computeConductance, computeGasConductivity, computeLiquidConductivity, computeFlows, transportFlows; GunnsFluidHiFiValve::getEffectiveArea'), ('heat exchange', 'core/GunnsFluidUtils.cpp GunnsFluidUtils::computeConvectiveHeatFlux')],
    note='unbounded except: 1 fluid constituent and 3 nodes in the transport harnesses (mixing by contract of collectInflux, P07) and 2 constituents in the capacitance harness. Real arithmetic stands for floating point; sqrt, pow and exp by their axioms; fluid correlations uninterpreted; adiabatic index of a gas assumed above one (1.01 to 5 in the throat of an orifice); the sizing of a new leak of a hi-fi valve is not covered. Callee contracts assumed: PolyFluid::setState, setTemperature, GunnsFluidNode::collectInflux, setVolume (the mixing contracts are those of P07).')
EPS = 2.220446049250313e-16
COND = 1e15
HIFI = 'GunnsFluidHiFiOrifice'


def mk(S, cls, ports=2, **kw):
    k = link(S, cls, ports, ncls='GunnsFluidNode', **kw)
    S.set(k.this, 'mUserPortSetControl', 0)
    a = k.am
    P = ports
    S.require(conj([a[1] == -a[0], a[P] == -a[0], a[P + 1] == a[0]] + [a[i] == 0 for i in range(P * P) if i not in (0, 1, P, P + 1)]))
    k.n0, k.n1 = k.nodes[k.nm[0]], k.nodes[k.nm[1]]
    if cls not in ('GunnsFluidCapacitor',) + SRC:
        S.require(k.this.mMinLinearizationPotential >= 0)
    return k


def fluid_ok(S, *fs):
    for f in fs:
        S.require(And(f.mDensity >= 0, f.mMWeight >= 0, f.mPressure >= 0))


def mol_weight(f0, f1):
    a, b = f0.mMWeight, f1.mMWeight
    return If(a < D(EPS), b, If(b < D(EPS), a, (a + b) / 2))


def drop_lin(this, f0, f1):
    return max_(this.mMinLinearizationPotential, abs_(f0.mPressure - f1.mPressure))


def admittance(S, eff, minp, f0, f1, e=None):
    """mass flow by the Bernoulli-like law over the pressure drop, per mole"""
    rho = (f0.mDensity + f1.mDensity) / 2
    mw = mol_weight(f0, f1)
    dp = max_(minp, abs_(f0.mPressure - f1.mPressure))
    x = rho * (1000 * dp)
    ok = And(dp > D(EPS), mw > D(EPS))
    root = S.sqrt(If(ok, x, 1))
    if e is None:
        f = root
    else:
        c = clamp(e, D(0.5), 1)
        f = If(c == D(0.5), root, If(c == 1, x, S.pow(If(ok, x, 1), c)))
    return If(ok, eff * f / If(ok, dp, 1) / If(ok, mw, 1), 0)


def blocked(t, eff):
    return If(t.mMalfBlockageFlag, eff * (1 - t.mMalfBlockageValue), eff)


def stamp(S, k, o, g, P=2):
    a = k.am
    S.ensure('symmetric stamp of the limited conductance between the two flow ports, nothing elsewhere', conj([a[0] == g, a[1] == -g, a[P] == -g, a[P + 1] == g] + [a[i] == 0 for i in range(P * P) if i not in (0, 1, P, P + 1)]))
    S.ensure('the solver is told when the matrix changed', k.this.mAdmittanceUpdate == Or(o(k.this).mAdmittanceUpdate, o(k.am)[0] != g))


def vec_kept(S, k, o, what='the potentials are left to the solver', v='pv', P=2):
    S.ensure(what, conj([getattr(k, v)[i] == o(getattr(k, v))[i] for i in range(P)]))


def step(S, cls):
    k = mk(S, cls)
    S.set(k.this, 'mTuneMode', 0)
    f0, f1 = k.n0.mOutflow, k.n1.mOutflow
    fluid_ok(S, f0, f1)
    t0 = k.this
    dt = S.real('dt', 0, 100)
    o = S.snap()
    S.call({'GunnsFluidPotential': 'GunnsFluidPotential::step'}.get(cls, 'GunnsFluidConductor::step'), k.this, dt)
    t = o(k.this)
    eff = blocked(t, t.mMaxConductivity)
    g = clamp(admittance(S, eff, t.mMinLinearizationPotential, o(f0), o(f1), t.mPressureExponent), 0, D(COND))
    S.ensure('effective conductivity is the maximum less any blockage', k.this.mEffectiveConductivity == eff)
    stamp(S, k, o, g)
    S.ensure('conductance in its range', And(k.am[0] >= 0, k.am[0] <= D(COND)))
    S.ensure('a fully blocked link conducts nothing', Implies(And(t.mMalfBlockageFlag, t.mMalfBlockageValue == 1), k.am[0] == 0))
    vec_kept(S, k, o)
    S.ensure('configuration kept', And(k.this.mMaxConductivity == t.mMaxConductivity, k.this.mExpansionScaleFactor == t.mExpansionScaleFactor, k.this.mPressureExponent == t.mPressureExponent))
    if cls == 'GunnsFluidPotential':
        S.ensure('the pressure source drives the conductance', And(k.sv[0] == -t.mSourcePressure * k.am[0], k.sv[1] == -k.sv[0]))
    else:
        vec_kept(S, k, o, 'no source contribution', 'sv')


def symmetric(S):
    """the conductance does not depend on which way the link is connected"""
    a, b = S.obj('PolyFluid', 'f0'), S.obj('PolyFluid', 'f1')
    fluid_ok(S, a, b)
    c, m, e = S.real('conductivity', 0, 1e9), S.real('minLinearizationP', 0, 1e6), S.real('exponent')
    r = S.call('GunnsFluidUtils::computeAdmittance', c, m, a, b, e)
    r2 = S.call('GunnsFluidUtils::computeAdmittance', c, m, b, a, e)
    S.ensure('same conductance in both directions', r == r2)
    S.ensure('flow law', r == admittance(S, c, m, a, b, e))


def predict(S, case):
    """the conductivity predicted for a flow gives that flow"""
    a, b = S.obj('PolyFluid', 'f0'), S.obj('PolyFluid', 'f1')
    fluid_ok(S, a, b)
    w, m = S.real('flow'), S.real('minLinearizationP', 0, 1e6)
    e = D(0.5) if case == 'root' else R(1) if case == 'linear' else S.real('exponent')
    if case == 'power':
        S.require(And(e > D(0.5), e < 1))
    c = S.call('GunnsFluidUtils::predictConductivity', w, m, a, b, e)
    S.ensure('predicted conductivity is not negative', c >= 0)
    dp = abs_(a.mPressure - b.mPressure)
    S.ensure('no prediction without a pressure difference or fluid', Implies(Or(dp <= D(EPS), a.mDensity + b.mDensity <= 2 * D(EPS)), c == 0))
    r = S.call('GunnsFluidUtils::computeAdmittance', c, m, a, b, e)
    if case == 'power':
        return
    S.ensure('the link then has the predicted flow', Implies(And(dp > D(EPS), a.mDensity + b.mDensity > 2 * D(EPS), dp >= m, mol_weight(a, b) > D(EPS)), r * dp * mol_weight(a, b) == abs_(w)))


def tune(S, mode):
    k = mk(S, 'GunnsFluidConductor')
    S.set(k.this, 'mTuneMode', mode)
    f0, f1 = k.n0.mOutflow, k.n1.mOutflow
    fluid_ok(S, f0, f1)
    S.require(conj([And(f.mTemperature > 0, f.mAdiabaticIndex > 1) for f in (f0, f1)]))
    cond = S.use('GunnsFluidUtils::predictConductivity', lambda K, w, m, a, b, e: uf5(w, m, a.mDensity, b.mDensity, e)) if S.mode == 'sym' else None
    dt = S.real('dt', 0, 100)
    t = k.this
    if mode != 4:
        w = t.mTuneMassFlow if mode == 1 else t.mTuneVolFlow * If(t.mTuneVolFlow >= 0, f0.mDensity, f1.mDensity) if mode == 2 else t.mTuneVolFlow * D(1.2041)
        if S.mode == 'sym':
            pred = uf5(w, t.mMinLinearizationPotential, f0.mDensity, f1.mDensity, t.mPressureExponent)
        else:
            pred = S.call('GunnsFluidUtils::predictConductivity', w, t.mMinLinearizationPotential, f0, f1, t.mPressureExponent)
    o = S.snap()
    S.call('GunnsFluidConductor::step', k.this, dt)
    t = o(k.this)
    S.ensure('tuning is done once', k.this.mTuneMode == 0)
    if mode == 4:
        S.ensure('expansion scale factor in its range', And(k.this.mExpansionScaleFactor >= 0, k.this.mExpansionScaleFactor <= 1))
        S.ensure('conductivity kept', k.this.mMaxConductivity == t.mMaxConductivity)
        return
    S.ensure('tuning removes a blockage', Not(k.this.mMalfBlockageFlag))
    S.ensure('tuned conductivity is in effect', k.this.mEffectiveConductivity == k.this.mMaxConductivity)
    S.ensure('conductivity is the one predicted for the flow', k.this.mMaxConductivity == pred)


def uf5(*a):
    from gcv.exec import uf, RS
    return uf('predictConductivity', *([RS] * (len(a) + 1)))(*[R(x) for x in a])


def sched(S, k, o, f, forced=False):
    d = lambda n: n.mScheduledOutflux - o(n).mScheduledOutflux
    E = D(EPS)
    if forced:
        S.ensure('an outflow that is removed as negative inflow is not removed by schedule as well', And(d(k.n0) == 0, d(k.n1) == 0))
    else:
        S.ensure('the outflow is scheduled at the node it leaves', And(d(k.n0) == If(f > E, f, 0), d(k.n1) == If(f < -E, -f, 0)))
    S.ensure('no other node is touched', S.forall(0, k.N + 1, lambda i: Or(i == k.nm[0], i == k.nm[1], d(k.nodes[i]) == 0)))
    pd = k.pd
    S.ensure('port directions follow the flux', And(pd[0] == If(f > E, 1, If(f < -E, 2, 0)), pd[1] == If(f > E, 2, If(f < -E, 1, 0))))


SRC = ('GunnsFluidSource', 'GunnsFluidExternalSupply', 'GunnsGasDisplacementPump')


def flows(S, cls, inner=False):
    k = mk(S, cls)
    S.require(k.nm[0] != k.nm[1])
    if cls in SRC:
        S.bind(k.this, 'mInternalFluid', S.obj('PolyFluid', 'internalFluid') if inner else None)
    o = S.snap()
    S.call({'GunnsFluidSource': 'GunnsFluidSource::computeFlows', 'GunnsFluidExternalSupply': 'GunnsFluidSource::computeFlows', 'GunnsGasDisplacementPump': 'GunnsFluidSource::computeFlows', 'GunnsFluidCapacitor': 'GunnsFluidCapacitor::computeFlows', HIFI: HIFI + '::computeFlows'}.get(cls, 'GunnsFluidConductor::computeFlows'), k.this, S.real('dt', 0, 100))
    drop = k.pv[0] - k.pv[1]
    t = o(k.this)
    S.ensure('potential drop', k.this.mPotentialDrop == drop)
    vec_kept(S, k, o)
    if cls in ('GunnsFluidPotential', 'GunnsFluidExternalDemand', 'GunnsFluidCapacitor'):
        f = drop * k.am[0] - k.sv[0]
    elif cls in SRC:
        f = t.mFlux
    else:
        f = If(abs_(drop) < max_(k.pv[0], k.pv[1]) * (100 * D(EPS)), 0, drop * k.am[0])
    S.ensure('flux by the component law', k.this.mFlux == f)
    if cls == 'GunnsFluidCapacitor':
        S.ensure('a capacitor moves nothing between ports', And(k.pd[0] == 0, k.pd[1] == 0, k.n0.mScheduledOutflux == o(k.n0).mScheduledOutflux))
    else:
        sched(S, k, o, f, cls == 'GunnsFluidSource' and inner)


def source_step(S):
    k = mk(S, 'GunnsFluidSource')
    inner = S.choice('internal', [0, 1])
    fl = S.obj('PolyFluid', 'internalFluid')
    S.bind_if(k.this, 'mInternalFluid', inner == 1, fl, None)
    fluid_ok(S, fl, k.n0.mOutflow, k.n1.mOutflow)
    o = S.snap()
    S.call('GunnsFluidSource::step', k.this, S.real('dt', 0, 100))
    t = o(k.this)
    w = If(t.mMalfBlockageFlag, t.mFlowDemand * (1 - t.mMalfBlockageValue), t.mFlowDemand)
    # the fluid comes from the node the flow leaves, unless that is the vacuum
    src1 = Or(And(w < 0, k.nm[1] != k.N), And(w > 0, k.nm[0] == k.N))
    mw = If(inner == 1, o(fl).mMWeight, If(src1, o(k.n1).mOutflow.mMWeight, o(k.n0).mOutflow.mMWeight))
    S.ensure('molar flux carries the demanded mass flow, less blockage', If(mw > D(EPS), k.this.mFlux * mw == w, k.this.mFlux == 0))
    S.ensure('what is drawn from port 0 is pushed into port 1', And(k.sv[0] == -k.this.mFlux, k.sv[1] == k.this.mFlux))
    S.ensure('a source has no conductance', And(k.am[0] == o(k.am)[0], k.this.mAdmittanceUpdate == t.mAdmittanceUpdate))
    S.ensure('demand kept', k.this.mFlowDemand == t.mFlowDemand)


def cap_step(S):
    k = mk(S, 'GunnsFluidCapacitor')
    S.set(k.this, 'mEditVolumeFlag', False)
    S.require(k.am[1] == 0)
    dt = S.real('dt', 0, 100)
    S.require(And(k.this.mExpansionScaleFactor >= 0, k.this.mExpansionScaleFactor <= 1, k.n0.mVolume >= 0))
    S.require(k.nm[0] != k.N)
    if S.mode == 'con':
        raise Reject()
    if S.mode == 'sym':
        S.use('GunnsFluidUtils::computeCapacitance', lambda K, f, v: nonneg(K, 'capacitance'))
        S.use('GunnsFluidNode::setVolume', lambda K, this, v: set_volume(K, this, v))
        S.use('GunnsFluidNode::computePressureCorrection', lambda K, this: K.fresh_real('correction'))
        S.use('GunnsFluidNode::computeCompression', lambda K, this: K.fresh_real('compression'))
        S.use('GunnsFluidNode::computeThermalCapacitance', lambda K, this: K.fresh_real('thermal'))
    o = S.snap()
    S.call('GunnsFluidCapacitor::step', k.this, dt)
    t = o(k.this)
    g = k.this.mCapacitance / max_(dt, D(EPS))
    S.ensure('capacitance over time step on the diagonal of port 0 only', And(k.am[0] == g, k.am[1] == 0, k.am[2] == 0, k.am[3] == 0))
    S.ensure('the solver is told when the matrix changed', k.this.mAdmittanceUpdate == Or(t.mAdmittanceUpdate, o(k.am)[0] != g))
    S.ensure('the node gets the expansion factor of the link', k.n0.mExpansionScaleFactor == t.mExpansionScaleFactor)
    S.ensure('no source at port 1', k.sv[1] == 0)


def set_volume(K, this, v):
    K.require('volume not negative', v >= 0)
    K.assign(this, 'mVolume', v)


def nonneg(K, nm):
    v = K.fresh_real(nm)
    K.assume(v >= 0)
    return v


def capacitance(S):
    """capacitance is moles per pressure"""
    F = Fluids(S, 2, phase=0)
    f = F.fluid('fluid')
    S.require(And(f.mMWeight >= D(0.5), f.mMWeight <= 500, f.mPressure >= 0))
    v = S.real('volume', 0, 1e9)
    r = S.call('GunnsFluidUtils::computeCapacitance', f, v)
    p = max_(f.mPressure, D(1.1920928955078125e-07))
    rho = lambda q: sum([If(abs_(f.mConstituents[i].mMoleFraction) > D(EPS), F.get('Density', i, f.mTemperature, q * f.mConstituents[i].mMoleFraction), 0) for i in (0, 1)], R(0))
    lo, hi = p * D(0.999), p * D(1.001)
    S.ensure('moles that fit per pressure rise, never negative', r == max_(0, (rho(hi) - rho(lo)) * v / (f.mMWeight * (hi - lo))))


def set_state(K, this, src):
    for x in ['mTemperature', 'mPressure', 'mFlowRate', 'mMWeight', 'mSpecificEnthalpy', 'mDensity', 'mAdiabaticIndex']:
        K.assign(this, x, getattr(src, x))


def set_temperature(K, this, T):
    K.assign(this, 'mTemperature', T)
    K.assign(this, 'mSpecificEnthalpy', this.mSpecificHeat * T)


def isen(a, b, c, d, e):
    from gcv.exec import uf, RS
    return uf('isentropic', *([RS] * 6))(*[R(x) for x in (a, b, c, d, e)])


def collect(K, this, w, fl):
    K.assign(this, 'mInfluxRate', this.mInfluxRate + w)
    K.assign(this, 'mInflowHeatFlux', this.mInflowHeatFlux + w * fl.mSpecificEnthalpy)


CASES = [(0, 1), (1, 0), (0, 2), (2, 0)]
PSV = ('GunnsFluidReliefValve', 'GunnsFluidRegulatorValve')


def transport(S, cls, case, inner):
    """what leaves one node enters the other, with the heat of the fluid that moved"""
    a, b = case
    S.bounded('1 fluid constituent where flows are mixed into nodes (the mixing itself is the contract of collectInflux)')
    F = Fluids(S, 1, phase=0)
    nodes = S.arr('GunnsFluidNode', 3, 'nodes')
    S.dyn(nodes[0], 'GunnsFluidNode')
    for i in range(3):
        nd = S.addr_at(nodes, i)
        S.set(nd, 'mNumFluidTypes', 1)
        for x in ('mContent', 'mInflow', 'mOutflow'):
            F.fluid('n%d.%s' % (i, x), obj=S.addr(nd, x))
    nl = S.obj('GunnsNodeList', 'nodeList')
    S.set(nl, 'mNumNodes', 3)
    S.bind(nl, 'mNodes', nodes)
    psv = cls in PSV
    k = link(S, cls, 4 if psv else 2, ncls='GunnsFluidNode', nodes=nodes, nn=(2, nl))
    for i, v in enumerate(((a, b, b, a) if psv else (a, b))):
        S.write(k.nm, i, v)
        S.bind(k.np, i, S.addr_at(nodes, v))
    fl = None
    if inner:
        fl = F.fluid('internal')
        S.bind(k.this, 'mInternalFluid', fl)
    else:
        S.bind(k.this, 'mInternalFluid', None)
    if S.mode == 'sym':
        S.use('GunnsFluidNode::collectInflux', collect)
        S.use('PolyFluid::setState', set_state)
        S.use('PolyFluid::setTemperature', set_temperature)
        S.use('GunnsFluidUtils::computeIsentropicTemperature', lambda K, s, p1, p2, f: isen(s, p1, p2, f.mTemperature, f.mAdiabaticIndex))
    n0, n1 = nodes[a], nodes[b]
    for n in (n0, n1):
        S.require(And(n.mOutflow.mDensity >= 0, n.mOutflow.mMWeight >= 0))
    o = S.snap()
    c = 'GunnsFluidPressureSensitiveValve' if psv else 'GunnsFluidSource' if cls in SRC else cls if cls == HIFI else 'GunnsFluidConductor'
    if cls == 'GunnsGasDisplacementPump' or (psv and inner):
        if S.mode == 'con':
            raise Reject()
        S.use('GunnsFluidUtils::computeConvectiveHeatFlux(PolyFluid*, double, double, double, double, double)', lambda K, f, w, rd, d, a, tw: (K.assign(f, 'mSpecificEnthalpy', K.fresh_real('h')), K.fresh_real('wall'))[-1])
    S.call(c + '::transportFlows', k.this, S.real('dt', 0, 100))
    t, this = o(k.this), k.this
    q = t.mFlux
    # the source of the fluid: the node the flow leaves, or the other when that is the vacuum
    src = If(Or(And(q < 0, b != 2), And(q > 0, a == 2)), 1, 0)
    so = lambda f: If(src == 1, getattr(o(n1).mOutflow, f), getattr(o(n0).mOutflow, f))
    forced = cls == 'GunnsFluidSource' and inner
    S.ensure('mass flow is the molar flux of the fluid that flows', this.mFlowRate == q * (o(fl).mMWeight if forced else so('mMWeight')))
    S.ensure('volume flow is mass flow over density', If(so('mDensity') > D(EPS), this.mVolFlowRate * so('mDensity') == this.mFlowRate, this.mVolFlowRate == 0))
    S.ensure('power is gained by flow up the pressure', this.mPower == -1000 * this.mVolFlowRate * (k.pv[0] - k.pv[1]))
    w = this.mFlowRate
    lim = D(100 * EPS)
    d = lambda n, f: getattr(n, f) - getattr(o(n), f)
    S.ensure('what leaves node 0 enters node 1', d(n1, 'mInfluxRate') - d(n1, 'mOutfluxRate') == If(abs_(w) > lim, w, 0))
    S.ensure('what enters node 1 leaves node 0', d(n0, 'mInfluxRate') - d(n0, 'mOutfluxRate') == If(abs_(w) > lim, -w, 0))
    if not forced:
        S.ensure('outflow and inflow are collected separately', And(d(n0, 'mOutfluxRate') == If(w > lim, w, 0), d(n1, 'mOutfluxRate') == If(w < -lim, -w, 0), d(n1, 'mInfluxRate') == If(w > lim, w, 0), d(n0, 'mInfluxRate') == If(w < -lim, -w, 0)))
    if S.mode == 'sym':
        if inner:
            h = fl.mSpecificEnthalpy
            if cls not in SRC:
                e = lambda p1, p2, n: isen(t.mExpansionScaleFactor, p1, p2, o(n).mOutflow.mTemperature, o(n).mOutflow.mAdiabaticIndex)
                S.ensure('the fluid in the link is that of its source, expanded to the pressure it flows to', And(
                    Implies(And(w > lim, a != 2), fl.mTemperature == e(k.pv[0], k.pv[1], n0)), Implies(And(w < -lim, b != 2), fl.mTemperature == e(k.pv[1], k.pv[0], n1))))
        else:
            h = so('mSpecificEnthalpy')
        if forced:
            S.ensure('heat moves with the internal fluid', And(d(n1, 'mInflowHeatFlux') == If(abs_(w) > lim, w * h, 0), d(n0, 'mInflowHeatFlux') == If(abs_(w) > lim, -w * h, 0)))
        else:
            S.ensure('heat enters with the fluid that moved', And(d(n1, 'mInflowHeatFlux') == If(w > lim, w * h, 0), d(n0, 'mInflowHeatFlux') == If(w < -lim, -w * h, 0)))
    S.ensure('no other node is touched', conj([And(d(nodes[i], 'mInfluxRate') == 0, d(nodes[i], 'mOutfluxRate') == 0, d(nodes[i], 'mInflowHeatFlux') == 0) for i in range(3) if i not in case]))


def cap_transport(S):
    k = mk(S, 'GunnsFluidCapacitor')
    S.bind(k.this, 'mInternalFluid', None)
    o = S.snap()
    S.call('GunnsFluidCapacitor::transportFlows', k.this, S.real('dt', 0, 100))
    S.ensure('a capacitor moves no fluid and adds no heat', And(k.this.mFlowRate == 0, S.forall(0, k.N + 1, lambda i: And(k.nodes[i].mInfluxRate == o(k.nodes[i]).mInfluxRate, k.nodes[i].mOutfluxRate == o(k.nodes[i]).mOutfluxRate,
                                                                                                                       k.nodes[i].mInflowHeatFlux == o(k.nodes[i]).mInflowHeatFlux))))


def flow_controller(S):
    k = mk(S, 'GunnsFluidFlowController')
    S.set(k.this, 'mTuneMode', 0)
    f0, f1 = k.n0.mContent, k.n1.mContent
    fluid_ok(S, f0, f1, k.n0.mOutflow, k.n1.mOutflow)
    if S.mode == 'sym':
        S.use('GunnsFluidUtils::predictConductivity', lambda K, w, m, a, b, e: uf5(w, m, a.mDensity, b.mDensity, a.mPressure - b.mPressure))
    S.require(And(k.this.mLastConductivity >= 0, k.this.mMaxConductivity >= 0))
    cmd = If(k.this.mMalfFlowRateFlag, k.this.mMalfFlowRateValue, k.this.mFlowRateCommand)
    if S.mode == 'con':
        pred = S.call('GunnsFluidUtils::predictConductivity', cmd, k.this.mMinLinearizationPotential, f0, f1, D(0.5))
    else:
        pred = uf5(cmd, k.this.mMinLinearizationPotential, f0.mDensity, f1.mDensity, f0.mPressure - f1.mPressure)
    o = S.snap()
    S.call('GunnsFluidFlowController::updateState', k.this, S.real('dt', 0, 100))
    t, this = o(k.this), k.this
    S.ensure('conductivity is remembered for the filter', this.mLastConductivity == this.mEffectiveConductivity)
    S.ensure('tiny conductivities are zero', Or(this.mEffectiveConductivity == 0, this.mEffectiveConductivity >= D(EPS)))
    want = If(And(k.pv[1] > k.pv[0], Not(t.mEnableReverseControl)), 0, min_(t.mMaxConductivity, pred))
    x = t.mLastConductivity + clamp(t.mFilterProportionalGain, 0, 1) * (want - t.mLastConductivity)
    S.ensure('filtered conductivity for the commanded flow', this.mEffectiveConductivity == If(x < D(EPS), 0, x))
    S.ensure('never more than the link can conduct', Implies(t.mLastConductivity <= t.mMaxConductivity, this.mEffectiveConductivity <= t.mMaxConductivity))
    S.ensure('a controller without lag never conducts more than the link can', Implies(t.mFilterProportionalGain >= 1, this.mEffectiveConductivity <= t.mMaxConductivity))
    S.ensure('no reverse flow unless enabled', Implies(And(Not(t.mEnableReverseControl), k.pv[1] > k.pv[0], t.mFilterProportionalGain >= 1), this.mEffectiveConductivity == 0))


def convective(S):
    """heat exchange with a wall"""
    f = S.obj('PolyFluid', 'fluid')
    if S.mode == 'sym':
        S.use('PolyFluid::setTemperature', lambda K, this, T: (K.assign(this, 'mTemperature', T), K.assign(this, 'mSpecificEnthalpy', H(T)), None)[-1])
    else:
        raise Reject()
    w, ua, tw = S.real('flowRate'), S.real('UA'), S.real('wallTemperature', 0, 5000)
    S.require(And(f.mSpecificHeat > 0, f.mTemperature >= 0, f.mTemperature <= 5000, f.mSpecificEnthalpy == H(f.mTemperature)))
    o = S.snap()
    r = S.call('GunnsFluidUtils::computeConvectiveHeatFlux(PolyFluid*, double, double, double)', f, w, ua, tw)
    m = abs_(w)
    on = And(m > D(EPS), ua > D(EPS))
    S.ensure('no exchange without flow or conductance', Implies(Not(on), And(r == 0, f.mTemperature == o(f).mTemperature)))
    S.ensure('the wall gains what the fluid loses', Implies(on, r == m * (H(o(f).mTemperature) - H(f.mTemperature))))
    lo, hi = min_(tw, o(f).mTemperature), max_(tw, o(f).mTemperature)
    S.ensure('the fluid leaves between its own and the wall temperature', And(f.mTemperature >= lo, f.mTemperature <= hi))


def orifice(S, valve=False):
    """conductance of an orifice or a valve: conductivity of its throat over the open area, per mole"""
    cls = 'GunnsFluidHiFiValve' if valve else HIFI
    k = mk(S, cls)
    this, f0, f1 = k.this, k.n0.mOutflow, k.n1.mOutflow
    if S.mode == 'con':
        raise Reject()
    S.require(k.nm[0] != k.nm[1])
    S.require(And(this.mThroatArea > 0, this.mThroatDiameter > 0, this.mCdDefault > 0, this.mReCritical >= 0, this.mFlowTuningFactor >= 0, this.mMalfBlockageValue >= 0, this.mMalfBlockageValue <= 1))
    for f in (f0, f1):
        S.require(And(f.mDensity > 0, f.mMWeight >= 0))
    if valve:
        S.require(And(this.mPosition >= 0, this.mPosition <= 1, this.mMalfLeakThruValue >= 0, this.mLeakArea >= 0))
        S.require(Or(Not(this.mMalfLeakThruFlag), this.mLastLeakRate == this.mMalfLeakThruValue))
    from gcv.exec import uf, RS
    fn3 = lambda n: lambda a, b, c: uf(n, RS, RS, RS, RS)(R(a), R(b), R(c))
    re, cnd = fn3('Reynolds'), fn3('conductance')
    S.use('GunnsFluidUtils::computeReynoldsNumber', lambda K, f, v, d: If(re(f.mDensity, v, d) > 0, re(f.mDensity, v, d), 0))
    S.use(HIFI + '::computeConductance', lambda K, this, a, b: K.assign(this, 'mSystemConductance', cnd(a.mDensity, b.mDensity, this.mCdActual)))
    o = S.snap()
    S.call(HIFI + '::step', this, S.real('dt', 0, 100))
    t = o(this)
    G = k.N
    rev = Or(k.nm[0] == G, k.pv[1] > k.pv[0])
    none = And(rev, k.nm[1] == G)
    pick = lambda n: (If(rev, getattr(f1, n), getattr(f0, n)), If(rev, getattr(f0, n), getattr(f1, n)))
    rho = pick('mDensity')
    v = abs_(t.mFlowRate) / rho[0] / t.mThroatArea
    r = re(rho[0], v, t.mThroatDiameter)
    r = If(r > 0, r, 0)
    cd = t.mCdDefault * S.sqrt(min_(t.mReCritical, r) / max_(t.mReCritical, D(EPS)))
    cd = If(cd < D(EPS), t.mCdDefault, cd)
    S.ensure('discharge coefficient of the flow regime', Implies(Not(none), this.mCdActual == cd))
    S.ensure('conductance from the upstream to the downstream fluid', Implies(Not(none), this.mSystemConductance == cnd(rho[0], rho[1], this.mCdActual)))
    if valve:
        S.ensure('leak area kept while the leak is the same, none without it', Implies(Not(none), this.mLeakArea == If(t.mMalfLeakThruFlag, t.mLeakArea, 0)))
    stamp(S, k, o, If(none, o(k.am)[0], this.mSystemConductance))
    vec_kept(S, k, o)
    vec_kept(S, k, o, 'no source contribution', 'sv')


def conductance(S, valve=False):
    """conductivity of the throat times the open area, per mole"""
    cls = 'GunnsFluidHiFiValve' if valve else HIFI
    this = S.obj(cls, 'this')
    S.dyn(this, cls)
    a, b = S.obj('PolyFluid', 'f0'), S.obj('PolyFluid', 'f1')
    fluid_ok(S, a, b)
    S.require(And(this.mThroatArea > 0, this.mFlowTuningFactor >= 0, this.mMalfBlockageValue >= 0, this.mMalfBlockageValue <= 1))
    if S.mode == 'con':
        raise Reject()
    gas, liq = S.real('gas', 0, 1e12), S.real('liquid', 0, 1e12)
    S.use(HIFI + '::computeGasConductivity', lambda K, this, a, b: gas)
    S.use(HIFI + '::computeLiquidConductivity', lambda K, this, a, b: liq)
    o = S.snap()
    S.call(HIFI + '::computeConductance', this, a, b)
    t = o(this)
    area = If(t.mMalfBlockageFlag, t.mThroatArea * (1 - t.mMalfBlockageValue), t.mThroatArea)
    if valve:
        area = t.mPosition * area
        area = If(t.mMalfLeakThruFlag, max_(area, t.mLeakArea), area)
    m = mol_weight(a, b)
    c = If(a.mPhase == 0, gas, If(a.mPhase == 1, liq, 0))
    want = If(m > D(EPS), clamp(t.mFlowTuningFactor * c * area / If(m > D(EPS), m, 1), 0, D(COND)), 0)
    S.ensure('conductivity of the phase over the area open or leaking, per mole, within its range', this.mSystemConductance == want)


def throat(S, liquid=False):
    """mass flux of the throat over the pressure drop: choked, subsonic or incompressible"""
    this = S.obj(HIFI, 'this')
    a, b = S.obj('PolyFluid', 'f0'), S.obj('PolyFluid', 'f1')
    fluid_ok(S, a, b)
    g = a.mAdiabaticIndex
    S.require(And(this.mCdActual >= 0, g >= D(1.01), g <= 5, a.mDensity > 0, this.mMinLinearizationPotential > 0))
    fn = HIFI + ('::computeLiquidConductivity' if liquid else '::computeGasConductivity')
    if liquid:
        r = S.call(fn, this, a, b)
        dp = 1000 * max_(a.mPressure - b.mPressure, this.mMinLinearizationPotential)
        S.ensure('flow of the density over the pressure drop', r * dp == this.mCdActual * S.sqrt(2 * ((a.mDensity + b.mDensity) / 2) * dp) * 1000)
        return
    p1 = b.mPressure
    p0 = max_(a.mPressure, p1 + this.mMinLinearizationPotential)
    p0, p1 = 1000 * p0, 1000 * p1
    S.require(S.pow(p1 / p0, 2 / g) >= S.pow(p1 / p0, (g + 1) / g))  # a ratio to a lower power is larger
    r = S.call(fn, this, a, b)
    star = p0 * S.pow(2 / (g + 1), g / (g - 1))
    S.ensure('ratio of the exit pressure to the critical pressure', this.mPressureRatio * star == p1)
    choked = S.sqrt(g * p0 * a.mDensity * S.pow(2 / (g + 1), (g + 1) / (g - 1)))
    sub = S.sqrt(2 * p0 * a.mDensity * g / (g - 1) * (S.pow(p1 / p0, 2 / g) - S.pow(p1 / p0, (g + 1) / g)))
    S.ensure('choked flow below the critical pressure, subsonic flow above', r * (p0 - p1) == this.mCdActual * 1000 * If(this.mPressureRatio < 1, choked, sub))


def H(T):
    from gcv.exec import uf, RS
    return uf('H', RS, RS)(R(T))


HARNESSES = [('step conductor', step, {'cls': 'GunnsFluidConductor'}), ('step potential', step, {'cls': 'GunnsFluidPotential'}), ('symmetric', symmetric)]
HARNESSES += [('predict ' + c, predict, (c,)) for c in ('root', 'linear', 'power')] + [('tune %d' % m, tune, (m,)) for m in (1, 2, 3, 4)]
HARNESSES += [('flows ' + c[10:], flows, (c,)) for c in ('GunnsFluidConductor', 'GunnsFluidPotential', 'GunnsFluidSource', 'GunnsFluidCapacitor', 'GunnsFluidFlowController', 'GunnsFluidExternalDemand', HIFI)]
HARNESSES += [('flows %s internal' % c[5:], flows, (c, True)) for c in SRC]
HARNESSES += [('source step', source_step), ('capacitor step', cap_step), ('capacitance', capacitance), ('capacitor transport', cap_transport), ('flow controller', flow_controller), ('convective', convective)]
HARNESSES += [('transport %s %d-%d%s' % (c[10:], a, b, ' internal' if i else ''), transport, (c, (a, b), i)) for c in ('GunnsFluidConductor', 'GunnsFluidSource', HIFI) for a, b in CASES for i in (False, True)]
HARNESSES += [('transport pump %d-%d' % c, transport, ('GunnsGasDisplacementPump', c, True)) for c in CASES]
HARNESSES += [('orifice step', orifice), ('hi-fi valve step', orifice, {'valve': True}), ('orifice conductance', conductance), ('hi-fi valve conductance', conductance, {'valve': True}), ('throat gas', throat), ('throat liquid', throat, {'liquid': True})]
