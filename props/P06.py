"""Linear links: stamps in the system of equations and flux conservation."""
from gcv.api import *
from gcv.lib import *
ID = 'P06'
SOURCES = ['core/GunnsBasicLink.cpp', 'core/GunnsBasicConductor.cpp', 'core/GunnsBasicNode.cpp', 'core/GunnsBasicCapacitor.cpp', 'core/GunnsBasicSource.cpp',
           'core/GunnsBasicPotential.cpp', 'core/GunnsBasicFlowController.cpp', 'core/GunnsBasicSocket.cpp', 'core/GunnsBasicJumper.cpp', 'core/GunnsBasicExternalSupply.cpp', 'core/GunnsBasicExternalDemand.cpp']
META = dict(
    title='Linear links give symmetric stamps and conserve what they move',
    statement='The matrix contribution of a basic conductor, potential source, flow controller, jumper, socket, external demand or capacitor is the symmetric two-port conductance stamp, with a conductance limited to the range from zero to the conductance limit and scaled by any blockage, and the solver is told whenever it changes. The source contribution and the flux computed from a solution agree with each other and with the component law (conductance times drop, plus the source term; charge balance for a capacitor; demanded flux for a source), and the contributions at the two ports cancel. The flux leaves one port node and enters the other in equal amounts, so nothing is created or lost.',
    over=['inputs', 'histories'], quant='all potentials, conductivities, capacitances, demands, blockages, time steps and prior link and node states, on any two nodes of a network of any size',
    why='Unit tests compare single numerical cases; the sign, saturation and blockage corner cases and the agreement of flux with stamp for every state are what a network user relies on and are not enumerable.',
    files=['core/GunnsBasicConductor.cpp', 'core/GunnsBasicCapacitor.cpp', 'core/GunnsBasicSource.hh', 'core/GunnsBasicPotential.hh', 'core/GunnsBasicFlowController.cpp', 'core/GunnsBasicLink.cpp', 'core/GunnsBasicJumper.cpp', 'core/GunnsBasicSocket.cpp', 'core/GunnsBasicExternalDemand.cpp'],
    mech=[('GunnsBasicConductor::step, buildConductance, computeFlows', 'core/GunnsBasicConductor.cpp'), ('GunnsBasicCapacitor::buildCapacitance', 'core/GunnsBasicCapacitor.cpp'),
          ('GunnsBasicLink::transportFlux', 'core/GunnsBasicLink.cpp'), ('GunnsBasicFlowController::updateState', 'core/GunnsBasicFlowController.cpp')],
    note='Unbounded: each link class is proved for every state and any number of network nodes. Exact real arithmetic; the round-off floor used by the code (100 epsilon of the higher potential) is part of the contract.')
EPS = 2.220446049250313e-16
COND = 1e15


def mk(S, cls, idle=True, **kw):
    k = link(S, cls, 2, **kw)
    if idle:
        S.set(k.this, 'mUserPortSetControl', 0)
    # class invariant: the matrix is a conductance stamp (it starts as zero)
    S.require(And(k.am[1] == -k.am[0], k.am[2] == -k.am[0], k.am[3] == k.am[0]))
    return k


def stamp(S, k, o, g):
    S.ensure('symmetric stamp of the limited conductance', And(k.am[0] == g, k.am[1] == -g, k.am[2] == -g, k.am[3] == g))
    S.ensure('the solver is told when the matrix changed', k.this.mAdmittanceUpdate == Or(o(k.this).mAdmittanceUpdate, o(k.am)[0] != g))


def same_vec(S, k, o, what='the potentials are left to the solver', v='pv'):
    S.ensure(what, And(getattr(k, v)[0] == o(getattr(k, v))[0], getattr(k, v)[1] == o(getattr(k, v))[1]))


def g_of(o, base):
    return clamp(If(o.mMalfBlockageFlag, base * (1 - o.mMalfBlockageValue), base), 0, D(COND))


def step_conductor(S, cls='GunnsBasicConductor'):
    k = mk(S, cls)
    dt = S.real('dt', 0, 100)
    o = S.snap()
    S.call(cls + '::step' if cls == 'GunnsBasicPotential' else 'GunnsBasicConductor::step', k.this, dt)
    t = o(k.this)
    stamp(S, k, o, g_of(t, t.mDefaultConductivity))
    same_vec(S, k, o)
    S.ensure('configuration kept', And(k.this.mDefaultConductivity == t.mDefaultConductivity, k.this.mMalfBlockageValue == t.mMalfBlockageValue))
    if cls == 'GunnsBasicPotential':
        S.ensure('the source drives the conductance', And(k.sv[0] == -t.mSourcePotential * k.am[0], k.sv[1] == -k.sv[0]))
    else:
        same_vec(S, k, o, 'no source contribution', 'sv')


def flows(S, k, o, flux):
    this = k.this
    n0, n1 = k.nodes[k.nm[0]], k.nodes[k.nm[1]]
    S.ensure('flux by the component law', this.mFlux == flux)
    S.ensure('potential drop', this.mPotentialDrop == k.pv[0] - k.pv[1])
    S.ensure('power is gained by flow up the potential', this.mPower == -this.mFlux * (k.pv[0] - k.pv[1]))
    same_vec(S, k, o)
    d = lambda n, f: getattr(n, f) - getattr(o(n), f)
    f = this.mFlux
    other = k.nm[0] != k.nm[1]
    S.ensure('what leaves the first node is the forward flux', Implies(other, And(d(n0, 'mOutfluxRate') == max_(f, 0), d(n0, 'mInfluxRate') == max_(-f, 0))))
    S.ensure('what enters the second node is the forward flux', Implies(other, And(d(n1, 'mInfluxRate') == max_(f, 0), d(n1, 'mOutfluxRate') == max_(-f, 0))))
    S.ensure('a link with both ports on one node exchanges nothing net', Implies(Not(other), d(n0, 'mInfluxRate') == d(n0, 'mOutfluxRate')))
    S.ensure('no other node is touched', S.forall(0, k.N + 1, lambda i: Or(i == k.nm[0], i == k.nm[1], And(d(k.nodes[i], 'mInfluxRate') == 0, d(k.nodes[i], 'mOutfluxRate') == 0))))


def flow_conductor(S, cls='GunnsBasicConductor'):
    k = mk(S, cls)
    o = S.snap()
    S.call('GunnsBasicConductor::computeFlows', k.this, S.real('dt', 0, 100))
    drop = k.pv[0] - k.pv[1]
    if cls in ('GunnsBasicPotential', 'GunnsBasicExternalDemand'):
        flows(S, k, o, drop * k.am[0] - k.sv[0])
    else:
        flows(S, k, o, If(abs_(drop) < max_(k.pv[0], k.pv[1]) * (100 * D(EPS)), 0, drop * k.am[0]))


def step_capacitor(S):
    k = mk(S, 'GunnsBasicCapacitor')
    dt = S.real('dt', 0, 100)
    o = S.snap()
    S.call('GunnsBasicCapacitor::step', k.this, dt)
    t = o(k.this)
    C = If(t.mEditCapacitanceFlag, t.mEditCapacitance, t.mCapacitance)
    S.ensure('an edit of the capacitance is applied once', And(k.this.mCapacitance == C, Not(k.this.mEditCapacitanceFlag)))
    stamp(S, k, o, C / If(dt < D(EPS), D(EPS), dt))
    same_vec(S, k, o)
    S.ensure('the source holds the charge of the last step', And(k.sv[0] == k.am[0] * (k.pv[0] - k.pv[1]), k.sv[1] == -k.sv[0]))


def flow_capacitor(S):
    k = mk(S, 'GunnsBasicCapacitor')
    o = S.snap()
    S.call('GunnsBasicCapacitor::computeFlows', k.this, S.real('dt', 0, 100))
    flows(S, k, o, (k.pv[0] - k.pv[1]) * k.am[0] - k.sv[0])


def charge(S):
    """step, then flows at new potentials: the charge moved in the step equals the change of stored charge"""
    k = mk(S, 'GunnsBasicCapacitor')
    dt = S.real('dt', 0.001, 100)
    S.require(Not(k.this.mEditCapacitanceFlag))
    o = S.snap()
    S.call('GunnsBasicCapacitor::step', k.this, dt)
    # the solver now writes new potentials
    nv = [S.real('new potential 0'), S.real('new potential 1')]
    for i in range(2):
        S.write(k.pv, i, nv[i])
    S.call('GunnsBasicCapacitor::computeFlows', k.this, dt)
    old = o(k.pv)
    S.ensure('the charge that flowed equals the change of stored charge', k.this.mFlux * dt == k.this.mCapacitance * ((nv[0] - nv[1]) - (old[0] - old[1])))


def init_pot(S):
    k = mk(S, 'GunnsBasicCapacitor')
    v = S.real('potential')
    o = S.snap()
    S.call('GunnsBasicCapacitor::initPotential', k.this, v)
    S.ensure('link and node start at the initial potential', And(k.pv[0] == v, k.nodes[k.nm[0]].mPotential == v, k.pv[1] == o(k.pv)[1]))


def step_source(S, cls='GunnsBasicSource'):
    k = mk(S, cls)
    o = S.snap()
    S.call('GunnsBasicSource::step', k.this, S.real('dt', 0, 100))
    t = o(k.this)
    f = If(t.mMalfBlockageFlag, t.mSourceFlux * (1 - t.mMalfBlockageValue), t.mSourceFlux)
    S.ensure('the demanded flux, less blockage, is drawn from port 0 and pushed into port 1', And(k.this.mFlux == f, k.sv[0] == -f, k.sv[1] == f))
    same_vec(S, k, o)
    S.ensure('a source has no conductance', conj([k.am[i] == o(k.am)[i] for i in range(4)]))
    S.ensure('no rebuild of the matrix', k.this.mAdmittanceUpdate == t.mAdmittanceUpdate)
    S.ensure('demand kept', k.this.mSourceFlux == t.mSourceFlux)


def flow_source(S):
    k = mk(S, 'GunnsBasicSource')
    o = S.snap()
    S.call('GunnsBasicSource::computeFlows', k.this, S.real('dt', 0, 100))
    flows(S, k, o, o(k.this).mFlux)


def step_flowctl(S):
    k = mk(S, 'GunnsBasicFlowController')
    dt = S.real('dt', 0, 100)
    o = S.snap()
    S.call('GunnsBasicFlowController::minorStep', k.this, dt, 2)
    t = o(k.this)
    cmd = If(t.mMalfFluxFlag, t.mMalfFluxValue, t.mFluxCommand)
    dp = max_(D(EPS), abs_(k.pv[0] - k.pv[1]))
    eff = If(And(k.pv[1] > k.pv[0], Not(t.mEnableReverseControl)), 0, min_(t.mDefaultConductivity, abs_(cmd) / dp))
    stamp(S, k, o, g_of(t, eff))
    same_vec(S, k, o, 'no source contribution', 'sv')
    S.ensure('the flux never exceeds the command', Implies(And(t.mDefaultConductivity >= 0, t.mMalfBlockageValue >= 0, t.mMalfBlockageValue <= 1), k.am[0] * abs_(k.pv[0] - k.pv[1]) <= abs_(cmd)))
    S.ensure('no reverse flow unless enabled', Implies(And(Not(t.mEnableReverseControl), k.pv[1] > k.pv[0]), k.am[0] == 0))
    r = S.call('GunnsBasicFlowController::isNonLinear', k.this)
    S.ensure('linearity as configured', r == t.mNonLinear)


def step_demand(S):
    k = mk(S, 'GunnsBasicExternalDemand')
    S.dyn(k.this, 'GunnsBasicExternalDemand')
    S.require(k.this.mFilterMinDeltaP >= 0)
    dt = S.real('dt', 0.001, 100)
    o = S.snap()
    S.call('GunnsBasicPotential::step', k.this, dt)
    t = o(k.this)
    eff = k.this.mEffectiveConductivity
    S.ensure('conductance to the supply is never below the filter minimum', eff == max_(k.this.mEstimatedCapacitance / dt, t.mFilterMinConductivity))
    stamp(S, k, o, g_of(t, eff))
    avg = (t.mAvgDemand + t.mFlux) / 2
    S.ensure('demand is averaged over two steps', k.this.mAvgDemand == If(abs_(avg) < D(EPS), 0, avg))
    S.ensure('supply is averaged over two steps', And(k.this.mAvgSupplyP == (t.mAvgSupplyP + t.mSourcePotential) / 2, k.this.mAvgSupplyDeltaP == k.this.mAvgSupplyP - t.mAvgSupplyP))
    dP = k.this.mAvgSupplyDeltaP
    S.ensure('capacitance estimate is filtered only on a usable pressure change', k.this.mEstimatedCapacitance ==
             If(abs_(dP) > t.mFilterMinDeltaP, (1 - t.mFilterCapacitanceGain) * t.mEstimatedCapacitance + t.mFilterCapacitanceGain * (-k.this.mAvgDemand * dt / If(dP == 0, 1, dP)), t.mEstimatedCapacitance))
    S.ensure('the source drives the conductance', And(k.sv[0] == -t.mSourcePotential * k.am[0], k.sv[1] == -k.sv[0]))


def step_socket(S):
    k = mk(S, 'GunnsBasicSocket')
    plug = S.obj('GunnsBasicJumperPlug', 'plug')
    con = S.bool('connected')
    S.bind_if(k.this, 'mConnection', con, plug, None)
    o = S.snap()
    S.call('GunnsBasicConductor::step', k.this, S.real('dt', 0, 100))
    t = o(k.this)
    stamp(S, k, o, g_of(t, If(Or(con, t.mSelfSealing), 0, t.mDefaultConductivity)))
    same_vec(S, k, o)


def step_jumper(S):
    """a jumper whose plugs are absent conducts only between different nodes"""
    k = mk(S, 'GunnsBasicJumper')
    S.bind(k.this, 'mPlug', None)
    p = S.addr(k.this, 'mPlug')
    S.bind(p, 0, None)
    S.bind(p, 1, None)
    o = S.snap()
    S.call('GunnsBasicConductor::step', k.this, S.real('dt', 0, 100))
    t = o(k.this)
    stamp(S, k, o, g_of(t, If(k.nm[0] == k.nm[1], 0, t.mDefaultConductivity)))


def node_flows(S):
    n = S.obj('GunnsBasicNode', 'node')
    o = S.snap()
    S.call('GunnsBasicNode::integrateFlows', n, S.real('dt', 0, 100))
    t = o(n)
    S.ensure('net flux is influx less outflux', And(n.mNetFlux == t.mInfluxRate - t.mOutfluxRate, n.mFluxThrough == min_(t.mInfluxRate, t.mOutfluxRate)))
    S.ensure('potential kept', n.mPotential == t.mPotential)
    o2 = S.snap()
    S.call('GunnsBasicNode::resetFlows', n)
    S.ensure('reset clears the sums of the step', And(n.mInfluxRate == 0, n.mOutfluxRate == 0, n.mScheduledOutflux == 0))


HARNESSES = [('conductor step', step_conductor), ('conductor flows', flow_conductor), ('potential step', step_conductor, {'cls': 'GunnsBasicPotential'}), ('potential flows', flow_conductor, {'cls': 'GunnsBasicPotential'}),
             ('capacitor step', step_capacitor), ('capacitor flows', flow_capacitor), ('capacitor charge', charge), ('capacitor init', init_pot), ('source step', step_source), ('source flows', flow_source), ('supply step', step_source, {'cls': 'GunnsBasicExternalSupply'}),
             ('flow controller', step_flowctl), ('flow controller flows', flow_conductor, {'cls': 'GunnsBasicFlowController'}), ('external demand', step_demand), ('external demand flows', flow_conductor, {'cls': 'GunnsBasicExternalDemand'}), ('socket step', step_socket), ('socket flows', flow_conductor, {'cls': 'GunnsBasicSocket'}), ('jumper step', step_jumper), ('node flows', node_flows)]
