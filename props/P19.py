"""Plugs, sockets and jumpers: connections that can be made and undone while the network runs."""
import os
from gcv.api import *
from gcv.lib import *
from props import P05, P06, P09 as L
from props.P07 import ufn
ID = 'P19'
HEADERS = [os.path.join(os.path.dirname(os.path.abspath(__file__)), 'plugs.hh')]
INLINE = ['make_GcvBasicPlug', 'make_GcvFluidPlug']
NAMES = ['core/Gunns%s%s.cpp' % (a, b) for a in ('Basic', 'Fluid') for b in ('Jumper', 'JumperPlug', 'Socket')]
SOURCES = sorted(set(P06.SOURCES + L.SOURCES + NAMES))
META = dict(
    title='Plugs and sockets connect one to one and jumpers follow their plugs',
    statement='A socket holds at most one plug and a plug is in at most one of its sockets, and after every update the plug reports the socket that holds it. A request to plug in is carried out exactly when the plug is free and the socket is free, a request to unplug when it names the socket of the plug or the plug is free, a direct request changes sockets in one update; requests that cannot be carried out change no connection, and each is spent. Each end of a jumper is on the node of the socket it is in, or on the ambient node of the socket it was taken from, and an open self-sealing jumper end, a self-sealing or plugged socket and a jumper with both ends on one node conduct nothing but a leak malfunction.',
    over=['inputs', 'histories'],
    quant='every arrangement of plugs in sockets, all requests alone and together, all nodes of networks of any size, all leaks and blockages; each update starts from an arbitrary valid arrangement, so every history is covered',
    why='connections are changed by crews and malfunctions in any order and by several jumpers at once; unit tests plug a few sockets in scripted sequences, while a plug in two sockets or a port left on an old node only shows later as wrong flow',
    files=NAMES,
    mech=[('plug', 'core/GunnsBasicJumperPlug.cpp update, processDirectConnectionRequest, processConnectionRequest, processDisconnectionRequest, updateActiveConnection; core/GunnsFluidJumperPlug.cpp'),
          ('socket', 'core/GunnsBasicSocket.cpp, core/GunnsFluidSocket.cpp requestConnection, requestDisconnection, updateState'),
          ('jumper', 'core/GunnsBasicJumper.cpp, core/GunnsFluidJumper.cpp updateState, updatePlugs, restartModel')],
    note='bounded: plugs with lists of 3 sockets; nodes and links are unbounded. The concrete plug classes (which GunnShow generates) are represented by props/plugs.hh, which stores what the abstract interface sets. Port moves are proved in P05, flow through conductors in P06 and P09.')
NS = 3


def cls(kind, x):
    return 'Gunns%s%s' % (kind, x)


def make_plug(S, kind, name):
    p = S.obj('Gcv%sPlug' % kind, name)
    S.dyn(p, 'Gcv%sPlug' % kind)
    S.set(p, 'mNone', NS)
    for f in ('mActive', 'mLast', 'mConnect', 'mDisconnect'):
        S.require(And(getattr(p, f) >= 0, getattr(p, f) <= NS))
    return p


def world(S, kind, held):
    """a plug in socket `held` (or none); the other sockets hold another plug or none"""
    S.bounded('list of %d sockets' % NS)
    me, other = make_plug(S, kind, 'plug'), make_plug(S, kind, 'otherPlug')
    base = S.base(me, None, cls(kind, 'JumperPlug')) if False else me
    arr = S.arr('GunnsBasicLink*', NS, 'sockets')
    S.bind(me, 'mSockets', arr)
    S.set(me, 'mNumSockets', NS)
    so, taken, nm = [], [], []
    for i in range(NS):
        s = S.obj(cls(kind, 'Socket'), 'socket%d' % i)
        S.dyn(s, cls(kind, 'Socket'))
        S.set(s, 'mInitFlag', True)
        m = S.arr('int', 2, 'socket%d.nodes' % i)
        S.bind(s, 'mNodeMap', m)
        if i == held:
            S.bind(s, 'mConnection', me)
            taken.append(None)
        else:
            b = S.bool('other plug in socket %d' % i)
            S.bind_if(s, 'mConnection', b, other, None)
            taken.append(b)
        S.require(s.mHasConnection == (True if i == held else taken[i]))
        S.bind(arr, i, s)
        so.append(s)
        nm.append(m)
    S.require(me.mActive == (NS if held is None else held))
    return me, other, so, taken, nm


def pick(i, xs, default):
    r = default
    for j, x in reversed(list(enumerate(xs))):
        r = If(i == j, x, r)
    return r


def plug(S, kind, held):
    me, other, so, taken, nm = world(S, kind, held)
    S.require(And(me.mDirectConnectionRequest >= -99, me.mDirectConnectionRequest <= 10))
    cur = S.int('current node', 0, 1000)
    S.require(conj([And(nm[i][j] >= 0, nm[i][j] <= 1000) for i in range(NS) for j in (0, 1)]))
    o = S.snap()
    node = S.call('GunnsBasicJumperPlug::update', me, cur)
    t = o(me)
    a = NS if held is None else held
    free = [False if i == held else Not(taken[i]) for i in range(NS)]
    d = If(t.mDirectConnectionDisable, -99, t.mDirectConnectionRequest)
    act = And(d >= 0, d <= NS, d != a)
    D = If(act, a, t.mDisconnect)
    C = If(And(act, d != NS, pick(d, free, False)), d, t.mConnect)
    # unplug
    done = And(D != NS, Or(D == a, a == NS))
    a1 = If(And(done, D == a), NS, a)
    n1 = If(done, pick(D, [nm[i][1] for i in range(NS)], 0), cur)
    last = If(done, D, t.mLast)
    # plug in
    free1 = [Or(B(free[i]), And(D == a, done)) if i == held else free[i] for i in range(NS)]
    plugged = And(C != NS, a1 == NS, pick(C, free1, False))
    a2 = If(plugged, C, a1)
    S.ensure('the socket it is in afterwards is the one the requests lead to', me.mActive == a2)
    S.ensure('the sockets hold it exactly there, and other plugs stay', conj([And(S.same(so[i].mConnection, me) == (a2 == i), S.isnull(so[i].mConnection) == (And(a2 != i, True if i == held else Not(taken[i]))), S.same(so[i].mConnection, other) == (False if i == held else And(taken[i], a2 != i))) for i in range(NS)]))
    S.ensure('it is in at most one socket', sum([If(S.same(so[i].mConnection, me), 1, 0) for i in range(NS)][1:], If(S.same(so[0].mConnection, me), 1, 0)) <= 1)
    S.ensure('a socket shows that it is taken', conj([so[i].mHasConnection == Not(S.isnull(so[i].mConnection)) for i in range(NS)]))
    S.ensure('its node is that of its socket, the ambient node of the socket it left, or unchanged', node == If(plugged, pick(C, [nm[i][0] for i in range(NS)], 0), n1))
    S.ensure('remembers the socket it was last taken from', me.mLast == If(plugged, NS, last))
    S.ensure('requests are spent', And(me.mConnect == NS, me.mDisconnect == NS, me.mDirectConnectionRequest == If(t.mDirectConnectionDisable, -99, t.mDirectConnectionRequest)))


def plug_init(S, kind, initial):
    me, other, so, taken, nm = world(S, kind, None)
    n0 = S.int('initial node', 0, 1000)
    S.require(conj([And(nm[i][j] >= 0, nm[i][j] <= 1000) for i in range(NS) for j in (0, 1)]))
    o = S.snap()
    node = S.call('GunnsBasicJumperPlug::initialize', me, n0, initial, may_throw=True)
    ok = True if initial == NS else Not(taken[initial]) if 0 <= initial < NS else False
    S.ensure('starts in the given socket exactly when it is there and free', B(S.threw) == Not(B(ok)))
    if S.mode == 'con' and z3.is_true(S.threw):
        raise Reject()
    if S.mode == 'sym':
        S.st.pc += (Not(S.threw),)
    S.ensure('and on its node', And(me.mActive == initial, node == (n0 if initial == NS else nm[min(max(initial, 0), NS - 1)][0])))
    if ok is not False:
        S.ensure('the socket holds it', conj([S.same(so[i].mConnection, me) == B(i == initial) for i in range(NS)]))
    S.ensure('no request is pending', And(me.mConnect == NS, me.mDirectConnectionRequest == -99))


def socket(S, kind):
    me, other = make_plug(S, kind, 'plug'), make_plug(S, kind, 'otherPlug')
    s = S.obj(cls(kind, 'Socket'), 'socket')
    S.dyn(s, cls(kind, 'Socket'))
    S.set(s, 'mInitFlag', True)
    m = S.arr('int', 2, 'nodes')
    S.bind(s, 'mNodeMap', m)
    taken = S.bool('taken')
    S.bind_if(s, 'mConnection', taken, other, None)
    S.require(s.mHasConnection == taken)
    n = S.call(cls(kind, 'Socket') + '::requestConnection', s, me, may_throw=True)
    S.ensure('refuses a plug exactly when it has one', B(S.threw) == taken)
    S.ensure('holds the plug that came first', And(S.same(s.mConnection, me) == Not(taken), S.same(s.mConnection, other) == taken, s.mHasConnection == True))
    if S.mode == 'con' and z3.is_true(S.threw):
        raise Reject()
    if S.mode == 'sym':
        S.st.pc += (Not(S.threw),)
    S.ensure('puts the plug on its inner node', n == m[0])
    S.ensure('knows its plug', And(B(S.call(cls(kind, 'Socket') + '::isConnected(%s const*) const' % cls(kind, 'JumperPlug'), s, me)), Not(B(S.call(cls(kind, 'Socket') + '::isConnected(%s const*) const' % cls(kind, 'JumperPlug'), s, other))), B(S.call(cls(kind, 'Socket') + '::isConnected() const', s))))
    n = S.call(cls(kind, 'Socket') + '::requestDisconnection', s, other)
    S.ensure('gives up its plug to no other', And(S.same(s.mConnection, me), s.mHasConnection == True, n == m[1]))
    n = S.call(cls(kind, 'Socket') + '::requestDisconnection', s, me)
    S.ensure('lets its plug go to the ambient node', And(S.isnull(s.mConnection), s.mHasConnection == False, n == m[1]))


def leak(S, k, t, o, on):
    """conductivity of a closed end: the leak malfunction, no more than that of the link"""
    f = lambda i: k.nodes[k.nm[i]].mContent
    new = ufn('predict', t.mMalfLeakRateValue, t.mMinLinearizationPotential, f(0).mPressure, f(1).mPressure, f(0).mDensity, f(1).mDensity)
    lk = If(And(on, t.mPreviousLeakRate != t.mMalfLeakRateValue), new, t.mLeakConductivity)
    S.ensure('leak conductivity is that of the commanded leak rate', And(k.this.mLeakConductivity == lk, Implies(on, k.this.mPreviousLeakRate == t.mMalfLeakRateValue)))
    return If(t.mMalfLeakRateFlag, min_(lk, t.mMaxConductivity), 0)


def predict(S):
    if S.mode == 'con':
        raise Reject()
    S.use('GunnsFluidUtils::predictConductivity', lambda K, r, p, a, b, *e: ufn('predict', r, p, a.mPressure, b.mPressure, a.mDensity, b.mDensity))


def socket_flow(S):
    k = L.mk(S, 'GunnsFluidSocket')
    p = S.obj('GunnsFluidJumperPlug', 'plug')
    con = S.bool('connected')
    S.bind_if(k.this, 'mConnection', con, p, None)
    predict(S)
    o = S.snap()
    S.call('GunnsFluidSocket::updateState', k.this, S.real('dt', 0, 100))
    t = o(k.this)
    on = Or(con, t.mSelfSealing)
    S.ensure('a plugged or self-sealing socket conducts nothing but a leak', k.this.mEffectiveConductivity == If(on, leak(S, k, t, o, on), t.mEffectiveConductivity))


def jumper(S, kind, ends):
    """ends: which ends have plugs"""
    fluid = kind == 'Fluid'
    k = L.mk(S, 'GunnsFluidJumper') if fluid else P06.mk(S, 'GunnsBasicJumper')
    pl = [make_plug(S, kind, 'plug%d' % i) if ends[i] else None for i in (0, 1)]
    S.bind(k.this, 'mPlug', None)
    arr = S.addr(k.this, 'mPlug')
    for i in (0, 1):
        S.bind(arr, i, pl[i])
    if S.mode == 'con':
        raise Reject()
    if fluid:
        predict(S)
    went = [S.int('node of plug %d' % i) for i in (0, 1)]
    S.require(conj([And(w >= 0, w <= k.N) for w in went]))
    S.require(Not(k.this.mNodeMapLocked))

    def update(K, this, node):
        i = 0 if ends[0] and same_ptr(S, this, pl[0]) else 1
        K.require('the plug is told the present node of its end', node == was[i])
        K.assign(pl[i], 'mActive', after[i])
        return went[i]
    after = [S.int('connection %d' % i, 0, NS) for i in (0, 1)]
    S.use('GunnsBasicJumperPlug::update', update)
    o = S.snap()
    was = [o(k.nm)[i] for i in (0, 1)]
    S.call(cls(kind, 'Jumper') + '::updateState', k.this, S.real('dt', 0, 100))
    t = o(k.this)
    S.ensure('each end is on the node of its plug', conj([k.nm[i] == (went[i] if ends[i] else was[i]) for i in (0, 1)]))
    for n, f in nodes_ok(S, k, 2):
        if 'share' not in n:   # a jumper may have both ends on one node
            S.ensure(n, f)
    S.ensure('the solver is told when an end moved', k.this.mAdmittanceUpdate == Or(t.mAdmittanceUpdate, disj([k.nm[i] != was[i] for i in (0, 1)])))
    seal = disj([And(B(ends[i]), getattr(t, 'mSelfSealing%d' % i), after[i] == NS) for i in (0, 1)])
    one = k.nm[0] == k.nm[1]
    if not fluid:
        S.ensure('conducts nothing with a sealed end or both ends on one node', k.this.mEffectiveConductivity == If(Or(seal, one), 0, t.mEffectiveConductivity))
        return
    on = And(seal, Not(one))
    S.ensure('conducts nothing but a leak with a sealed end, and nothing with both ends on one node', k.this.mEffectiveConductivity == If(one, 0, If(seal, leak(S, k, t, o, on), t.mEffectiveConductivity)))


def same_ptr(S, a, b):
    v = S.same(a, b)
    return z3.is_true(z3.simplify(B(v)))


def jumper_restart(S, kind):
    """after a restart (a checkpoint was loaded) each end is plugged in again where it was"""
    k = L.mk(S, 'GunnsFluidJumper') if kind == 'Fluid' else P06.mk(S, 'GunnsBasicJumper')
    pl = [make_plug(S, kind, 'plug%d' % i) for i in (0, 1)]
    S.bind(k.this, 'mPlug', None)
    arr = S.addr(k.this, 'mPlug')
    for i in (0, 1):
        S.bind(arr, i, pl[i])
    if S.mode == 'con':
        raise Reject()
    seen = []
    o = S.snap()

    def update(K, this):
        for i in (0, 1):
            t = o(pl[i])
            inn = t.mActive != NS
            now = K.snap()(pl[i])
            K.require('a plug that was in a socket is taken out and put back, one that was out returns to the ambient node it was on', And(now.mConnect == If(inn, t.mActive, NS), now.mDisconnect == If(inn, t.mActive, t.mLast)))
        seen.append(1)
    S.use(cls(kind, 'Jumper') + '::updatePlugs', update)
    S.use({'Basic': 'GunnsBasicConductor', 'Fluid': 'GunnsFluidConductor'}[kind] + '::restartModel', lambda K, this: None)
    S.call(cls(kind, 'Jumper') + '::restartModel', k.this)
    S.ensure('the plugs are updated', B(len(seen) > 0))


HARNESSES = []
for kind in ('Basic', 'Fluid'):
    HARNESSES += [('%s plug %s' % (kind, 'free' if h is None else 'in socket %d' % h), plug, (kind, h)) for h in (None, 0, 1, 2)]
    HARNESSES += [('%s plug initialize %d' % (kind, i), plug_init, (kind, i)) for i in (-1, 0, 1, 2, 3, 4)]
    HARNESSES += [('%s socket' % kind, socket, (kind,)), ('%s jumper restart' % kind, jumper_restart, (kind,))]
    HARNESSES += [('%s jumper %s' % (kind, n), jumper, (kind, e)) for n, e in (('both plugs', (True, True)), ('plug at 0', (True, False)), ('plug at 1', (False, True)))]
HARNESSES += [('Fluid socket flow', socket_flow)]
