"""Port rules of links."""
from gcv.api import *
from gcv.lib import *
ID = 'P05'
SOURCES = ['core/GunnsBasicLink.cpp', 'core/GunnsBasicConductor.cpp', 'core/GunnsBasicNode.cpp', 'core/GunnsBasicExternalSupply.cpp', 'core/GunnsBasicExternalDemand.cpp',
           'core/GunnsBasicSource.cpp', 'core/GunnsBasicPotential.cpp']
META = dict(
    title='Link ports always map to valid, distinct nodes known to the solver',
    statement='Re-mapping a port succeeds exactly when the port map is not locked, the port and node exist, no other port of the link is on that node (the ground node may be shared) and the link type allows it; a refused request changes nothing. After any port operation every port points to the node it is mapped to, the link-to-network admittance map matches the node map, and the solver is told to rebuild its matrix whenever a port moved. User commands to move a port to a node, to ground or to its default node report success or failure accordingly, and restarting a link returns every port to its default node.',
    over=['inputs', 'histories'], quant='all port and node numbers, node counts, prior node maps, lock states and user commands (each operation from an arbitrary valid state, so every history), for links of 1 to 4 ports',
    why='Unit tests move ports of single links through a few scripted maps; the rule must hold from every reachable map and for every request, and a stale node pointer or admittance map only shows later as a wrong network solution.',
    files=['core/GunnsBasicLink.cpp', 'core/GunnsBasicExternalSupply.cpp', 'core/GunnsBasicExternalDemand.cpp'],
    mech=[('GunnsBasicLink::setPort, checkPortRules', 'core/GunnsBasicLink.cpp'), ('GunnsBasicLink::updateAdmittanceMap', 'core/GunnsBasicLink.cpp'), ('GunnsBasicLink::processUserPortCommand', 'core/GunnsBasicLink.cpp'),
          ('checkSpecificPortRules', 'core/GunnsBasicExternalSupply.cpp')],
    note='Unbounded in the number of nodes and in the prior state (arbitrary valid state); link port counts 1-4 are each proved separately. Message output trusted.')


def inv(S, k, ports):
    for n, f in nodes_ok(S, k, ports):
        S.ensure(n, f)
    for i, f in enumerate(map_ok(k, k.nm, k.mp, ports)):
        S.ensure('network admittance map entry %d follows the node map' % i, f)


def allowed(k, o, ports, port, node, cls):
    ok = And(port >= 0, port < ports, node >= 0, node <= k.N, conj([Or(port == i, o[i] != node, node == k.N) for i in range(ports)]))
    if cls == 'GunnsBasicExternalSupply':
        ok = And(ok, Not(And(port == 0, node == k.N)), Not(And(port == 1, node != k.N)))
    if cls == 'GunnsBasicExternalDemand':
        ok = And(ok, Not(And(port == 1, node == k.N)), Not(And(port == 0, node != k.N)))
    return ok


def setport(S, ports, cls='GunnsBasicConductor'):
    k = link(S, cls, ports)
    port, node, verbose = S.int('port', -5, 20), S.int('node', -5, 2000), S.bool('verbose')
    pre = S.snap()
    r = S.call('GunnsBasicLink::setPort', k.this, port, node, S.string(), verbose)
    o = pre(k.nm)
    ok = And(Not(pre(k.this).mNodeMapLocked), allowed(k, o, ports, port, node, cls))
    S.cover('can succeed', ok)
    S.ensure('accepted exactly when unlocked, port and node exist, no other port is on that node (unless ground) and the link type allows it', r == ok)
    for i in range(ports):
        S.ensure('only the accepted port moves [%d]' % i, k.nm[i] == If(And(ok, port == i), node, o[i]))
        S.ensure('the default map is kept [%d]' % i, k.dm[i] == pre(k.dm)[i])
    S.ensure('the solver is told when a port moved', k.this.mAdmittanceUpdate == Or(pre(k.this).mAdmittanceUpdate, disj([k.nm[i] != o[i] for i in range(ports)])))
    inv(S, k, ports)


def user(S, ports, cls='GunnsBasicConductor'):
    k = link(S, cls, ports)
    S.require(And(k.this.mUserPortSetControl >= -1, k.this.mUserPortSetControl <= 3, k.this.mUserPortSelect >= -5, k.this.mUserPortSelect < 20))
    pre = S.snap()
    S.call('GunnsBasicLink::processUserPortCommand', k.this)
    o, t = pre(k.nm), pre(k.this)
    c, port = t.mUserPortSetControl, t.mUserPortSelect
    dflt = If(port == 0, pre(k.dm)[0], If(port == 1, pre(k.dm)[1] if ports > 1 else -1, If(port == 2, pre(k.dm)[2] if ports > 2 else -1, pre(k.dm)[ports - 1])))
    node = If(c == 1, t.mUserPortSelectNode, If(c == 2, k.N, dflt))
    ok = And(c >= 1, Not(t.mNodeMapLocked), allowed(k, o, ports, port, node, cls))
    S.ensure('the command reports its outcome', k.this.mUserPortSetControl == If(c < 1, c, If(ok, 0, -1)))
    for i in range(ports):
        S.ensure('the selected port moves as commanded, no other [%d]' % i, k.nm[i] == If(And(ok, port == i), node, o[i]))
    S.ensure('an executed command is cleared', Implies(c >= 1, And(k.this.mUserPortSelect == -1, k.this.mUserPortSelectNode == -1)))
    S.ensure('the solver is told when a port moved', k.this.mAdmittanceUpdate == Or(t.mAdmittanceUpdate, disj([k.nm[i] != o[i] for i in range(ports)])))
    inv(S, k, ports)


def need(S):
    k = link(S, 'GunnsBasicConductor', 2)
    pre = S.snap()
    r = S.call('GunnsBasicLink::needAdmittanceUpdate', k.this)
    S.ensure('a rebuild is requested once', And(r == pre(k.this).mAdmittanceUpdate, Not(k.this.mAdmittanceUpdate)))


def restart(S, ports):
    k = link(S, 'GunnsBasicConductor', ports)
    pre = S.snap()
    S.call('GunnsBasicLink::restart', k.this)
    o = pre(k.nm)
    for i in range(ports):
        S.ensure('default map kept [%d]' % i, k.dm[i] == pre(k.dm)[i])
        S.ensure('every port returns to its default node, unless the map is locked [%d]' % i, k.nm[i] == If(pre(k.this).mNodeMapLocked, o[i], k.dm[i]))
    S.ensure('the solver is told when a port moved', Implies(disj([k.nm[i] != o[i] for i in range(ports)]), k.this.mAdmittanceUpdate))
    inv(S, k, ports)


def override(S, ports):
    k = link(S, 'GunnsBasicConductor', ports)
    port, v = S.int('port', -5, 20), S.real('value')
    pre = S.snap()
    S.call('GunnsBasicLink::setPortOverride', k.this, port, v)
    for i in range(ports):
        S.ensure('only the given port is overridden [%d]' % i, And(k.ov[i] == Or(port == i, pre(k.ov)[i]), k.pv[i] == If(port == i, v, pre(k.pv)[i])))
    mid = S.snap()
    q = S.int('port2', -5, 20)
    S.call('GunnsBasicLink::resetPortOverride', k.this, q)
    for i in range(ports):
        S.ensure('reset of one or all ports [%d]' % i, k.ov[i] == And(mid(k.ov)[i], q != i, q != -1))
        S.ensure('reset keeps the potential [%d]' % i, k.pv[i] == mid(k.pv)[i])


HARNESSES = [('setPort%d' % p, setport, {'ports': p}) for p in (1, 2, 3, 4)] + \
    [('setPort ' + c, setport, {'ports': 2, 'cls': 'GunnsBasic' + c}) for c in ('ExternalSupply', 'ExternalDemand')] + \
    [('user%d' % p, user, {'ports': p}) for p in (1, 2, 3)] + [('user ' + c, user, {'ports': 2, 'cls': 'GunnsBasic' + c}) for c in ('ExternalSupply', 'ExternalDemand')] + \
    [('need', need), ('override2', override, {'ports': 2}), ('override3', override, {'ports': 3})] + [('restart%d' % p, restart, {'ports': p}) for p in (1, 2, 3)]
