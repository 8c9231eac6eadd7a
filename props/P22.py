"""Order in which a fluid network moves its flows and integrates its nodes."""
import itertools, os
from gcv.api import *
from gcv.lib import *
from props import P09 as L
from props.P20 import name
ID = 'P22'
HEADERS = [os.path.join(os.path.dirname(os.path.abspath(__file__)), 'orchestra.hh')]
INLINE = ['make_GcvLink', 'make_GcvNode']
SOURCES = sorted(set(L.SOURCES + ['core/GunnsBasicFlowOrchestrator.cpp', 'core/GunnsFluidFlowOrchestrator.cpp']))
META = dict(
    title='Network flows move exactly once per step, overflowing nodes in order',
    statement='In every step all links compute their flows before anything moves, then each link transports its flows exactly once and each node integrates exactly once, after every link that flows into it has moved. A link that takes only from nodes that hold enough moves before they integrate; one that takes from an overflowing node moves after that node has integrated, unless a closed loop of overflowing nodes leaves no other way.',
    over=['inputs', 'schedules', 'histories'],
    quant='every direction of flow at every port (none, out, in, both), every set of overflowing nodes, in each of the listed network shapes',
    why='the order depends on the direction of every flow and on which nodes overflow, and a wrong order shows only as mass or energy made or lost in a chain of overflowing nodes; unit tests run one network of three sources in three states',
    files=['core/GunnsFluidFlowOrchestrator.cpp', 'core/GunnsBasicFlowOrchestrator.cpp'],
    mech=[('fluid', 'core/GunnsFluidFlowOrchestrator.cpp update, checkAllComplete, linkSourceNodesReady, nodeInputLinksComplete'), ('basic', 'core/GunnsBasicFlowOrchestrator.cpp update, initialize')],
    note='bounded: networks of up to 3 nodes and the ground with 2 or 3 links of 2 or 3 ports in listed shapes (flow directions and overflows arbitrary). Links and nodes are represented by props/orchestra.hh, which give any flow directions and record when they are called; the flow, transport and integration of the real ones are proved in P06, P07 and P09.')
NONE, SOURCE, SINK, BOTH = 0, 1, 2, 3
LC = 'GcvLink'


def orchestrate(S, kind, nn, topo, both):
    """nn nodes (the last is the ground), links with the given port nodes"""
    dirs = S.enum('PortDirection')
    assert (dirs['NONE'], dirs['SOURCE'], dirs['SINK'], dirs['BOTH']) == (NONE, SOURCE, SINK, BOTH), dirs
    nl = len(topo)
    S.bounded('%d nodes and ground, %d links' % (nn - 1, nl))
    this = S.obj('Gunns%sFlowOrchestrator' % kind, 'this')
    S.dyn(this, 'Gunns%sFlowOrchestrator' % kind)
    counts(S, this, nl, nn)
    clock = S.obj('GcvClock', 'clock')
    S.set(clock, 'now', 0)
    la, na = S.arr('GunnsBasicLink*', nl, 'links'), S.arr('GunnsBasicNode*', nn, 'nodes')
    maps, ports, dira = S.arr('int*', nl, 'maps'), S.arr('int', nl, 'numPorts'), S.arr('int*', nl, 'dirs')
    links, nodes = [], []
    for i, t in enumerate(topo):
        l = S.obj('GcvLink', 'link%d' % i)
        S.dyn(l, 'GcvLink')
        S.bind(la, i, l)
        S.bind(l, 'mClock', clock)
        m, d = S.arr('int', len(t), 'map%d' % i), S.arr('int', len(t), 'dir%d' % i)
        for p, n in enumerate(t):
            S.write(m, p, n)
        S.bind(maps, i, m)
        S.bind(dira, i, d)
        S.bind(l, 'mPortDirections', d)
        S.write(ports, i, len(t))
        for f, v in (('mNumPorts', len(t)), ('mComputes', 0), ('mMoves', 0)):
            S.set(l, f, v)
        links.append(l)
    for j in range(nn):
        n = S.obj('GcvNode', 'node%d' % j)
        S.dyn(n, 'GcvNode')
        S.bind(na, j, n)
        S.bind(n, 'mClock', clock)
        S.set(n, 'mIntegrations', 0)
        S.set(n, 'mJudged', 0)
        nodes.append(n)
    S.bind(this, 'mLinks', la)
    S.bind(this, 'mNodes', na)
    S.bind(this, 'mLinkNodeMaps', maps)
    S.bind(this, 'mLinkNumPorts', ports)
    S.bind(this, 'mLinkPortDirections', dira)
    if kind == 'Fluid':
        S.bind(this, 'mLinkStates', S.arr('bool', nl, 'linkStates'))
        S.bind(this, 'mNodeStates', S.arr('int', nn, 'nodeStates'))
    over = [n.mOver for n in nodes[:-1]]
    # the flow of each port once computed
    flow = [[l.mFlow[p] for p in range(len(t))] for l, t in zip(links, topo)]
    for f in flow:
        S.require(conj([And(x >= 0, x <= (3 if both else 2)) for x in f]))
        if not both:
            S.require(Or(conj([x == NONE for x in f]), And(f[0] == SOURCE, conj([x == SINK for x in f[1:]])), And(f[0] == SINK, conj([x == SOURCE for x in f[1:]]))))

    def takes(i, j):
        return disj([Or(flow[i][p] == SOURCE, flow[i][p] == BOTH) for p in range(len(topo[i])) if topo[i][p] == j])

    def gives(i, j):
        return disj([Or(flow[i][p] == SINK, flow[i][p] == BOTH) for p in range(len(topo[i])) if topo[i][p] == j])
    S.call('Gunns%sFlowOrchestrator::update' % kind, this, S.real('dt', 0, 100))
    real = nodes[:-1]
    S.ensure('every link computes its flows once', conj([l.mComputes == 1 for l in links]))
    S.ensure('every node integrates once, the ground never', And(conj([n.mIntegrations == 1 for n in real]), nodes[-1].mIntegrations == 0))
    comp, moved, done = [l.mComputed for l in links], [l.mMoved for l in links], [n.mIntegrated for n in real]
    if kind == 'Basic':
        S.ensure('nodes integrate after all flows are computed', conj([a < b for a in comp for b in done]))
        return
    S.ensure('every link moves its flows once', conj([l.mMoves == 1 for l in links]))
    S.ensure('flows move and nodes integrate after all flows are computed', conj([a < b for a in comp for b in moved + done]))
    S.ensure('overflow is judged on all computed flows, before any moves', conj([And(n.mJudged > c, n.mJudged < x) for n in real for c in comp for x in moved + done]))
    S.ensure('a node integrates after every link that flows into it', conj([Implies(gives(i, j), moved[i] < done[j]) for i in range(nl) for j in range(nn - 1)]))
    S.ensure('a link that waits for no node takes the content before the node integrates', conj([Implies(And(takes(i, j), Not(disj([And(takes(i, k), over[k]) for k in range(nn - 1)]))), moved[i] < done[j]) for i in range(nl) for j in range(nn - 1)]))

    def waits(i, t):
        """link i takes from an overflowing node that has not integrated by then"""
        return disj([And(takes(i, j), over[j], done[j] > t) for j in range(nn - 1)])

    def stuck(t):
        return And(conj([Or(moved[i] < t, waits(i, t)) for i in range(nl)]), conj([Or(done[j] < t, disj([And(gives(i, j), moved[i] >= t) for i in range(nl)])) for j in range(nn - 1)]))
    S.ensure('a link waits for the overflowing nodes it takes from unless nothing else can proceed', conj([Implies(waits(i, moved[i]), stuck(moved[i])) for i in range(nl)]))


def counts(S, this, n, m):
    for f, v in (('mNumLinks', n), ('mNumNodes', m)):
        c = S.arr('int', 1, f)
        S.write(c, 0, v)
        S.bind(this, f, c)


def initialize(S, kind):
    nn, topo = 3, ((0, 1), (1, 2, 0))
    S.bounded('2 nodes and ground, 2 links')
    this = S.obj('Gunns%sFlowOrchestrator' % kind, 'this')
    S.dyn(this, 'Gunns%sFlowOrchestrator' % kind)
    counts(S, this, 2, nn)
    la, na, maps, ports = S.arr('GunnsBasicLink*', 2, 'links'), S.arr('GunnsBasicNode*', nn, 'nodes'), S.arr('int*', 2, 'maps'), S.arr('int', 2, 'numPorts')
    ds = []
    for i, t in enumerate(topo):
        l = S.obj(LC, 'link%d' % i)
        d = S.arr('int', len(t), 'dir%d' % i)
        S.bind(l, 'mPortDirections', d)
        S.bind(la, i, l)
        ds.append(d)
    if S.mode == 'con':
        raise Reject()
    nm, empty = name(S)
    S.require(Not(empty))
    S.call('Gunns%sFlowOrchestrator::initialize' % kind, this, nm, la, na, maps, ports)
    S.ensure('works on the links, nodes, node maps and ports given', And(S.same(this.mLinks, la), S.same(this.mNodes, na), S.same(this.mLinkNodeMaps, maps), S.same(this.mLinkNumPorts, ports), this.mInitFlag == True))
    S.ensure('reads the flow directions of each link where the link keeps them', conj([S.same(this.mLinkPortDirections[i], ds[i]) for i in range(2)]))


def validate(S):
    this = S.obj('GunnsBasicFlowOrchestrator', 'this')
    n, m = S.int('number of links', -5, 1000), S.int('number of nodes', -5, 1000)
    counts(S, this, n, m)
    bad = Or(n < 1, m < 1)
    for f, c in (('mLinks', 'GunnsBasicLink*'), ('mNodes', 'GunnsBasicNode*'), ('mLinkNodeMaps', 'int*'), ('mLinkNumPorts', 'int')):
        b = S.bool('no ' + f)
        S.bind_if(this, f, Not(b), S.arr(c, 1, f), None)
        bad = Or(bad, b)
    S.call('GunnsBasicFlowOrchestrator::validate', this, may_throw=True)
    S.ensure('refuses a network without links, nodes or their maps, and no other', B(S.threw) == bad)


T2 = [((0, 1), (0, 1)), ((0, 1), (1, 0)), ((0, 1), (1, 2)), ((1, 2), (0, 1)), ((0, 2), (1, 2))]
T3 = [((0, 1), (1, 2), (2, 0)), ((1, 2), (0, 1), (2, 3)), ((0, 1), (1, 2), (2, 3)), ((0, 3), (0, 1, 2), (1, 2))]


def harnesses(tier):
    h = [('basic order', orchestrate, ('Basic', 3, T2[2], True)), ('basic initialize', initialize, ('Basic',)), ('fluid initialize', initialize, ('Fluid',)), ('validate', validate)]
    for t in T2:
        h.append(('two links %s' % (t,), orchestrate, ('Fluid', 3, t, True)))
    for t in T3:
        h.append(('three links %s' % (t,), orchestrate, ('Fluid', 4, t, False)))
    if tier == 'thorough':
        pairs = list(itertools.combinations(range(4), 2))
        for t in itertools.product(pairs, pairs):
            h.append(('thorough, two links %s' % (t,), orchestrate, ('Fluid', 4, t, True)))
        for t in itertools.product(pairs, [(0, 1), (1, 2), (2, 3)], [(1, 2), (0, 2)]):
            h.append(('thorough, three links %s' % (t,), orchestrate, ('Fluid', 4, t, False)))
    return h
