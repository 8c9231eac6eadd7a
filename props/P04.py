"""Islands: disconnected parts of the network."""
from gcv.api import *
from props.P03 import network, W
from props import P02
ID = 'P04'
LEVEL = 'other'
SOURCES = P02.SOURCES
META = dict(
    title='Islands are exactly the disconnected parts of the network',
    statement='With island mode on, two nodes are in the same island exactly when a chain of nonzero matrix terms connects them; every node is in exactly one island, each node refers to the list of its own island, lists are in node order, and the island count and largest size agree with the lists. Solving island by island leaves the same decomposition and solution as solving the network in one piece.',
    over=['inputs', 'configurations'], quant='all symmetric matrices (every connection pattern and value) and prior island states, for the bounded network sizes',
    why='The number of connection patterns is exponential in the number of nodes; unit tests try a few hand-made matrices.',
    files=['core/Gunns.cpp', 'core/GunnsBasicNode.cpp'],
    mech=[('Gunns::buildIslands, mergeIslands', 'core/Gunns.cpp'), ('Gunns::buildAndSolveSystem', 'core/Gunns.cpp'), ('GunnsBasicNode::setIslandVector', 'core/GunnsBasicNode.cpp')],
    note='Real code including the std::vector operations; 2 to 4 nodes for the partition, 2 and 3 for the decomposition (bounded). The vectors start with enough capacity, so that no reallocation happens; values of earlier steps in them are arbitrary.')
VI = 'std::vector<int, std::allocator<int> >'
OFF, FIND, SOLVE = 0, 1, 2


def islands_of(S, net, N):
    iv = S.vec(net, 'mIslandVectors', VI, N, 'islandVectors')
    return iv, [S.vec(S.addr_at(iv, i), '_M_impl._M_start', 'int', N, 'island%d' % i) for i in range(N)]


def connected(a, N):
    """transitive closure of the nonzero pattern"""
    r = [[a[i][j] != 0 if i != j else z3.BoolVal(True) for j in range(N)] for i in range(N)]
    for k in range(N):
        r = [[Or(r[i][j], And(r[i][k], r[k][j])) for j in range(N)] for i in range(N)]
    return r


def islands(S, N):
    S.bounded('%d nodes' % N)
    net, nodes, links = network(S, N, 1, 2)
    S.set(net, 'mIslandMode', FIND)
    A = [[net.mAdmittanceMatrix[i * N + j] for j in range(N)] for i in range(N)]
    S.require(conj([A[i][j] == A[j][i] for i in range(N) for j in range(i)]))
    iv, lists = islands_of(S, net, N)
    S.call('Gunns::buildIslands', net)
    conn = connected(A, N)
    num = net.mNodeIslandNumbers
    one = lambda c: If(c, 1, 0)
    total, count, biggest = 0, 0, 0
    for i in range(N):
        for j in range(i):
            S.ensure('nodes are in the same island exactly when connected', (num[i] == num[j]) == conn[i][j])
        S.ensure('an island is named after its first node', And(num[i] >= 0, num[i] <= i, Implies(conj([Not(conn[i][j]) for j in range(i)]), num[i] == i)))
        # the list of island i
        size = z3.Sum([one(num[j] == i) for j in range(N)])
        v = iv[i]._M_impl
        S.ensure('the list of an island has one entry per node in it', size * 4 == S.distance(v._M_start, v._M_finish))
        for j in range(N):
            pos = z3.Sum([IntVal(0)] + [one(num[k] == i) for k in range(j)])
            S.ensure('the list of an island holds its nodes in order', Implies(num[j] == i, lists[i][pos] == j))
            S.ensure('a node refers to the list of its island', Implies(num[j] == i, S.same(nodes[j].mIslandVector, iv[i])))
        count = count + one(size > 0)
        biggest = If(size > biggest, size, biggest)
    S.ensure('number of islands', net.mIslandCount == count)
    S.ensure('size of the largest island', net.mIslandMaxSize == biggest)
    for i in range(N):
        for j in range(N):
            S.ensure('the matrix is only read', net.mAdmittanceMatrix[i * N + j] == A[i][j])


def ldl(m, N):
    """the matrix whose decomposition is held in m"""
    L = lambda i, k: 1 if i == k else m[i * N + k]
    return [[z3.Sum([RealVal(0)] + [L(i, k) * m[k * N + k] * L(j, k) for k in range(min(i, j) + 1)]) for j in range(N)] for i in range(N)]


def solve(S, N, links_n, pattern):
    """SOLVE mode from any prior solver state: same decomposition, hence same solution, as the network in one piece"""
    S.bounded('%d nodes, %d links, couplings %s' % (N, links_n, pattern or 'none'))
    maps = None
    if N == 3:
        maps = (pattern + [(i, N) for i in range(N) if not any(i in e for e in pattern)] + [(0, N)])[:links_n]
    net, nodes, links = network(S, N, links_n, 2, maps=maps)
    S.set(net, 'mIslandMode', SOLVE)
    S.set(net, 'mLastIslandMode', SOLVE)
    S.set(net, 'mRebuild', True)
    S.require(net.mLastDecomposition < net.mDecompositionLimit)
    for l in links:
        S.require(l.mAdmittanceMatrix[1] == l.mAdmittanceMatrix[2])
    islands_of(S, net, N)
    A0, _ = P02.sums(links, N, [l.mAdmittanceMatrix for l in links], [l.mSourceVector for l in links])
    for i in range(N):
        for j in range(i):
            S.require((A0[i][j] != 0) if (j, i) in pattern else (A0[i][j] == 0))
    o = S.snap()
    S.call('Gunns::buildAndSolveSystem', net, 1, S.real('dt', 0.001, 10), may_throw=True)
    ok = Not(S.threw)
    S.cover('solved', ok)
    A, w = P02.sums(links, N, [o(l).mAdmittanceMatrix for l in links], [o(l).mSourceVector for l in links])
    C = P02.conditioned(A)
    m = net.mAdmittanceMatrix
    B_ = ldl(m, N)
    for i in range(N):
        for j in range(i + 1):
            S.ensure('decomposition of the whole system [%d,%d]' % (i, j), Implies(ok, B_[i][j] == C[i][j]))
            S.ensure('both triangles agree', Implies(ok, m[i * N + j] == m[j * N + i]))
    if N == 2:
        x = P02.ldu_solve(m, w)
        for i in range(N):
            S.ensure('potentials by substitution through it [%d]' % i, Implies(ok, net.mPotentialVector[i] == P02.clean(x[i])))


HARNESSES = [('islands%d' % n, islands, {'N': n}) for n in (2, 3, 4)] + \
    [('solve2 apart', solve, {'N': 2, 'links_n': 2, 'pattern': []}), ('solve2 joined', solve, {'N': 2, 'links_n': 1, 'pattern': [(0, 1)]})] + \
    [('solve3 %s' % ''.join('%d%d ' % e for e in pat), solve, {'N': 3, 'links_n': 3, 'pattern': pat}) for pat in ([], [(0, 1)], [(0, 2)], [(1, 2)], [(0, 1), (1, 2)], [(0, 2), (1, 2)], [(0, 1), (0, 2)])]
