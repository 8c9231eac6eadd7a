"""Builders for the object graphs that most contracts need (links on nodes)."""
from .api import *


def link(S, cls, ports=2, name='this', ncls='GunnsBasicNode', valid=True, amap=True, nodes=None, nn=None, vectors=True):
    """a link of class cls in an arbitrary valid state on an arbitrary number of nodes.
    Returns a namespace: this, nm (node map), nodes, N (index of the ground node), pv, sv, am, ov, pd, mp"""
    class K:
        pass
    k = K()
    this = k.this = S.obj(cls, name)
    S.dyn(this, cls)
    pre = '' if name == 'this' else name + '.'
    if nodes is None:
        N = S.int(pre + 'ground', 1, 1000)
        nodes = S.arr(ncls, N + 1, pre + 'nodes')
        S.dyn(nodes[0], ncls)
        nl = S.obj('GunnsNodeList', pre + 'nodeList')
        S.set(nl, 'mNumNodes', N + 1)
        S.bind(nl, 'mNodes', nodes)
        k.nodelist = nl
    else:
        N, nl = nn
        k.nodelist = nl
    k.N, k.nodes = N, nodes
    S.bind(this, 'mNodeList', nl)
    S.set(this, 'mNumPorts', ports)
    k.nm = S.arr('int', ports, pre + 'nm')
    k.dm = S.arr('int', ports, pre + 'defaultMap')
    S.bind(this, 'mNodeMap', k.nm)
    S.bind(this, 'mDefaultNodeMap', k.dm)
    for i in range(ports):
        for m in (k.nm, k.dm):
            S.require(And(m[i] >= 0, m[i] <= N))
            for j in range(i):
                S.require(Or(m[i] != m[j], m[i] == N))
    np_ = S.arr(ncls + '*', ports, pre + 'nodePtrs')
    for i in range(ports):
        S.bind(np_, i, nodes[k.nm[i]])
    k.np = np_
    S.bind(this, 'mNodes', np_)
    k.pv = S.arr('double', ports, pre + 'p')
    k.sv = S.arr('double', ports, pre + 'w')
    k.am = S.arr('double', ports * ports, pre + 'A')
    k.ov = S.arr('bool', ports, pre + 'override')
    k.pd = S.arr('int', ports, pre + 'portDir')
    for f, v in (('mPotentialVector', k.pv), ('mSourceVector', k.sv), ('mAdmittanceMatrix', k.am), ('mOverrideVector', k.ov), ('mPortDirections', k.pd)):
        S.bind(this, f, v)
    if amap:
        k.mp = S.arr('int', ports * ports, pre + 'map')
        S.bind(this, 'mAdmittanceMap.mMap', k.mp)
        S.set(this, 'mAdmittanceMap.mSize', ports * ports)
        for f in map_ok(k, k.nm, k.mp, ports):
            S.require(f)
    S.set(this, 'mInitFlag', True)
    return k


def map_ok(k, nm, mp, ports):
    out = []
    for a in range(ports):
        for b in range(ports):
            out.append(mp[a * ports + b] == If(Or(nm[a] == k.N, nm[b] == k.N), -1, nm[a] * k.N + nm[b]))
    return out


def nodes_ok(S, k, ports):
    """well-formed port map of a link: what every operation has to preserve"""
    out = []
    for i in range(ports):
        out.append(('port %d is on an existing node' % i, And(k.nm[i] >= 0, k.nm[i] <= k.N)))
        for j in range(i):
            out.append(('ports %d and %d do not share a node' % (j, i), Or(k.nm[i] != k.nm[j], k.nm[i] == k.N)))
        out.append(('port %d points to the node it is mapped to' % i, S.same(k.this.mNodes[i], k.nodes[k.nm[i]])))
    return out


FITS = ['Density', 'Viscosity', 'SpecificHeat', 'ThermalConductivity', 'PrandtlNumber', 'AdiabaticIndex', 'Pressure']


class Fluids:
    """n constituents with arbitrary properties. The correlations are uninterpreted functions of (temperature, pressure), one
    set per constituent; the specific heat is the linear fit that the library requires"""
    def __init__(self, S, n, heat=True, phase=0):
        self.S, self.n = S, n
        self.props, self.fits = [], []
        ph = S.choice('phase', [0, 1, 2]) if phase is None else phase
        for i in range(n):
            p = S.obj('FluidProperties', 'props%d' % i)
            S.require(p.mMWeight > 0)
            S.require(And(p.mMWeight >= D(0.5), p.mMWeight <= 500))
            f = {}
            for nm in FITS:
                a = f[nm] = S.obj('LinearFit', 'fit%s%d' % (nm, i))
                S.dyn(a, 'LinearFit')
                S.require(And(a.mMinX >= 0, a.mMinX < a.mMaxX, a.mMinY <= 0, a.mMaxY > 0))
                S.bind(p, 'm' + nm, a)
            self.props.append(p)
            self.fits.append(f)
        if S.mode == 'sym':
            for nm in FITS:
                if nm != 'SpecificHeat':
                    S.use('FluidProperties::get' + nm, lambda K, this, x, y, nm=nm: self._uf(K, nm, this, x, y))

    def _uf(self, K, nm, this, x, y):
        from .exec import uf, RS
        out = None
        for c, t in this._p.alts:
            v = uf('%s.%s' % (nm, t[0].name), RS, RS, RS)(R(x), R(y))
            out = v if out is None else If(B(c), v, out)
        return out

    def get(self, nm, i, x, y):
        """value of a correlation of constituent i"""
        from .exec import uf, RS
        if nm != 'SpecificHeat' and self.S.mode == 'sym':
            return uf('%s.props%d' % (nm, i), RS, RS, RS)(R(x), R(y))
        f = self.fits[i][nm]
        return f.mA + f.mB * clamp(x, f.mMinX, f.mMaxX)

    def mw(self, i):
        return self.props[i].mMWeight

    def fluid(self, name, inv=True, obj=None):
        """a mixture object in an arbitrary state; inv: its mass state is consistent (class invariant)"""
        S, n = self.S, self.n
        f = obj
        if f is None:
            f = S.obj('PolyFluid', name)
        c = S.arr('Constituent', n, name + '.constituents')
        S.bind(f, 'mConstituents', c)
        S.set(f, 'mNConstituents', n)
        S.bind(f, 'mTraceCompounds', None)
        for i in range(n):
            S.bind(S.addr_at(c, i), 'mFluid.mProperties', self.props[i])
            S.set(S.addr_at(c, i), 'mType', i)
            S.dyn(S.addr_at(c, i), 'Constituent')
        return f
