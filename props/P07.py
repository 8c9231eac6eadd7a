"""Fluid mixtures and fluid nodes."""
from gcv.api import *
from gcv.lib import *
ID = 'P07'
LEVEL = 'other'
SOURCES = ['aspects/fluid/fluid/PolyFluid.cpp', 'aspects/fluid/fluid/MonoFluid.cpp', 'core/GunnsFluidUtils.cpp', 'core/GunnsFluidNode.cpp', 'core/GunnsBasicNode.cpp', 'ms-utils/properties/FluidProperties.cpp',
           'ms-utils/math/approximation/TsApproximation.cpp', 'ms-utils/math/approximation/LinearFit.cpp', 'aspects/fluid/fluid/GunnsFluidTraceCompounds.cpp']
HEADERS = ['aspects/fluid/fluid/PolyFluid.hh']
INLINE = ['PolyFluid::setMole']
META = dict(
    title='Fluid mixtures and nodes conserve mass, species and energy',
    statement='A fluid mixture (PolyFluid) keeps mass, moles, molecular weight, mass and mole fractions of its constituents mutually consistent (fractions sum to one) through every way of setting or merging it, and merging streams conserves mass, each constituent and enthalpy flow; bad fractions, indexes or volumes are refused without changing the fluid. A fluid node adds up what flows in and, on integration, removes no more than the content and then the inflow can supply, conserving the mass of every constituent and the energy (less what the thermal damping mass takes and the expansion work). Compression, thermal expansion and pressure correction of a node are the moles displaced by the change of volume, of temperature, and the pressure error of the mass in the volume, each accounted for once.',
    over=['inputs', 'histories'],
    quant='every mixture of 1 to 3 constituents (1 to 2 in nodes) with any composition, mass, temperature, pressure and property correlations; every flow rate, time step and schedule of inflow and outflow, from no flow to more than the node holds',
    why='unit tests push two or three hand-picked mixtures and flows through each function and compare with recorded numbers; conservation has to hold for every composition, for streams far smaller than the content, for outflow that exceeds the content, and step after step',
    files=['aspects/fluid/fluid/PolyFluid.cpp', 'core/GunnsFluidNode.cpp', 'core/GunnsFluidUtils.cpp', 'ms-utils/properties/FluidProperties.cpp'],
    mech=[('mixture state', 'aspects/fluid/fluid/PolyFluid.cpp PolyFluid::setMassAndMassFractions, updateMass, addState, computeTemperature'),
          ('node integration', 'core/GunnsFluidNode.cpp GunnsFluidNode::integrateFlows, collectInflux, computeCompression'),
          ('mixing of masses', 'core/GunnsFluidUtils.cpp GunnsFluidUtils::mixFluidMasses')],
    note='bounded: 1 to 3 constituents (1 to 2 in nodes), no trace compounds; every composition, flow and time step is covered. Real arithmetic stands for floating point; densities and transport correlations of the constituents are uninterpreted; in the node contracts temperature and enthalpy are related by uninterpreted functions (their inverse relation is proved separately on computeTemperature).')
EPS = 2.220446049250313e-16
FEPS = 1.1920928955078125e-07
MW_MIN, MW_MAX = 0.5, 500


def allof(n, fn):
    return conj([fn(i) for i in range(n)])


def sum_(n, fn):
    return sum([fn(i) for i in range(n)][1:], fn(0))


def consistent(F, f):
    """the mole state follows from the mass state"""
    n, c = F.n, f.mConstituents
    m = sum_(n, lambda i: c[i].mMassFraction / F.mw(i))
    out = [('mass fractions sum to one', sum_(n, lambda i: c[i].mMassFraction) == 1),
           ('mole fractions are the mass fractions over molecular weight', allof(n, lambda i: c[i].mMoleFraction * m == c[i].mMassFraction / F.mw(i))),
           ('mole fractions sum to one', sum_(n, lambda i: c[i].mMoleFraction) == 1),
           ('molecular weight of the mixture', f.mMWeight * m == 1),
           ('moles times molecular weight is mass', f.mMole * f.mMWeight == f.mMass)]
    out += [('constituent masses are the fractions of the mass', allof(n, lambda i: And(c[i].mFluid.mMass == c[i].mMassFraction * f.mMass, c[i].mFluid.mMole * F.mw(i) == c[i].mFluid.mMass)))]
    return out


def mk(S, n, **kw):
    S.bounded('%d fluid constituent%s' % (n, 's' if n > 1 else ''))
    F = Fluids(S, n, **kw)
    f = F.fluid('this')
    return F, f


def assume_ok(S, F, f):
    """class invariant of a mixture holding mass"""
    for nm, e in consistent(F, f):
        S.require(e)
    S.require(allof(F.n, lambda i: f.mConstituents[i].mMassFraction >= 0))
    S.require(And(f.mMass >= 0, f.mMWeight >= D(MW_MIN), f.mMWeight <= D(MW_MAX)))


def keep(S, o, f, names):
    S.ensure('only the mass state changes', conj([getattr(f, x) == getattr(o(f), x) for x in names]))


def set_fractions(S, n, mole):
    F, f = mk(S, n)
    total = S.real('total', 0, 1e9)
    fr = S.arr('double', n, 'fractions')
    S.require(allof(n, lambda i: fr[i] >= 0))
    o = S.snap()
    S.call('PolyFluid::' + ('setMoleAndMoleFractions' if mole else 'setMassAndMassFractions'), f, total, fr, may_throw=True)
    one = sum_(n, lambda i: o(fr)[i])
    err = abs_(1 - one)
    S.ensure('fractions that do not add up to one are refused', S.threw == (err > D(1e-4)))
    c = f.mConstituents
    S.ensure('a refused mixture leaves the fluid as it was', Implies(S.threw, conj([f.mMass == o(f).mMass, f.mMole == o(f).mMole] + [c[i].mMassFraction == o(c)[i].mMassFraction for i in range(n)])))
    if S.mode == 'con' and z3.is_true(S.threw):
        raise Reject()
    if S.mode == 'sym':
        S.st.pc += (Not(S.threw),)
    norm = lambda i: If(err > D(FEPS), o(fr)[i] / one, o(fr)[i])
    if mole:
        S.ensure('moles as set', f.mMole == total)
        S.ensure('mole fractions as set, normalised', allof(n, lambda i: c[i].mMoleFraction == norm(i)))
        mw = sum_(n, lambda i: norm(i) * F.mw(i))
        S.ensure('molecular weight is the mean over the moles', f.mMWeight == mw)
        S.ensure('mass is moles times molecular weight', f.mMass == total * mw)
        S.ensure('mass fractions follow from the mole fractions', allof(n, lambda i: c[i].mMassFraction * mw == norm(i) * F.mw(i)))
        S.ensure('mass fractions sum to one', sum_(n, lambda i: c[i].mMassFraction) == 1)
        S.ensure('constituent masses', allof(n, lambda i: And(c[i].mFluid.mMass == c[i].mMassFraction * f.mMass, c[i].mFluid.mMole * F.mw(i) == c[i].mFluid.mMass)))
    else:
        m = sum_(n, lambda i: norm(i) / F.mw(i))
        S.ensure('mass as set', f.mMass == total)
        S.ensure('mass fractions as set, normalised', allof(n, lambda i: c[i].mMassFraction == norm(i)))
        S.ensure('molecular weight is the harmonic mean over the mass', f.mMWeight * m == 1)
        S.ensure('moles are mass over molecular weight', f.mMole == total * m)
        S.ensure('mole fractions follow from the mass fractions', allof(n, lambda i: c[i].mMoleFraction * m == norm(i) / F.mw(i)))
        S.ensure('mole fractions sum to one', sum_(n, lambda i: c[i].mMoleFraction) == 1)
        S.ensure('constituent masses', allof(n, lambda i: And(c[i].mFluid.mMass == c[i].mMassFraction * f.mMass * (1 if True else 0), c[i].mFluid.mMole * F.mw(i) == c[i].mFluid.mMass)))
    S.ensure('constituent flow rates follow the mass fractions', allof(n, lambda i: c[i].mFluid.mFlowRate == c[i].mMassFraction * f.mFlowRate))
    S.ensure('temperature, pressure and flow rate kept', And(f.mTemperature == o(f).mTemperature, f.mPressure == o(f).mPressure, f.mFlowRate == o(f).mFlowRate))


def set_total(S, n, what):
    F, f = mk(S, n)
    c = f.mConstituents
    v = S.real('total', 0, 1e9)
    assume_ok(S, F, f)
    o = S.snap()
    S.call('PolyFluid::setMass(double)' if what == 'Mass' else 'PolyFluid::setMole', f, v)
    S.ensure('the total is as set', (f.mMass if what == 'Mass' else f.mMole) == v)
    for nm, e in consistent(F, f):
        S.ensure(nm, e)
    S.ensure('composition kept', allof(n, lambda i: And(c[i].mMassFraction == o(c)[i].mMassFraction, c[i].mMoleFraction == o(c)[i].mMoleFraction)))


def set_each(S, n):
    """constituent masses are set one by one, then the mixture is updated"""
    F, f = mk(S, n)
    c = f.mConstituents
    ms = [S.real('mass%d' % i, 0, 1e9) for i in range(n)]
    S.require(sum_(n, lambda i: ms[i]) > D(1e-9))
    for i in range(n):
        S.call('PolyFluid::setMass(int, double)', f, i, ms[i])
    S.call('PolyFluid::updateMass', f)
    S.ensure('total mass is the sum', f.mMass == sum_(n, lambda i: ms[i]))
    S.ensure('mass fractions are the ratios', allof(n, lambda i: c[i].mMassFraction * f.mMass == ms[i]))
    for nm, e in consistent(F, f):
        S.ensure(nm, e)


def bad_index(S):
    F, f = mk(S, 2)
    i = S.int('index')
    o = S.snap()
    S.call('PolyFluid::setMass(int, double)', f, i, S.real('m'), may_throw=True)
    S.ensure('an index outside the mixture is refused', S.threw == Or(i < 0, i >= 2))
    j = S.int('index2')
    r = S.call('PolyFluid::getMassFraction(int) const', f, j, may_throw=True)
    S.ensure('fraction by index', And(S.threw == Or(j < 0, j >= 2), Implies(Not(S.threw), r == If(j == 0, f.mConstituents[0].mMassFraction, f.mConstituents[1].mMassFraction))))


MIX = [('mDensity', 'Density', None), ('mViscosity', 'Viscosity', 'mole'), ('mSpecificHeat', 'SpecificHeat', 'mass'), ('mThermalConductivity', 'ThermalConductivity', 'mass'),
       ('mPrandtlNumber', 'PrandtlNumber', 'mole'), ('mAdiabaticIndex', 'AdiabaticIndex', 'mole')]


def derived(S, F, f, T, pres):
    n, c = F.n, f.mConstituents
    for fld, nm, wt in MIX:
        w = lambda i: 1 if wt is None else c[i].mMoleFraction if wt == 'mole' else c[i].mMassFraction
        S.ensure('%s is the mixture rule of the constituents at their partial pressures' % fld,
                 getattr(f, fld) == sum_(n, lambda i: If(abs_(c[i].mMoleFraction) > D(EPS), F.get(nm, i, T, pres(i)) * w(i), 0)))
    S.ensure('enthalpy is heat capacity times temperature', f.mSpecificEnthalpy == f.mSpecificHeat * T)


def set_temperature(S, n):
    F, f = mk(S, n)
    T = S.real('T', 0, 5000)
    c = f.mConstituents
    o = S.snap()
    S.call('PolyFluid::setTemperature', f, T)
    S.ensure('temperature as set on the mixture and all its constituents', conj([f.mTemperature == T] + [c[i].mFluid.mTemperature == T for i in range(n)]))
    S.ensure('partial pressures', allof(n, lambda i: c[i].mFluid.mPressure == o(f).mPressure * c[i].mMoleFraction))
    derived(S, F, f, T, lambda i: f.mPressure * c[i].mMoleFraction)
    S.ensure('mass state kept', conj([f.mMass == o(f).mMass, f.mMole == o(f).mMole, f.mPressure == o(f).mPressure, f.mFlowRate == o(f).mFlowRate] + [And(c[i].mMassFraction == o(c)[i].mMassFraction, c[i].mMoleFraction == o(c)[i].mMoleFraction, c[i].mFluid.mMass == o(c)[i].mFluid.mMass) for i in range(n)]))


def set_pressure(S, n):
    F, f = mk(S, n)
    P = S.real('P')
    c = f.mConstituents
    o = S.snap()
    S.call('PolyFluid::setPressure', f, P)
    S.ensure('pressure as set', f.mPressure == P)
    S.ensure('density is the sum of the constituent densities at partial pressure', f.mDensity == sum_(n, lambda i: If(abs_(c[i].mMoleFraction) > D(EPS), F.get('Density', i, f.mTemperature, P * c[i].mMoleFraction), 0)))
    S.ensure('mass and temperature kept', And(f.mMass == o(f).mMass, f.mTemperature == o(f).mTemperature, f.mMole == o(f).mMole))


def edit(S, n):
    F, f = mk(S, n)
    T, P = S.real('T'), S.real('P')
    S.call('PolyFluid::edit(double, double)', f, T, P)
    S.ensure('an edit cannot make temperature or pressure negative', And(f.mPressure == max_(P, 0), f.mTemperature == max_(T, 0)))


def edit_partial(S, n):
    F, f = mk(S, n)
    T = S.real('T')
    pp = S.arr('double', n, 'pp')
    c = f.mConstituents
    o = S.snap()
    S.call('PolyFluid::edit(double, double*)', f, T, pp)
    p = sum_(n, lambda i: max_(pp[i], 0))
    S.ensure('total pressure is the sum of the partial pressures', f.mPressure == p)
    S.ensure('temperature', f.mTemperature == max_(T, 0))
    S.ensure('mole fractions are the partial pressure ratios', Implies(p >= D(FEPS), allof(n, lambda i: c[i].mMoleFraction * p == max_(pp[i], 0))))
    S.ensure('moles are kept', f.mMole == o(f).mMole)
    S.ensure('mass is moles times molecular weight', Implies(p >= D(FEPS), f.mMass == f.mMole * f.mMWeight))


def invert(S, n):
    """temperature from enthalpy inverts enthalpy from temperature inside the range of the specific heat fits"""
    F, f = mk(S, n)
    c = f.mConstituents
    T = S.real('T', 1, 5000)
    for i in range(n):
        g = F.fits[i]['SpecificHeat']
        S.require(And(g.mMinX <= T, T <= g.mMaxX))
        S.require(And(c[i].mMassFraction >= D(1e-6), c[i].mMassFraction <= 1))
        # heat content grows with temperature
        S.require(And(g.mA + 2 * g.mB * T > 0, g.mB != 0))
    S.require(sum_(n, lambda i: c[i].mMassFraction * F.fits[i]['SpecificHeat'].mB) != 0)
    h = S.call('PolyFluid::computeSpecificEnthalpy', f, T, S.real('P'))
    S.ensure('enthalpy is the mass-weighted heat capacity times temperature', h == T * sum_(n, lambda i: c[i].mMassFraction * (F.fits[i]['SpecificHeat'].mA + F.fits[i]['SpecificHeat'].mB * T)))
    t = S.call('PolyFluid::computeTemperature', f, h)
    S.ensure('temperature is recovered', t == T)


def set_state(S, n):
    F, f = mk(S, n)
    g = F.fluid('src')
    c, d = f.mConstituents, g.mConstituents
    o = S.snap()
    S.call('PolyFluid::setState', f, g)
    for x in ['mTemperature', 'mPressure', 'mFlowRate', 'mMWeight'] + [m[0] for m in MIX] + ['mSpecificEnthalpy']:
        S.ensure(x + ' copied', getattr(f, x) == getattr(o(g), x))
    S.ensure('composition copied', allof(n, lambda i: And(c[i].mMassFraction == d[i].mMassFraction, c[i].mMoleFraction == d[i].mMoleFraction, c[i].mFluid.mTemperature == d[i].mFluid.mTemperature,
                                                           c[i].mFluid.mPressure == d[i].mFluid.mPressure, c[i].mFluid.mFlowRate == d[i].mFluid.mFlowRate)))
    S.ensure('mass is not copied', And(f.mMass == o(f).mMass, f.mMole == o(f).mMole))
    S.ensure('the source is not changed', conj([g.mTemperature == o(g).mTemperature, g.mFlowRate == o(g).mFlowRate, g.mMass == o(g).mMass]))


def add_state(S, n, default=False):
    """a stream joins this stream"""
    F, f = mk(S, n)
    g = F.fluid('src')
    c, d = f.mConstituents, g.mConstituents
    w = S.real('flow', -1000, 1000)
    if default:
        S.require(w == 0)
        eff = g.mFlowRate
    else:
        S.require(abs_(w) >= D(EPS))
        eff = w
    # both streams are in the same direction and well-formed
    S.require(And(f.mFlowRate >= 0, eff >= D(EPS)))
    S.require(allof(n, lambda i: And(c[i].mMassFraction >= 0, d[i].mMassFraction >= 0, c[i].mFluid.mFlowRate == c[i].mMassFraction * f.mFlowRate, d[i].mFluid.mFlowRate == d[i].mMassFraction * g.mFlowRate)))
    S.require(allof(n, lambda i: Or(d[i].mMassFraction == 0, d[i].mMassFraction >= D(EPS))))
    S.require(sum_(n, lambda i: d[i].mMassFraction) == 1)
    S.require(Or(f.mFlowRate == 0, sum_(n, lambda i: c[i].mMassFraction) == 1))
    t = S.use('PolyFluid::computeTemperature', lambda K, this, h: K.ex and uf_('T', h)) if S.mode == 'sym' else None
    o = S.snap()
    S.call('PolyFluid::addState', f, g, w)
    tot = o(f).mFlowRate + eff
    S.ensure('flow rates add', f.mFlowRate == tot)
    S.ensure('each constituent flow adds', allof(n, lambda i: c[i].mFluid.mFlowRate == o(c)[i].mFluid.mFlowRate + eff * d[i].mMassFraction))
    S.ensure('mass fractions are the flow ratios', allof(n, lambda i: c[i].mMassFraction * tot == c[i].mFluid.mFlowRate))
    S.ensure('mass fractions sum to one', sum_(n, lambda i: c[i].mMassFraction) == 1)
    S.ensure('enthalpy flow is conserved', f.mSpecificEnthalpy * tot == o(f).mSpecificEnthalpy * o(f).mFlowRate + g.mSpecificEnthalpy * eff)
    S.ensure('molecular weight is mass flow over mole flow', f.mMWeight * sum_(n, lambda i: c[i].mFluid.mFlowRate / F.mw(i)) == tot)
    S.ensure('mole fractions sum to one', sum_(n, lambda i: c[i].mMoleFraction) == 1)
    S.ensure('the source is not changed', And(g.mFlowRate == o(g).mFlowRate, allof(n, lambda i: And(d[i].mMassFraction == o(d)[i].mMassFraction, d[i].mFluid.mFlowRate == o(d)[i].mFluid.mFlowRate))))
    if S.mode == 'sym':
        S.ensure('the temperature is that of the mixed enthalpy', f.mTemperature == uf_('T', f.mSpecificEnthalpy))


def uf_(nm, x):
    from gcv.exec import uf, RS
    return uf(nm, RS, RS)(R(x))


def ufn(nm, *x):
    from gcv.exec import uf, RS
    return uf(nm, *([RS] * (len(x) + 1)))(*[R(v) for v in x])


def add_zero(S, n):
    """streams that cancel are refused"""
    F, f = mk(S, n)
    g = F.fluid('src')
    w = S.real('flow', -1000, 1000)
    S.require(abs_(w) >= D(1e-12))
    if S.mode == 'sym':
        S.use('PolyFluid::computeTemperature', lambda K, this, h: uf_('T', h))
    o = S.snap()
    S.call('PolyFluid::addState', f, g, w, may_throw=True)
    S.ensure('a combined flow of nothing is refused', S.threw == (abs_(o(f).mFlowRate + w) < D(EPS)))


def normalize(S, n):
    S.bounded('array of %d' % n)
    a = S.arr('double', n, 'fractions')
    S.require(allof(n, lambda i: And(a[i] >= -1000, a[i] <= 1000)))
    o = S.snap()
    r = S.call('GunnsFluidUtils::normalizeArray', a, n)
    z = lambda i: If(o(a)[i] < D(EPS) * D(EPS), 0, o(a)[i])
    s = sum_(n, z)
    off = abs_(s - 1) > D(FEPS)
    S.ensure('normalisation is reported', r == off)
    S.ensure('negligible and negative fractions are removed and the rest keep their ratios', allof(n, lambda i: If(And(off, s > 0), a[i] * s == z(i), a[i] == z(i))))
    S.ensure('the result sums to one', Implies(s > 0, abs_(sum_(n, lambda i: a[i]) - 1) <= D(FEPS)))
    S.ensure('no fraction is negative', allof(n, lambda i: a[i] >= 0))


def mix(S, n):
    F, f = mk(S, n)
    g = F.fluid('in')
    c, d = f.mConstituents, g.mConstituents
    mo, mi = S.real('outMass', 0, 1e9), S.real('inMass', -1e9, 1e9)
    S.require(allof(n, lambda i: And(c[i].mMassFraction >= 0, d[i].mMassFraction >= 0)))
    S.require(And(sum_(n, lambda i: c[i].mMassFraction) == 1, sum_(n, lambda i: d[i].mMassFraction) == 1))
    # no constituent is overdrawn, and none is left at an amount below the floor
    part = lambda i: mi * o(d)[i].mMassFraction + mo * o(c)[i].mMassFraction
    o = S.snap()
    S.require(allof(n, lambda i: Or(part(i) == 0, part(i) >= D(1e-20) * (mi + mo))))
    S.call('GunnsFluidUtils::mixFluidMasses', f, mo, g, mi, n, may_throw=True)
    S.ensure('mixing to nothing is refused', S.threw == (mi + mo < D(EPS)))
    if S.mode == 'con' and z3.is_true(S.threw):
        raise Reject()
    if S.mode == 'sym':
        S.st.pc += (Not(S.threw),)
    S.ensure('masses add', f.mMass == mi + mo)
    S.ensure('the mass of every constituent is conserved', allof(n, lambda i: c[i].mMassFraction * f.mMass == part(i)))
    S.ensure('constituent masses', allof(n, lambda i: And(c[i].mFluid.mMass == part(i), c[i].mFluid.mMole * F.mw(i) == c[i].mFluid.mMass)))
    S.ensure('the source keeps its composition', allof(n, lambda i: d[i].mMassFraction == o(d)[i].mMassFraction))


HARNESSES = []
for n in (1, 2, 3):
    HARNESSES += [('set_mass_fractions_%d' % n, set_fractions, (n, False)), ('set_mole_fractions_%d' % n, set_fractions, (n, True)), ('set_mass_%d' % n, set_total, (n, 'Mass')), ('set_mole_%d' % n, set_total, (n, 'Mole')),
                  ('set_each_%d' % n, set_each, (n,)), ('set_temperature_%d' % n, set_temperature, (n,)), ('set_pressure_%d' % n, set_pressure, (n,)), ('set_state_%d' % n, set_state, (n,)), ('edit_%d' % n, edit, (n,)),
                  ('normalize_%d' % n, normalize, (n,))]
for n in (1, 2):
    HARNESSES += [('edit_partial_%d' % n, edit_partial, (n,)), ('add_state_%d' % n, add_state, (n,)), ('add_zero_%d' % n, add_zero, (n,)), ('mix_%d' % n, mix, (n,)), ('invert_%d' % n, invert, (n,))]
HARNESSES += [('add_state_default', add_state, (2, True)), ('bad_index', bad_index, ())]


# ---- nodes ----------------------------------------------------------------------------------------------------------------
def node(S, n, inflow=True):
    S.bounded('%d fluid constituent%s in the node' % (n, 's' if n > 1 else ''))
    F = Fluids(S, n, phase=None)
    nd = S.obj('GunnsFluidNode', 'node')
    S.dyn(nd, 'GunnsFluidNode')
    for x in ('mContent', 'mInflow', 'mOutflow'):
        F.fluid('node.' + x, obj=S.addr(nd, x))
    S.set(nd, 'mNumFluidTypes', n)
    assume_ok(S, F, nd.mContent)
    S.require(allof(n, lambda i: nd.mContent.mConstituents[i].mFluid.mFlowRate == nd.mContent.mConstituents[i].mMassFraction * nd.mContent.mFlowRate))
    S.require(nd.mVolume >= 0)
    return F, nd


def inverse(K, this, h):
    # H inverts T: what the harness invert_* proves of computeTemperature and computeSpecificEnthalpy
    t = uf_('T', h)
    K.assume(uf_('H', t) == h)
    return t


def temp_contracts(S):
    """temperature and enthalpy are related by uninterpreted functions here (PolyFluid::computeTemperature has its own contract)"""
    if S.mode == 'sym':
        S.use('PolyFluid::computeTemperature', inverse)


DERIVED = [m[0] for m in MIX]


def mixture_contracts(S, n):
    """the contracts of the mixture operations (each proved above), as the node code sees them"""
    if S.mode != 'sym':
        return
    temp_contracts(S)

    def set_temperature(K, this, T):
        K.assign(this, 'mTemperature', T)
        for x in DERIVED + ['mSpecificEnthalpy']:
            K.havoc(this, x)
        c = this.mConstituents
        for i in range(n):
            K.assign(c[i], 'mFluid.mTemperature', T)
            K.assign(c[i], 'mFluid.mPressure', this.mPressure * c[i].mMoleFraction)

    def set_state(K, this, src):
        for x in ['mTemperature', 'mPressure', 'mFlowRate', 'mMWeight', 'mSpecificEnthalpy'] + DERIVED:
            K.assign(this, x, getattr(src, x))
        c, d = this.mConstituents, src.mConstituents
        for i in range(n):
            for x in ('mMassFraction', 'mMoleFraction', 'mFluid.mTemperature', 'mFluid.mPressure', 'mFluid.mFlowRate'):
                v = d[i]
                for part in x.split('.'):
                    v = getattr(v, part)
                K.assign(c[i], x, v)

    def add_state(K, this, src, w):
        pre = K.snap()
        c, d = this.mConstituents, src.mConstituents
        eff = If(abs_(w) < D(EPS), src.mFlowRate, w)
        tot = this.mFlowRate + eff
        K.require('the combined flow rate is not zero', abs_(tot) >= D(EPS))
        ok = And(this.mFlowRate >= 0, eff >= D(EPS), sum_(n, lambda i: d[i].mMassFraction) == 1, allof(n, lambda i: Or(d[i].mMassFraction == 0, d[i].mMassFraction >= D(EPS))),
                 allof(n, lambda i: And(c[i].mFluid.mFlowRate == c[i].mMassFraction * this.mFlowRate, d[i].mFluid.mFlowRate == d[i].mMassFraction * src.mFlowRate)),
                 allof(n, lambda i: c[i].mMassFraction >= 0), Or(this.mFlowRate == 0, sum_(n, lambda i: c[i].mMassFraction) == 1))
        want = [pre(c)[i].mFluid.mFlowRate + eff * d[i].mMassFraction for i in range(n)]
        h = pre(this).mSpecificEnthalpy * pre(this).mFlowRate + src.mSpecificEnthalpy * eff
        K.assign(this, 'mFlowRate', tot)
        hn = K.havoc(this, 'mSpecificEnthalpy')
        K.assume(Implies(ok, hn * tot == h))
        for x in DERIVED + ['mPressure', 'mMWeight']:
            K.havoc(this, x)
        K.assign(this, 'mTemperature', uf_('T', hn))
        for i in range(n):
            fl = K.havoc(c[i], 'mFluid.mFlowRate')
            mf = K.havoc(c[i], 'mMassFraction')
            K.havoc(c[i], 'mMoleFraction')
            K.havoc(c[i], 'mFluid.mPressure')
            K.assign(c[i], 'mFluid.mTemperature', this.mTemperature)
            K.assume(Implies(ok, And(fl == want[i], mf * tot == fl)))
    def isentropic(K, scale, p1, p2, fluid):
        t = K.fresh_real('isentropic')
        K.assume(Implies(scale == 0, t == fluid.mTemperature))
        return t
    S.use('GunnsFluidUtils::computeIsentropicTemperature', isentropic)
    S.use('PolyFluid::computeSpecificEnthalpy', lambda K, this, *a: K.fresh_real('enthalpy'))
    S.use('PolyFluid::setTemperature', set_temperature)
    S.use('PolyFluid::setState', set_state)
    S.use('PolyFluid::addState', add_state)
    S.use('GunnsFluidNode::computeMassError', lambda K, this: (K.havoc(this, 'mMassError'), None)[1])


def influx(S, n, k):
    """k streams enter a node that was reset: the inflow mixture and heat are their sums"""
    F, nd = node(S, n)
    temp_contracts(S)
    src = [F.fluid('src%d' % j) for j in range(k)]
    w = [S.real('flux%d' % j, 0, 1e6) for j in range(k)]
    for j in range(k):
        d = src[j].mConstituents
        S.require(w[j] >= D(1e-9))
        S.require(And(sum_(n, lambda i: d[i].mMassFraction) == 1, allof(n, lambda i: Or(d[i].mMassFraction == 0, d[i].mMassFraction >= D(1e-9)))))
        S.require(allof(n, lambda i: d[i].mFluid.mFlowRate == d[i].mMassFraction * src[j].mFlowRate))
    S.call('GunnsFluidNode::resetFlows', nd)
    S.ensure('nothing has entered a reset node', And(nd.mInfluxRate == 0, nd.mInflowHeatFlux == 0, nd.mInflow.mFlowRate == 0))
    for j in range(k):
        S.call('GunnsFluidNode::collectInflux(double, PolyFluid const*)', nd, w[j], src[j])
    S.ensure('mass flow in is the sum of the streams', And(nd.mInfluxRate == sum(w[1:], w[0]), nd.mInflow.mFlowRate == nd.mInfluxRate))
    S.ensure('heat flow in is the sum of the streams', nd.mInflowHeatFlux == sum_(k, lambda j: w[j] * src[j].mSpecificEnthalpy))
    S.ensure('the inflow mixture has the heat of the streams', nd.mInflow.mSpecificEnthalpy * nd.mInfluxRate == nd.mInflowHeatFlux)
    S.ensure('each constituent flow in is the sum of the streams', allof(n, lambda i: nd.mInflow.mConstituents[i].mMassFraction * nd.mInfluxRate == sum_(k, lambda j: w[j] * src[j].mConstituents[i].mMassFraction)))


def integrate(S, n, case, damp=None, share=False):
    F, nd = node(S, n)
    mixture_contracts(S, n)
    if share and S.mode == 'sym':
        S.use('PolyFluid::computeSpecificEnthalpy', lambda K, this, T, *a: ufn('hmix', T, *[this.mConstituents[i].mMassFraction for i in range(n)]))
    c, d = nd.mContent, nd.mInflow
    dt = S.real('dt', 0, 100)
    S.require(dt >= D(0.001))
    dc, cc = d.mConstituents, c.mConstituents
    if case != 'none':
        if case == 'in':
            S.require(And(nd.mScheduledOutflux > 0, nd.mScheduledOutflux * dt <= c.mMole))
        elif case == 'fill':
            S.set(nd, 'mScheduledOutflux', 0)
        else:
            S.require(nd.mScheduledOutflux * dt > c.mMole)
    S.require(nd.mThermalDampingMass >= 0 if damp is None else nd.mThermalDampingMass > 0 if damp else nd.mThermalDampingMass == 0)
    S.require(And(nd.mExpansionScaleFactor >= 0, nd.mExpansionScaleFactor <= 1))
    S.require(And(nd.mInfluxRate >= 0, nd.mScheduledOutflux >= 0, nd.mInfluxRate <= D(1e6), nd.mScheduledOutflux <= D(1e6)))
    # the inflow mixture, as collectInflux leaves it
    if case != 'none':
        S.require(nd.mInfluxRate >= D(1e-9))
        S.require(And(sum_(n, lambda i: dc[i].mMassFraction) == 1, allof(n, lambda i: Or(dc[i].mMassFraction == 0, dc[i].mMassFraction >= D(1e-9))), d.mMWeight >= D(MW_MIN), d.mMWeight <= D(MW_MAX), d.mFlowRate == nd.mInfluxRate))
    else:
        S.require(And(nd.mInfluxRate == 0, d.mMWeight == 0, d.mFlowRate == 0, d.mSpecificEnthalpy == 0, nd.mInflowHeatFlux == 0))
        S.require(allof(n, lambda i: dc[i].mMassFraction == 0))
    S.require(nd.mVolume > 0)
    o = S.snap()
    oc, od = o(c), o(d)
    S.call('GunnsFluidNode::integrateFlows', nd, dt)
    sched = nd.mScheduledOutflux * dt
    outC = min_(sched, oc.mMole) * oc.mMWeight
    inM = nd.mInfluxRate * dt
    inN = inM / od.mMWeight if case != 'none' else R(0)
    outI = If(od.mMWeight > D(EPS), min_(inN, sched - min_(sched, oc.mMole)) * od.mMWeight, 0) if case != 'none' else R(0)
    S.ensure('outflow is what was scheduled, as far as the content and then the inflow can supply it', nd.mNetFlux * dt == inM - outC - outI)
    S.ensure('never more leaves than the node holds and receives', And(outC <= oc.mMass, outI <= inM))
    new = oc.mMass + nd.mNetFlux * dt
    S.ensure('mass is conserved', c.mMass == max_(new, D(EPS)))
    E = oc.mMass * oc.mSpecificEnthalpy + nd.mNetHeatFlux * dt
    if share:
        H = ufn('hmix', oc.mTemperature, *[cc[i].mMassFraction for i in range(n)]) if S.mode == 'sym' else S.call('PolyFluid::computeSpecificEnthalpy', c, oc.mTemperature, 0)
        S.ensure('the damping mass takes its share, by mass, of the heat that warms the mixture, less the heat exempt from damping',
                 Implies(And(new >= D(EPS), E >= D(EPS)), nd.mThermalDampingHeat * dt * (new + nd.mThermalDampingMass) == (E - H * new - nd.mUndampedHeatFlux * dt) * nd.mThermalDampingMass))
        return
    part = lambda i: (oc.mMass - outC) * o(cc)[i].mMassFraction + (inM - outI) * o(dc)[i].mMassFraction
    S.ensure('the mass of every constituent is conserved', Implies(And(new >= D(EPS), allof(n, lambda i: Or(part(i) == 0, part(i) >= D(1e-20) * new))), allof(n, lambda i: cc[i].mMassFraction * c.mMass == part(i))))
    if S.mode == 'sym':
        S.ensure('energy is conserved: the new temperature is that of the heat content, the heat held by the damping mass and the expansion work',
                 Implies(And(new >= D(EPS), E >= D(EPS)), uf_('H', c.mTemperature) * new == E - nd.mThermalDampingHeat * dt + (oc.mMass - outC) * nd.mExpansionDeltaT * oc.mSpecificHeat))
    S.ensure('no heat is held without a damping mass', Implies(nd.mThermalDampingMass == 0, nd.mThermalDampingHeat == 0))
    S.ensure('no expansion work without expansion scaling', Implies(nd.mExpansionScaleFactor == 0, nd.mExpansionDeltaT == 0))
    S.ensure('heat flow is what entered less what left', nd.mNetHeatFlux * dt == nd.mInflowHeatFlux * dt - outC * oc.mSpecificEnthalpy - outI * od.mSpecificEnthalpy)
    out = outC + outI
    S.ensure('the outflow mixture has the flow that leaves', Implies(And(outC > D(EPS) * dt, Or(outI == 0, outI > D(EPS) * dt)), nd.mOutflow.mFlowRate * dt == out))
    pure = allof(n, lambda i: Or(o(cc)[i].mMassFraction == 0, o(cc)[i].mMassFraction >= D(EPS)))
    S.ensure('what leaves first has the composition and the heat of the content', Implies(And(outC > D(EPS) * dt, outI == 0, pure), And(allof(n, lambda i: nd.mOutflow.mConstituents[i].mMassFraction == o(cc)[i].mMassFraction), nd.mOutflow.mSpecificEnthalpy == oc.mSpecificEnthalpy)))
    S.ensure('with no outflow the outflow mixture is the content', Implies(out == 0, And(allof(n, lambda i: nd.mOutflow.mConstituents[i].mMassFraction == cc[i].mMassFraction), nd.mOutflow.mTemperature == c.mTemperature)))
    S.ensure('outflow pressure is the content pressure', nd.mOutflow.mPressure == c.mPressure)
    S.ensure('flow through the node is the smaller of flow in and flow out', nd.mFluxThrough == min_(nd.mInfluxRate, nd.mInfluxRate - nd.mNetFlux))


def massless(S, n):
    """a node without volume passes on what enters"""
    F, nd = node(S, n)
    mixture_contracts(S, n)
    c, d = nd.mContent, nd.mInflow
    dc, cc = d.mConstituents, c.mConstituents
    dt = S.real('dt', 0, 100)
    S.require(dt >= D(0.001))
    S.require(nd.mVolume == 0)
    S.require(And(nd.mInfluxRate >= D(1e-9), nd.mInfluxRate <= D(1e6), nd.mScheduledOutflux >= 0, nd.mScheduledOutflux <= D(1e6)))
    S.require(And(sum_(n, lambda i: dc[i].mMassFraction) == 1, allof(n, lambda i: Or(dc[i].mMassFraction == 0, dc[i].mMassFraction >= D(1e-9))), d.mMWeight >= D(MW_MIN), d.mMWeight <= D(MW_MAX), d.mFlowRate == nd.mInfluxRate))
    S.require(And(c.mMass == 0, c.mMole == 0))
    o = S.snap()
    od = o(d)
    S.call('GunnsFluidNode::integrateFlows', nd, dt)
    out = min_(nd.mScheduledOutflux, nd.mInfluxRate / od.mMWeight) * od.mMWeight
    S.ensure('outflow is what is scheduled, limited to what enters', nd.mNetFlux == nd.mInfluxRate - out)
    S.ensure('no mass is held', c.mMass == 0)
    S.ensure('content has the composition and pressure of what entered', And(allof(n, lambda i: cc[i].mMassFraction == o(dc)[i].mMassFraction), c.mPressure == o(c).mPressure))
    if S.mode == 'sym':
        S.ensure('content has the temperature of the heat that entered', c.mTemperature == uf_('T', nd.mInflowHeatFlux / nd.mInfluxRate))
    S.ensure('heat flow is what entered less what left', nd.mNetHeatFlux == nd.mInflowHeatFlux - out * od.mSpecificEnthalpy)


def mass_from_state(S, n):
    """volume and state determine mass; mass, volume and the mixture stay consistent"""
    F, nd = node(S, n)
    v = S.real('volume')
    c = nd.mContent
    o = S.snap()
    S.call('GunnsFluidNode::initVolume', nd, v, may_throw=True)
    S.ensure('a negative volume is refused and changes nothing', And(S.threw == (v < 0), Implies(S.threw, And(nd.mVolume == o(nd).mVolume, c.mMass == o(c).mMass))))
    if S.mode == 'con' and z3.is_true(S.threw):
        raise Reject()
    if S.mode == 'sym':
        S.st.pc += (Not(S.threw),)
    S.ensure('volume as set, with no expansion pending', And(nd.mVolume == v, nd.mPreviousVolume == v))
    S.ensure('mass is density times volume', c.mMass == c.mDensity * v)
    for nm, e in consistent(F, c):
        S.ensure(nm, e)


def setters(S):
    F, nd = node(S, 1)
    v = S.real('v')
    o = S.snap()
    S.call('GunnsFluidNode::setVolume', nd, v, may_throw=True)
    t = o(nd)
    S.ensure('a negative volume is refused', S.threw == (v < 0))
    S.ensure('volume as set, or as it was when refused', nd.mVolume == If(v < 0, t.mVolume, v))
    S.ensure('a change of volume is left for the expansion of the content, unless there was or is none', nd.mPreviousVolume == If(v < 0, t.mPreviousVolume, If(Or(v == 0, t.mPreviousVolume == 0), v, t.mPreviousVolume)))
    S.ensure('mass is kept when the volume changes', Implies(Or(v < 0, And(v > 0, t.mPreviousVolume != 0)), nd.mContent.mMass == t.mContent.mMass))
    S.call('GunnsFluidNode::setExpansionScaleFactor', nd, v, may_throw=True)
    S.ensure('expansion scale factor in [0, 1]', And(S.threw == Or(v < 0, v > 1), nd.mExpansionScaleFactor == If(Or(v < 0, v > 1), t.mExpansionScaleFactor, v)))
    S.call('GunnsFluidNode::setThermalDampingMass', nd, v, may_throw=True)
    S.ensure('damping mass not negative', And(S.threw == (v < 0), nd.mThermalDampingMass == If(v < 0, t.mThermalDampingMass, v)))


def compression(S):
    F, nd = node(S, 2)
    o = S.snap()
    r = S.call('GunnsFluidNode::computeCompression', nd)
    t = o(nd)
    S.ensure('compression is the moles displaced by the change of volume', And(r * t.mContent.mMWeight == t.mContent.mDensity * (t.mPreviousVolume - t.mVolume), nd.mCompression == r))
    S.ensure('a change of volume is accounted for once', nd.mPreviousVolume == nd.mVolume)
    r2 = S.call('GunnsFluidNode::computeCompression', nd)
    S.ensure('no further compression at constant volume', r2 == 0)


def thermal_cap(S, n):
    F, nd = node(S, n)
    c = nd.mContent
    o = S.snap()
    r = S.call('GunnsFluidNode::computeThermalCapacitance', nd)
    t = If(c.mTemperature < D(FEPS), D(FEPS), c.mTemperature)
    rho = lambda T: sum_(n, lambda i: If(abs_(c.mConstituents[i].mMoleFraction) > D(EPS), F.get('Density', i, T, c.mPressure * c.mConstituents[i].mMoleFraction), 0))
    t1, t2 = t * D(0.999), t * D(1.001)
    S.ensure('thermal capacitance is the moles displaced per degree', nd.mThermalCapacitance * (c.mMWeight * (t2 - t1)) == (rho(t1) - rho(t2)) * nd.mVolume)
    S.ensure('thermal source is capacitance times temperature change', r == nd.mThermalCapacitance * (c.mTemperature - o(nd).mPreviousTemperature))
    S.ensure('a change of temperature is accounted for once', nd.mPreviousTemperature == c.mTemperature)


def correction(S, n):
    F, nd = node(S, n)
    c = nd.mContent
    if S.mode == 'sym':
        S.use('PolyFluid::computePressure', lambda K, this, T, rho: uf2('P', T, rho))
    S.require(And(nd.mCorrectGain >= D(EPS), nd.mCorrectGain <= 1))
    o = S.snap()
    r = S.call('GunnsFluidNode::computePressureCorrection', nd)
    t = o(nd)
    S.ensure('the gain stays in its range', And(nd.mCorrectGain >= D(EPS), nd.mCorrectGain <= 1))
    S.ensure('a node without volume is not corrected', Implies(t.mVolume <= 0, r == 0))
    if S.mode == 'sym':
        e = uf2('P', c.mTemperature, c.mMass / nd.mVolume) - c.mPressure
        S.ensure('the correction is the pressure error of the mass in the volume, times the gain', Implies(t.mVolume > 0, r == If(abs_(e) > D(1e-11), e * nd.mCorrectGain, 0)))
        S.ensure('the gain is cut when the error changes sign and recovers slowly otherwise', Implies(t.mVolume > 0, nd.mCorrectGain == clamp(If(e * t.mPressureCorrection < 0, t.mCorrectGain * D(0.5), t.mCorrectGain * D(1.01)), D(EPS), 1)))
    S.ensure('the correction never exceeds the error', nd.mPressureCorrection == r)


def uf2(nm, x, y):
    from gcv.exec import uf, RS
    return uf(nm, RS, RS, RS)(R(x), R(y))


for n in (3,):
    HARNESSES += [('edit_partial_%d' % n, edit_partial, (n,)), ('add_state_%d' % n, add_state, (n,)), ('mix_%d' % n, mix, (n,))]
HARNESSES += [('influx_%d_%d' % (n, k), influx, (n, k)) for n in (1, 2) for k in (1, 2)]
HARNESSES += [('integrate_%d_%s%s' % (n, c, '_damped' if d else ''), integrate, (n, c, d)) for n in (1, 2) for c in ('none', 'fill', 'in', 'through') for d in (False, True)]
HARNESSES += [('damping_%d_%s' % (n, c), integrate, (n, c, True, True)) for n in (1, 2) for c in ('none', 'fill', 'in', 'through')]
HARNESSES += [('massless_%d' % n, massless, (n,)) for n in (1, 2)] + [('init_volume_%d' % n, mass_from_state, (n,)) for n in (1, 2)]
HARNESSES += [('setters', setters, ()), ('compression', compression, ()), ('thermal_cap', thermal_cap, (2,)), ('correction', correction, (1,))]


def isentropic(S):
    F, f = mk(S, 1, phase=None)
    S.require(And(f.mTemperature >= 0, f.mTemperature <= 5000))
    k, p1, p2 = S.real('scale', 0, 1), S.real('p1'), S.real('p2')
    r = S.call('GunnsFluidUtils::computeIsentropicTemperature', k, p1, p2, f)
    g = f.mAdiabaticIndex
    on = And(f.mPhase == S.enum('FluidPhase')['GAS'], p1 > 0, p2 > D(EPS) * p1, g > D(EPS))
    S.ensure('only gas expands', Implies(Not(on), r == f.mTemperature))
    S.ensure('isentropic relation, scaled', Implies(on, r == f.mTemperature + k * (f.mTemperature * S.pow(p2 / p1, (g - 1) / g) - f.mTemperature)))
    S.ensure('no effect without scaling', Implies(k == 0, r == f.mTemperature))


HARNESSES += [('isentropic', isentropic, ())]


def harnesses(tier):
    return HARNESSES + ([('invert_3', invert, (3,))] if tier == 'thorough' else [])
