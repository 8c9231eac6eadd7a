"""Proving equalities of rational functions: conditionals are split, hypotheses that are equations are used as rewrite rules, denominators are cleared
(each shown not to be zero by z3) and what is left must be the zero polynomial."""
import time
from fractions import Fraction
import z3

MAXTERMS = 4000


class TooBig(Exception):
    pass


# ---- polynomials: dict monomial -> Fraction; a monomial is a sorted tuple of (atom, exponent)
def padd(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + k * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def mmul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for v, e in b:
        d[v] = d.get(v, 0) + e
    return tuple(sorted(d.items()))


def pmul(a, b):
    if len(a) * len(b) > 40 * MAXTERMS:
        raise TooBig()
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = mmul(m, n)
            v = r.get(k, 0) + c * d
            if v:
                r[k] = v
            else:
                r.pop(k, None)
    if len(r) > MAXTERMS:
        raise TooBig()
    return r


ONE = {(): Fraction(1)}


def const(c):
    return {(): Fraction(c)} if c else {}


def is_const(p):
    return not p or (len(p) == 1 and () in p)


def mdiv(a, b):
    d = dict(a)
    for v, e in b:
        x = d.get(v, 0) - e
        if x < 0:
            return None
        if x:
            d[v] = x
        else:
            d.pop(v, None)
    return tuple(sorted(d.items()))


def order(m):
    return (sum(e for v, e in m), tuple((-v, e) for v, e in m))


def lexkey(m):
    # lexicographic order on exponents, atom 0 first
    return tuple(sorted(((-v, e) for v, e in m), reverse=True))


def pdivexact(p, q):
    """p / q if exact, else None"""
    if not q:
        return None
    if is_const(q):
        c = q[()]
        return {m: v / c for m, v in p.items()}
    lq = max(q, key=lexkey)
    cq = q[lq]
    r, out = dict(p), {}
    n = 0
    while r:
        n += 1
        if n > 400:
            return None
        lr = max(r, key=lexkey)
        m = mdiv(lr, lq)
        if m is None:
            return None
        c = r[lr] / cq
        out[m] = out.get(m, 0) + c
        for mm, v in q.items():
            k = mmul(mm, m)
            x = r.get(k, 0) - c * v
            if x:
                r[k] = x
            else:
                r.pop(k, None)
        if len(r) > MAXTERMS:
            return None
    return out


def pkey(p):
    return tuple(sorted(p.items()))


def monic(p):
    lp = max(p, key=lexkey)
    c = p[lp]
    return {m: v / c for m, v in p.items()}, c


# ---- rational functions: (numerator, {factor key: (factor poly, exponent)})
class Field:
    def __init__(self):
        self.atoms = []          # z3 terms
        self.ids = {}            # ast id -> atom number
        self.apps = {}           # decl name -> [(args, atom)]
        self.memo = {}
        self.rules = {}          # atom -> rational
        self.dens = {}           # factor key -> poly
        self.keep = []

    def cancel(self, p, den):
        if not p:
            return p, {}
        out = {}
        for k, (f, e) in den.items():
            while e:
                q = pdivexact(p, f)
                if q is None:
                    break
                p, e = q, e - 1
            if e:
                out[k] = (f, e)
        return p, out

    def radd(self, a, b, k=1):
        (p, d), (q, f) = a, b
        if not q:
            return a
        den = {}
        mp, mq = ONE, ONE
        for key in set(d) | set(f):
            e1, e2 = d.get(key, (None, 0))[1], f.get(key, (None, 0))[1]
            poly = (d.get(key) or f.get(key))[0]
            e = max(e1, e2)
            den[key] = (poly, e)
            for _ in range(e - e1):
                mp = pmul(mp, poly)
            for _ in range(e - e2):
                mq = pmul(mq, poly)
        return self.cancel(padd(pmul(p, mp), pmul(q, mq), k), den)

    def rmul(self, a, b):
        (p, d), (q, f) = a, b
        p, f = self.cancel(p, f)
        q, d = self.cancel(q, d)
        den = dict(d)
        for k, (poly, e) in f.items():
            den[k] = (poly, e + (den[k][1] if k in den else 0))
        return pmul(p, q), den

    def rinv(self, a):
        p, d = a
        if not p:
            raise TooBig()
        num = ONE
        for k, (poly, e) in d.items():
            for _ in range(e):
                num = pmul(num, poly)
        den = {}
        c = Fraction(1)
        # split off the monomial content
        if is_const(p):
            c = p[()]
        else:
            common = None
            for m in p:
                dm = dict(m)
                common = dm if common is None else {v: min(e, dm[v]) for v, e in common.items() if v in dm}
            for v, e in (common or {}).items():
                f = {((v, 1),): Fraction(1)}
                den[pkey(f)] = (f, e)
                self.dens[pkey(f)] = f
            if common:
                cm = tuple(sorted(common.items()))
                p = {mdiv(m, cm): x for m, x in p.items()}
            if is_const(p):
                c = p[()]
            else:
                p, c = monic(p)
                k = pkey(p)
                den[k] = (p, 1)
                self.dens[k] = p
        return self.cancel({m: v / c for m, v in num.items()}, den)

    def equal(self, a, b):
        return not self.radd(a, b, -1)[0]

    def atom(self, t):
        k = t.get_id()
        if k in self.ids:
            return self.ids[k]
        n = len(self.atoms)
        self.atoms.append(t)
        self.ids[k] = n
        return n

    def av(self, n):
        if n in self.rules:
            return self.rules[n]
        return ({((n, 1),): Fraction(1)}, {})

    def conv(self, e):
        k = e.get_id()
        if k in self.memo:
            return self.memo[k]
        r = self.conv1(e)
        self.memo[k] = r
        self.keep.append(e)
        return r

    def conv1(self, e):
        if z3.is_rational_value(e):
            return (const(Fraction(e.numerator_as_long(), e.denominator_as_long())), {})
        if z3.is_int_value(e):
            return (const(e.as_long()), {})
        d = e.decl().kind() if z3.is_app(e) else None
        ch = e.children()
        if d == z3.Z3_OP_ADD:
            r = self.conv(ch[0])
            for c in ch[1:]:
                r = self.radd(r, self.conv(c))
            return r
        if d == z3.Z3_OP_SUB:
            r = self.conv(ch[0])
            for c in ch[1:]:
                r = self.radd(r, self.conv(c), -1)
            return r
        if d == z3.Z3_OP_UMINUS:
            p, den = self.conv(ch[0])
            return ({m: -c for m, c in p.items()}, den)
        if d == z3.Z3_OP_MUL:
            r = self.conv(ch[0])
            for c in ch[1:]:
                r = self.rmul(r, self.conv(c))
            return r
        if d == z3.Z3_OP_DIV and z3.is_real(e):
            return self.rmul(self.conv(ch[0]), self.rinv(self.conv(ch[1])))
        if d == z3.Z3_OP_POWER and z3.is_rational_value(ch[1]) and ch[1].denominator_as_long() == 1 and 0 < ch[1].numerator_as_long() < 8:
            b = self.conv(ch[0])
            r = b
            for _ in range(ch[1].numerator_as_long() - 1):
                r = self.rmul(r, b)
            return r
        if d == z3.Z3_OP_TO_REAL and z3.is_int_value(ch[0]):
            return (const(ch[0].as_long()), {})
        if d == z3.Z3_OP_UNINTERPRETED and ch and all(z3.is_arith(c) for c in ch):
            args = [self.conv(c) for c in ch]
            for a2, n in self.apps.setdefault(e.decl().name(), []):
                if len(a2) == len(args) and all(self.equal(x, y) for x, y in zip(args, a2)):
                    return self.av(n)
            n = self.atom(e)
            self.apps[e.decl().name()].append((args, n))
            return self.av(n)
        return self.av(self.atom(e))

    def term(self, p):
        """polynomial back to z3"""
        ts = []
        for m, c in p.items():
            t = z3.RealVal(str(c))
            for v, e in m:
                a = self.atoms[v]
                if z3.is_int(a):
                    a = z3.ToReal(a)
                for _ in range(e):
                    t = t * a
            ts.append(t)
        return z3.Sum(ts) if ts else z3.RealVal(0)

    def rule_of(self, p, want):
        """p == 0: the best atom to eliminate: it occurs linearly; (rank, atom, coefficient)"""
        best = None
        vs = {}
        for m in p:
            for v, e in m:
                vs[v] = max(e, vs.get(v, 0))
        for v, e in vs.items():
            if e != 1 or v not in want:
                continue
            A = {tuple(x for x in m if x[0] != v): c for m, c in p.items() if any(x[0] == v for x in m)}
            app = self.atoms[v].num_args() > 0
            known = not is_const(A) and (pkey(monic(A)[0]) in self.dens or len(A) == 1 and all(pkey({((x, 1),): Fraction(1)}) in self.dens for x, e in list(A)[0]))
            if not is_const(A) and len(A) > 1 and not app and not known:
                continue
            # prefer constant coefficients or ones that are divided by anyway, then function applications, then short equations, then younger atoms
            rank = (2 if is_const(A) else 1 if known else 0, app, -len(p), v)
            if best is None or rank > best[0]:
                best = (rank, v, A)
        return best

    def add_rule(self, p, v, A):
        rest = {m: -c for m, c in p.items() if not any(x[0] == v for x in m)}
        self.rules[v] = self.rmul((rest, {}), self.rinv((A, {})))
        self.memo = {}
        # earlier rules may mention v
        for w in list(self.rules):
            if w != v:
                self.rules[w] = self.subst(self.rules[w])
        self.apps = {n: [([self.subst(a) for a in args], at) for args, at in l] for n, l in self.apps.items()}
        return True

    def psubst(self, p):
        if not any(v in self.rules for m in p for v, e in m):
            return (p, {})
        out = ({}, {})
        for m, c in p.items():
            t = (const(c), {})
            for v, e in m:
                for _ in range(e):
                    t = self.rmul(t, self.av(v))
            out = self.radd(out, t)
        return out

    def subst(self, r):
        p, d = r
        t = self.psubst(p)
        for k, (f, e) in d.items():
            q = self.rinv(self.psubst(f))
            for _ in range(e):
                t = self.rmul(t, q)
        return t


def has_ite(e, memo):
    k = e.get_id()
    if k in memo:
        return memo[k]
    if z3.is_quantifier(e):
        return False
    r = z3.is_app_of(e, z3.Z3_OP_ITE) or any([has_ite(c, memo) for c in e.children()])
    memo[k] = r
    return r


def innermost_cond(e):
    """the condition of an if-then-else that itself has none inside"""
    memo = {}
    seen = set()
    st = [e]
    while st:
        x = st.pop()
        if x.get_id() in seen or not has_ite(x, memo):
            continue
        seen.add(x.get_id())
        if z3.is_app_of(x, z3.Z3_OP_ITE) and not has_ite(x.children()[0], memo):
            c = x.children()[0]
            while z3.is_not(c) or z3.is_and(c) or z3.is_or(c):
                c = c.children()[0]
            return c
        st.extend(x.children())
    return None


class Prover:
    def __init__(self, cone, seconds):
        self.cone = cone
        self.deadline = time.time() + seconds
        self.nonzero = {}

    def sat(self, asserts, ms):
        s = z3.Solver()
        s.set('timeout', ms)
        s.add(*asserts)
        return s.check()

    def entails(self, hyps, g, ms=400):
        ng = z3.Not(g)
        if self.sat(self.near(hyps, ng), min(ms, 300)) == z3.unsat:
            return True
        return self.sat(self.cone(hyps, [ng]) + [ng], ms) == z3.unsat

    def near(self, hyps, g):
        """hypotheses over the symbols of g only, and g"""
        from .solve import symbols
        need = symbols(g)
        return [h for h in hyps if symbols(h) <= need] + [g]

    def prove(self, hyps, goal, depth=0):
        if time.time() > self.deadline or depth > 16:
            return False
        goal = z3.simplify(goal)
        if z3.is_true(goal):
            return True
        if z3.is_and(goal):
            return all(self.prove(hyps, g, depth) for g in goal.children())
        if z3.is_or(goal):
            eqs = [g for g in goal.children() if z3.is_eq(g) and z3.is_arith(g.children()[0])]
            if len(eqs) != 1:
                return False
            more = []
            for g in goal.children():
                if g.get_id() != eqs[0].get_id():
                    n = z3.simplify(z3.Not(g))
                    more += list(n.children()) if z3.is_and(n) else [n]
            return self.prove(list(hyps) + more, eqs[0], depth)
        if not (z3.is_eq(goal) and z3.is_arith(goal.children()[0])):
            return False
        c = innermost_cond(goal)
        if c is None:
            # conditionals in the equations that define what the goal mentions
            return self.leaf(hyps, goal)
        for lit, val in ((c, z3.BoolVal(True)), (z3.Not(c), z3.BoolVal(False))):
            if self.sat(self.near(hyps, lit), 200) == z3.unsat:
                continue
            if self.sat(self.cone(hyps, [lit]) + [lit], 500) == z3.unsat:
                continue
            h2 = []
            for h in hyps:
                x = z3.simplify(z3.substitute(h, (c, val)))
                h2 += list(x.children()) if z3.is_and(x) else [x]
            h2 = [x for x in h2 if not z3.is_true(x)] + [lit]
            if any(z3.is_false(x) for x in h2):
                continue
            if not self.prove(h2, z3.substitute(goal, (c, val)), depth + 1):
                return False
        return True

    def leaf(self, hyps, goal):
        F = self.F = Field(); self.why = None
        flat = []
        for h in hyps:
            flat += list(h.children()) if z3.is_and(h) else [h]
        try:
            eqs = []
            for h in flat:
                if z3.is_eq(h) and z3.is_arith(h.children()[0]) and not has_ite(h, {}):
                    eqs.append(h)
            # inequalities that hold in both directions
            for h in flat[-20:]:
                g = h.children()[0] if z3.is_not(h) else h
                if z3.is_app(g) and g.decl().kind() in (z3.Z3_OP_LE, z3.Z3_OP_GE) and not z3.is_not(h):
                    a, b = g.children()
                    if not has_ite(g, {}) and self.entails(flat, a == b, 300):
                        eqs.append(a == b)
            goals = goal.children()
            used = []
            for _ in range(len(eqs) + 1):
                r = F.radd(F.conv(goals[0]), F.conv(goals[1]), -1)
                if not r[0]:
                    break
                # a rule from an equation over atoms that matter
                want = set(v for m in r[0] for v, e in m)
                best = None
                for h in list(eqs):
                    a, b = h.children()
                    q = F.radd(F.conv(a), F.conv(b), -1)
                    if not q[0]:
                        eqs.remove(h)
                        continue
                    c = F.rule_of(q[0], want)
                    if c and (best is None or c[0] > best[0][0]):
                        best = (c, h, q[0])
                done = best is None
                if not done:
                    F.add_rule(best[2], best[0][1], best[0][2])
                    eqs.remove(best[1])
                if done:
                    if self.squares(F, eqs, r[0]):
                        break
                    return False
            else:
                return False
            # the denominators that were cleared
            for k, p in F.dens.items():
                t = F.term(p)
                if not self.entails(flat, t != 0, 1000):
                    self.why = t
                    return False
            return True
        except (TooBig, z3.Z3Exception, RecursionError):
            return False


    def squares(self, F, eqs, p):
        """p reduces to zero with the equations v*v == (terms without v), as those of a sine and cosine or a square root"""
        sq = {}
        for h in eqs:
            a, b = h.children()
            q = F.radd(F.conv(a), F.conv(b), -1)[0]
            for v in sorted(set(x for m in q for x, e in m), reverse=True):
                m2 = ((v, 2),)
                if m2 not in q or any(x == v for m in q if m != m2 for x, e in m) or v in sq:
                    continue
                rest = {m: -c / q[m2] for m, c in q.items() if m != m2}
                if any(x in sq for m in rest for x, e in m):
                    continue
                sq[v] = rest
                for w in sq:
                    sq[w] = self.reduce(sq[w], {v: rest})
                break
        return sq and not self.reduce(p, sq)

    def reduce(self, p, sq):
        p = dict(p)
        for _ in range(20000):
            m = next((m for m in p if any(e >= 2 and v in sq for v, e in m)), None)
            if m is None:
                return p
            c = p.pop(m)
            v = next(v for v, e in m if e >= 2 and v in sq)
            p = padd(p, pmul({mdiv(m, ((v, 2),)): c}, sq[v]))
        raise TooBig()


def prove(cone, hyps, goal, seconds):
    return Prover(cone, seconds).prove(list(hyps), goal)
