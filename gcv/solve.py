"""Discharging obligations: z3 (several strategies) and cvc5 as a second back end."""
import os, subprocess, tempfile, time
import z3
from .sym import *
from . import field

STATS = {}
SEED = 0


def _stat(backend, ok, t):
    s = STATS.setdefault(backend, [0, 0, 0.0])
    s[0] += 1
    s[1] += 1 if ok else 0
    s[2] += t


def symbols(e, memo={}):
    """ids of uninterpreted symbols in e"""
    i = e.get_id()
    if i in memo:
        return memo[i][0]
    seen, out, st = set(), set(), [e]
    while st:
        x = st.pop()
        k = x.get_id()
        if k in seen:
            continue
        seen.add(k)
        if k in memo:
            out |= memo[k][0]
            continue
        if z3.is_app(x):
            d = x.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(d.name())
            st.extend(x.children())
        elif z3.is_quantifier(x):
            st.append(x.body())
    memo[i] = (out, e)
    return out


GENERIC_UF = {'sqrt', 'pow', 'exp', 'log', 'sin', 'cos', 'log10'}


def app_keys(e):
    """symbols, with applications of library functions taken as symbols of their own"""
    return symbols(e) - GENERIC_UF


def cone(hyps, goals):
    """hypotheses sharing symbols (transitively) with the goals"""
    need = set()
    for g in goals:
        need |= app_keys(g)
    hs = [(h, app_keys(h)) for h in hyps]
    out = []
    used = [False] * len(hs)
    ch = True
    while ch:
        ch = False
        for k, (h, s) in enumerate(hs):
            if not used[k] and (s & need or not s):
                used[k] = True
                out.append(h)
                if s - need:
                    need |= s
                    ch = True
    return out


def _check(solver_factory, asserts, timeout_ms, backend):
    t = time.time()
    s = solver_factory()
    s.set('timeout', int(timeout_ms))
    if SEED:
        try:
            s.set('random_seed', SEED)
        except z3.Z3Exception:
            pass
    s.add(*asserts)
    try:
        r = s.check()
    except z3.Z3Exception:
        r = z3.unknown
    _stat(backend, r == z3.unsat, time.time() - t)
    return r, (s.model() if r == z3.sat else None)


def abstract_ufs(asserts):
    """replace applications of uninterpreted functions by fresh variables (sound for proving: fewer facts)"""
    sub = {}
    memo = {}

    def walk(e):
        k = e.get_id()
        if k in memo:
            return memo[k][0]
        if z3.is_quantifier(e):
            raise ValueError
        ch = [walk(c) for c in e.children()]
        if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and e.num_args() > 0:
            key = (e.decl().name(), tuple(c.get_id() for c in ch))
            if key not in sub:
                sub[key] = (z3.Const('uf!%d' % len(sub), e.sort()), ch)
            r = sub[key][0]
        elif ch:
            r = e.decl()(*ch)
        else:
            r = e
        memo[k] = (r, e)
        return r
    return [walk(a) for a in asserts]


def abstract_nonlinear(asserts):
    """replace products of unknowns, quotients by unknowns and function applications by fresh variables (sound for proving)"""
    sub = {}
    memo = {}

    def walk(e):
        k = e.get_id()
        if k in memo:
            return memo[k][0]
        if z3.is_quantifier(e):
            raise ValueError
        ch = [walk(c) for c in e.children()]
        nl = False
        if z3.is_app(e) and ch:
            kind = e.decl().kind()
            if kind == z3.Z3_OP_MUL:
                vs = [c for c in ch if not (z3.is_rational_value(c) or z3.is_int_value(c))]
                nl = len(vs) > 1
                if nl:
                    nums = [c for c in ch if z3.is_rational_value(c) or z3.is_int_value(c)]
                    key = ('mul',) + tuple(sorted(c.get_id() for c in vs))
                    if key not in sub:
                        sub[key] = (z3.Const('nl!%d' % len(sub), e.sort()), vs)
                    r = sub[key][0]
                    for n in nums:
                        r = n * r
                    memo[k] = (r, e)
                    return r
            elif kind in (z3.Z3_OP_DIV, z3.Z3_OP_IDIV, z3.Z3_OP_MOD, z3.Z3_OP_REM, z3.Z3_OP_POWER):
                nl = not (z3.is_rational_value(ch[1]) or z3.is_int_value(ch[1])) or kind == z3.Z3_OP_POWER
            elif kind == z3.Z3_OP_UNINTERPRETED:
                nl = True
        if nl:
            key = (e.decl().name(), e.decl().kind()) + tuple(c.get_id() for c in ch)
            if key not in sub:
                sub[key] = (z3.Const('nl!%d' % len(sub), e.sort()), ch)
            r = sub[key][0]
        else:
            r = e.decl()(*ch) if ch else e
        memo[k] = (r, e)
        return r
    return [walk(z3.simplify(a)) for a in asserts]


def ite_conds(e, limit=40):
    out, seen, st = [], set(), [e]
    ids = set()
    while st and len(out) < limit:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app_of(x, z3.Z3_OP_ITE) and not z3.is_bool(x):
            c = x.arg(0)
            if c.get_id() not in ids and not has_ite(c):
                ids.add(c.get_id())
                out.append(c)
        st.extend(x.children())
    return out


def has_ite(e, memo={}):
    k = e.get_id()
    if k in memo:
        return memo[k][0]
    r = (z3.is_app_of(e, z3.Z3_OP_ITE)) or any(has_ite(c) for c in e.children())
    memo[k] = (r, e)
    return r


class Prover:
    def __init__(self, pre, facts, t1=4000, t2=20000, use_cvc5=True):
        self.pre = [B(x) for x in pre if x is not True]
        self.facts = facts
        self.t1, self.t2, self.use_cvc5 = t1, t2, use_cvc5
        self.inc = None

    def hyps(self, pc):
        return self.pre + list(self.facts) + [B(x) for x in pc]

    def prove(self, pc, goal):
        """('proved', backend) | ('sat', model) | ('unknown', None)"""
        goal = z3.simplify(B(goal), som=False)
        if z3.is_true(goal):
            return 'proved', 'simplifier'
        if z3.is_and(goal):
            backs = []
            for g in goal.children():
                r = self.prove(pc, g)
                if r[0] != 'proved':
                    return r
                backs.append(r[1])
            return 'proved', max(backs, key=lambda b: (b != 'simplifier', b))
        hyps = self.hyps(pc)
        full = hyps + [z3.Not(goal)]
        # 1. default solver, short
        r, m = _check(z3.Solver, full, min(1500, self.t1), 'z3')
        if r == z3.unsat:
            return 'proved', 'z3'
        model = m
        if r == z3.sat:
            return 'sat', m
        # 1b. equalities of rational functions
        t = time.time()
        r = field.prove(cone, hyps, goal, self.t1 / 1000.0 * 6)
        _stat('field', r, time.time() - t)
        if r:
            return 'proved', 'field'
        # 2. linear abstraction
        try:
            r, m = _check(z3.Solver, abstract_nonlinear(full), 3000, 'z3-linear')
            if r == z3.unsat:
                return 'proved', 'z3-linear'
        except (ValueError, z3.Z3Exception):
            pass
        # 3. cone of influence
        c = cone(hyps, [z3.Not(goal)])
        r, m = _check(z3.Solver, c + [z3.Not(goal)], self.t1, 'z3-cone')
        if r == z3.unsat:
            return 'proved', 'z3-cone'
        # 4. case split on ite conditions, nlsat on each leaf
        r = self.split(c, goal, 0, [time.time() + self.t2 / 1000.0])
        if r == 'proved':
            return 'proved', 'z3-split'
        # 5. nlsat with functions abstracted
        try:
            a = abstract_ufs(c + [z3.Not(goal)])
            r, m = _check(lambda: z3.Then('simplify', 'elim-term-ite', 'solve-eqs', 'purify-arith', 'qfnra-nlsat').solver(), a, self.t1, 'z3-nlsat')
            if r == z3.unsat:
                return 'proved', 'z3-nlsat'
        except (ValueError, z3.Z3Exception):
            pass
        # 6. cvc5
        if self.use_cvc5:
            r = cvc5(c + [z3.Not(goal)], self.t1)
            if r == 'unsat':
                return 'proved', 'cvc5'
        r, m = _check(z3.Solver, full, self.t2, 'z3-long')
        if r == z3.unsat:
            return 'proved', 'z3-long'
        if r == z3.sat:
            return 'sat', m
        return 'unknown', None

    def split(self, hyps, goal, depth, deadline):
        if time.time() > deadline[0] or depth > 14:
            return 'unknown'
        goal = z3.simplify(goal, som=True)
        if z3.is_true(goal):
            return 'proved'
        conds = ite_conds(goal)
        if not conds:
            # leaf: try polynomial identity / nlsat
            cs = cone(hyps, [z3.Not(goal)])
            ng = z3.simplify(z3.Not(goal), som=True)
            if z3.is_false(ng):
                return 'proved'
            r, m = _check(z3.Solver, cs + [ng], 1500, 'z3-leaf')
            if r == z3.unsat:
                return 'proved'
            try:
                a = abstract_ufs(cs + [ng])
                r, m = _check(lambda: z3.Then('simplify', 'elim-term-ite', 'solve-eqs', 'purify-arith', 'qfnra-nlsat').solver(), a, 3000, 'z3-nlsat')
                if r == z3.unsat:
                    return 'proved'
            except (ValueError, z3.Z3Exception):
                pass
            return 'unknown'
        c = conds[0]
        for lit, val in ((c, z3.BoolVal(True)), (z3.Not(c), z3.BoolVal(False))):
            h2 = hyps + [lit]
            r, m = _check(z3.Solver, cone(h2, [lit]) , 300, 'z3-prune')
            if r == z3.unsat:
                continue
            g2 = z3.substitute(goal, (c, val))
            r = self.split(h2, g2, depth + 1, deadline)
            if r != 'proved':
                return r
        return 'proved'


def cvc5(asserts, timeout_ms):
    t = time.time()
    s = z3.Solver()
    s.add(*asserts)
    try:
        txt = '(set-logic ALL)\n' + s.to_smt2()
    except z3.Z3Exception:
        return 'unknown'
    fd, p = tempfile.mkstemp(suffix='.smt2')
    os.write(fd, txt.encode())
    os.close(fd)
    try:
        r = subprocess.run(['cvc5', '--tlimit=%d' % timeout_ms, '--nl-cov', p], capture_output=True, text=True, timeout=timeout_ms / 1000 + 5)
        out = r.stdout.strip().split('\n')[0] if r.stdout.strip() else 'unknown'
    except (subprocess.TimeoutExpired, OSError):
        out = 'unknown'
    os.unlink(p)
    _stat('cvc5', out == 'unsat', time.time() - t)
    return out
