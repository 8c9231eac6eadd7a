"""Check runner: python3-vt -m gcv.run <property> [--tier quick|thorough] [--only harness] [-v]"""
import sys, os, time, json, traceback, importlib.util, random, signal, multiprocessing as mp, pickle, select
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from fractions import Fraction
import z3
from gcv import irgen, solve
from gcv.irgen import Program, demangle
from gcv.di import DIDB
from gcv import api
from gcv.api import B, Sym, MissingFunction, MissingField, Reject
from gcv.sym import *

T0 = time.time()
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1'))
VERBOSE = False


def load_prop(pid):
    p = os.path.join(ROOT, 'props', pid + '.py')
    spec = importlib.util.spec_from_file_location(pid, p)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


def call_h(h, S):
    a = h.get("args", {})
    return h["fn"](S, *a) if isinstance(a, tuple) else h["fn"](S, **a)


def run_harness(mod, prog, di, h):
    """symbolic run and proof of one harness; returns a plain dict plus the live objects for a replay"""
    t0 = time.time()
    solve.STATS.clear()
    res = {'harness': h['name'], 'obligations': [], 'status': 'ok', 'assumed': [], 'opaque': [], 'functions': [], 'contracts': [], 'bounded': [],
           'covers': 0, 'stats': {}}
    live = {'S': None, 'failed': []}
    opts = dict(getattr(mod, 'OPTS', {}))
    opts.update(h.get('opts', {}))
    S = Sym(prog, di, opts)
    live['S'] = S
    try:
        call_h(h, S)
    except (Unsupported, MissingFunction, MissingField) as e:
        res['status'] = 'unsupported'
        res['reason'] = '%s: %s' % (type(e).__name__, e)
        if VERBOSE:
            print("\n".join(traceback.format_exc().split("\n")[-8:]))
        live['failed'].append(('extraction', None))
    except (KeyError, IndexError, TypeError, AttributeError, AssertionError, z3.Z3Exception, RecursionError) as e:
        res['status'] = 'unsupported'
        res['reason'] = 'engine %s: %s' % (type(e).__name__, e)
        if VERBOSE:
            print("\n".join(traceback.format_exc().split("\n")[-8:]))
        live['failed'].append(('extraction', None))
    ex = S.ex
    pr = solve.Prover(S.pre, ex.facts, t1=h.get('t1', 5000), t2=h.get('t2', 30000 if TIER == 'quick' else 90000))
    if res['status'] == 'ok':
        # vacuity: the preconditions are satisfiable, and every cover is reachable
        covers = [('precondition', (), z3.BoolVal(True))] + S.covers
        for name, pc, f in covers:
            s = z3.Solver()
            s.set('timeout', 20000)
            s.add(*[B(x) for x in S.pre])
            s.add(*ex.facts)
            s.add(*[B(x) for x in pc])
            s.add(f)
            r = s.check()
            if r == z3.unsat:
                res['status'] = 'vacuous'
                res['reason'] = 'cover "%s" is unreachable' % name
                live['failed'].append(('cover ' + name, None))
            else:
                res['covers'] += 1
        posts = [o for o in ex.obl if o.kind in ('post', 'lemma') or o.name.startswith('lemma ')]
        if not posts and res['status'] == 'ok':
            res['status'] = 'vacuous'
            res['reason'] = 'no postcondition was generated'
    seen = {}
    lemmas = []
    # identical safety obligations are discharged once
    for o in ex.obl:
        if res['status'] == 'unsupported':
            break
        o.goal = B(o.goal)
        key = (o.goal.get_id(), tuple(B(x).get_id() for x in o.pc))
        if key in seen:
            continue
        seen[key] = True
        t = time.time()
        if t - T0 > 700:
            r = ('unknown', None)
        else:
            r = pr.prove(o.pc, o.goal)
        d = {'name': o.name, 'kind': o.kind, 'func': demangle(o.func) if o.func else None, 'result': r[0],
             'backend': r[1] if r[0] == 'proved' else None, 's': round(time.time() - t, 3)}
        if r[0] == 'proved' and o.info == 'lemma':
            pr.facts = list(pr.facts) + [z3.Implies(z3.And(*[B(x) for x in o.pc]) if o.pc else z3.BoolVal(True), o.goal)]
        res['obligations'].append(d)
        if VERBOSE:
            print('   %-8s %-9s %6.2fs  %s [%s]' % (r[0], d['backend'] or '', d['s'], o.name, d['func']), flush=True)
        if r[0] != 'proved':
            if VERBOSE and r[0] == 'sat':
                print('      ', str(r[1])[:1500].replace('\n', ' '))
            live['failed'].append((o, r[1] if r[0] == 'sat' else None))
            res['status'] = 'failed' if res['status'] == 'ok' else res['status']
    # obligations the solvers gave up on get a second attempt with more time and other seeds (a loaded machine must not turn a proof into an alarm)
    open_ = [k for k, (o, m) in enumerate(live['failed']) if not isinstance(o, str) and m is None]
    if res['status'] == 'failed' and len(open_) == len(live['failed']) and len(open_) <= 3:
        t = time.time()
        still = []
        for o, m in live['failed']:
            r = ('unknown', None)
            for seed in (11, 29):
                if time.time() - t > 120 or time.time() - T0 > 420 or still:
                    break
                solve.SEED = seed
                pr2 = solve.Prover(S.pre, pr.facts, t1=10000, t2=40000)
                r = pr2.prove(o.pc, o.goal)
                if r[0] != 'unknown':
                    break
            solve.SEED = 0
            d = [d for d in res['obligations'] if d['name'] == o.name and d['result'] == 'unknown'][0]
            d['result'], d['backend'] = r[0], r[1] if r[0] == 'proved' else None
            d['s'] = round(d['s'] + time.time() - t, 3)
            if VERBOSE:
                print('   %-8s %-9s %6.2fs  second attempt: %s' % (r[0], d['backend'] or '', time.time() - t, o.name), flush=True)
            if r[0] != 'proved':
                still.append((o, r[1] if r[0] == 'sat' else None))
        live['failed'] = still
        if not still:
            res['status'] = 'ok'
    res['assumed'] = sorted(ex.assumed)
    res['opaque'] = sorted(ex.opaque)
    res['functions'] = sorted(set(demangle(n) for n in ex.called))
    res['targets'] = sorted(set(demangle(n) for n in S.targets))
    res['contracts'] = sorted(set(demangle(n) for n in ex.contracts_used))
    res['bounded'] = sorted(set(S.bounds) | ex.bounded_notes)
    res['stats'] = {k: list(v) for k, v in solve.STATS.items()}
    res['nfeas'] = ex.nfeas
    res['wall'] = round(time.time() - t0, 2)
    return res, live


def exact_violation(S, c):
    """a sampled state on which the compiled code misses a postcondition counts only if it also misses it in exact arithmetic
    (otherwise what was seen is rounding)"""
    names = set(f[0] for f in c.failed)
    obl = [o for o in S.ex.obl if o.name in names]
    if not obl:
        # the engine has no exact run of this harness: only a gross deviation counts
        return getattr(c, 'gross', False)
    for o in obl[:6]:
        s = z3.Solver()
        s.set('timeout', 2000)
        s.add(*[B(x) for x in S.pre]); s.add(*S.ex.facts); s.add(*[B(x) for x in o.pc]); s.add(z3.Not(B(o.goal)))
        for x in consts_of(s.assertions()):
            v = c.values.get(x.decl().name())
            if v is None:
                continue
            if z3.is_bool(x):
                s.add(x == (str(v) in ('True', '1')))
            elif z3.is_int(x):
                s.add(x == int(v))
            else:
                s.add(x == R(Fraction(float(v))))
        if s.check() == z3.sat:
            return True
    return False


def replay_harness(mod, prog, di, h, live, so, budget, outq):
    """in a forked child: search for a state on which the real code violates the contract"""
    import ctypes
    from gcv.replay import Con, ModelSource, RandomSource, sample_models, EvalError
    rng = random.Random(SEED * 7919 + hash(h['name']) % 1000 if False else SEED)
    lib = ctypes.CDLL(so, mode=os.RTLD_LAZY)
    S = live['S']
    auto = set(n for n in S.ex.regions if n.endswith('->'))
    t0 = time.time()
    stats = {'runs': 0, 'rejected': 0, 'errors': 0, 'error': ''}
    last = [None]

    def log(values):
        os.write(outq, ('RUN ' + json.dumps(values) + '\n').encode())

    def one(src, label):
        c = Con(prog, di, lib, src, auto, log)
        try:
            call_h(h, c)
            stats['runs'] += 1
        except Reject:
            stats['rejected'] += 1
            return False
        except (EvalError, ValueError, OverflowError, TypeError, KeyError, MissingFunction, MissingField, Unsupported, RecursionError, AttributeError, ZeroDivisionError) as e:
            stats['errors'] += 1
            stats['error'] = '%s: %s' % (type(e).__name__, str(e)[:300])
            if VERBOSE and stats['errors'] < 3:
                print("\n".join(traceback.format_exc().split("\n")[-8:]))
            if not c.failed:
                return False
        if c.failed and label != 'model' and not exact_violation(S, c):
            stats['rounding'] = stats.get('rounding', 0) + 1
            return False
        if c.failed:
            os.write(outq, ('FOUND ' + json.dumps({'by': label, 'failed': c.failed, 'values': c.values}) + '\n').encode())
            return True
        return False
    devnull = os.open('/dev/null', os.O_WRONLY)
    if not VERBOSE:
        os.dup2(devnull, 1)
    # 1. the verifier's counterexamples
    for o, m in live['failed']:
        if m is not None:
            if one(ModelSource(m, None), 'model'):
                return
    # 1b. tamer counterexamples of the same obligations
    for o, m in live['failed']:
        if time.time() - t0 > budget * 0.6 or isinstance(o, str):
            continue
        for bound in (4, 100, 10000):
            s = z3.Solver()
            s.set('timeout', 3000)
            s.add(*[B(x) for x in S.pre]); s.add(*S.ex.facts); s.add(*[B(x) for x in o.pc]); s.add(z3.Not(o.goal))
            for x in consts_of(s.assertions()):
                if z3.is_real(x):
                    s.add(x <= bound, x >= -bound)
            small_ints(s)
            for k in range(3):
                if s.check() == z3.sat:
                    m2 = s.model()
                    if one(ModelSource(m2, None), 'model'):
                        return
                    # exclude: ask for another one
                    cs = [x for x in consts_of(s.assertions()) if z3.is_real(x) and z3.is_const(x)]
                    rng.shuffle(cs)
                    if not cs:
                        break
                    x = cs[0]
                    v = m2.eval(x, model_completion=True)
                    s.add(z3.Or(x > v + z3.Q(1, 7), x < v - z3.Q(1, 7)))
                else:
                    break
    # 2. states drawn from the precondition (and the path of the failed obligation)
    extra_sets = [[]] + [[B(x) for x in o.pc] for o, m in live['failed'] if not isinstance(o, str) and o.pc][:4]
    for extra in extra_sets:
        left = budget - (time.time() - t0)
        if left < 2:
            break
        for m in sample_models([B(x) for x in S.pre], S.ex.facts, extra, rng, 60, left / 3):
            if one(ModelSource(m, rng), 'sample'):
                return
            for _ in range(4):
                if one(ModelSource(m, rng, mutate=0.15), 'sample'):
                    return
    # 3. plain random states; where the precondition rejects nearly all of them, more drawn ones
    rs = RandomSource(rng)
    r0, j0 = stats['runs'], stats['rejected']
    while time.time() - t0 < budget and stats['runs'] + stats['rejected'] + stats['errors'] < 20000:
        if one(rs, 'random'):
            return
        k = stats['rejected'] - j0
        if k >= 100 and (stats['runs'] - r0) * 20 < k:
            for extra in extra_sets:
                for m in sample_models([B(x) for x in S.pre], S.ex.facts, extra, rng, 60, min(10, budget - (time.time() - t0))):
                    if time.time() - t0 > budget:
                        break
                    if one(ModelSource(m, rng), 'sample'):
                        return
                    for _ in range(3):
                        if one(ModelSource(m, rng, mutate=0.1), 'sample'):
                            return
            r0, j0 = stats['runs'], stats['rejected'] - 80
    os.write(outq, ('NONE ' + json.dumps(stats) + '\n').encode())


def small_ints(s):
    """keep sizes small where the state allows it (large arrays make each run slow)"""
    xs = [x for x in consts_of(s.assertions()) if z3.is_int(x)]
    s.push()
    s.add(*[z3.And(x >= -8, x <= 8) for x in xs])
    if xs and s.check() != z3.sat:
        s.pop()


def consts_of(asserts):
    out, seen, st = {}, set(), list(asserts)
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out[x.decl().name()] = x
        if not z3.is_quantifier(x):
            st.extend(x.children())
    return [out[k] for k in sorted(out)]


def do_replay(mod, prog, di, h, live, so, budget):
    """returns dict with 'found' or None"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.setsid()
        os.close(r)
        try:
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.alarm(int(budget * 2 + 60))
            if not VERBOSE:
                dn = os.open('/dev/null', os.O_RDWR)
                os.dup2(dn, 2)
            replay_harness(mod, prog, di, h, live, so, budget, w)
        except BaseException as e:
            try:
                os.write(w, ('NONE ' + json.dumps({'error': '%s: %s' % (type(e).__name__, str(e)[:500])}) + '\n').encode())
            except OSError:
                pass
        os._exit(0)
    os.close(w)
    buf = b''
    while True:
        d = os.read(r, 1 << 16)
        if not d:
            break
        buf += d
    os.close(r)
    _, st = os.waitpid(pid, 0)
    lines = buf.decode().split('\n')
    found, none, run = None, None, None
    for l in lines:
        if l.startswith('FOUND '):
            found = json.loads(l[6:])
        elif l.startswith('NONE '):
            none = json.loads(l[5:])
        elif l.startswith('RUN '):
            run = l[4:]
    if found:
        return found
    if os.WIFSIGNALED(st) and os.WTERMSIG(st) in (signal.SIGSEGV, signal.SIGFPE, signal.SIGABRT, signal.SIGBUS) and run:
        return {'by': 'crash', 'failed': [['memory safety', 'signal %d in the real code' % os.WTERMSIG(st)]], 'values': json.loads(run)}
    return {'none': none or {'error': 'replay ended with status %d' % st}}


def worker(mod, prog, di, hs, idx, w, so_lock, pid_prop):
    pass


def main(argv):
    global VERBOSE, TIER
    pid = argv[0]
    only = None
    noreplay = '--no-replay' in argv
    native = '--native' in argv
    if '--tier' in argv:
        TIER = argv[argv.index('--tier') + 1]
    if '--only' in argv:
        only = argv[argv.index('--only') + 1]
    VERBOSE = '-v' in argv
    jobs = int(argv[argv.index('-j') + 1]) if '-j' in argv else 8
    mod = load_prop(pid)
    if getattr(mod, 'INLINE', None):
        # functions defined in headers: a translation unit that makes the compiler emit them
        os.makedirs(irgen.BUILD, exist_ok=True)
        wp = os.path.join(irgen.BUILD, 'inline_%s.cpp' % pid)
        txt = ''.join('#include "%s"\n' % h for h in mod.HEADERS) + ''.join('auto gcv_inline_%d = %s;\n' % (i, x if x.startswith('static_cast') else '&' + x) for i, x in enumerate(mod.INLINE))
        if not os.path.exists(wp) or open(wp).read() != txt:
            open(wp, 'w').write(txt)
        mod.SOURCES = list(mod.SOURCES) + [wp]
    prog = Program(list(mod.SOURCES))
    di = DIDB(prog)
    hs = mod.harnesses(TIER) if hasattr(mod, 'harnesses') else mod.HARNESSES
    hs = [h if isinstance(h, dict) else {'name': h[0], 'fn': h[1], 'args': h[2] if len(h) > 2 else {}, 'opts': h[3] if len(h) > 3 else {}} for h in hs]
    if only:
        hs = [h for h in hs if only in h['name']]
    # make sure every function a harness might need is indexed before forking
    results = []
    so = [None]

    def task(h):
        res, live = run_harness(mod, prog, di, h)
        return res, live

    # one forked process per harness, at most `jobs` at a time
    running = {}
    queue = list(hs)
    outs = {}
    sodir = os.path.join(irgen.BUILD, 'native')
    deadline = T0 + 640

    known = known_findings(pid)

    def spawn(h):
        r, w = os.pipe()
        p = os.fork()
        if p == 0:
            os.close(r)
            code = 0
            try:
                res, live = run_harness(mod, prog, di, h)
                fresh = [1 for o, m in live['failed'] if not is_known(known, h['name'], o if isinstance(o, str) else o.name)]
                if (fresh and not noreplay) or native:
                    os.write(w, b'')
                    import fcntl
                    from gcv.replay import build_native
                    os.makedirs(sodir, exist_ok=True)
                    with open(os.path.join(sodir, 'lock'), 'w') as lk:
                        fcntl.flock(lk, fcntl.LOCK_EX)
                        try:
                            lib = build_native([s for s in mod.SOURCES if s.startswith('/')])
                        except Exception as e:
                            lib = None
                            res['replay'] = {'none': {'error': 'native build: ' + str(e)[:400]}}
                    if lib:
                        budget = 15 if native else max(10, min(60 if TIER == 'quick' else 200, 780 - (time.time() - T0)))
                        res['replay'] = do_replay(mod, prog, di, h, live, lib, budget)
                res['models'] = [(o.name if not isinstance(o, str) else o, str(m)[:4000] if m is not None else None) for o, m in live['failed']][:10]
                data = pickle.dumps(res)
            except BaseException as e:
                data = pickle.dumps({'harness': h['name'], 'status': 'error', 'reason': '%s: %s' % (type(e).__name__, e), 'trace': traceback.format_exc(),
                                     'obligations': [], 'assumed': [], 'opaque': [], 'functions': [], 'targets': [], 'contracts': [], 'bounded': [], 'stats': {}, 'covers': 0, 'wall': 0})
            with os.fdopen(w, 'wb') as fh:
                fh.write(data)
            sys.stdout.flush()
            os._exit(0)
        os.close(w)
        running[r] = (p, h, b'', time.time())

    while queue or running:
        while queue and len(running) < jobs:
            spawn(queue.pop(0))
        rl, _, _ = select.select(list(running), [], [], 5)
        for r in rl:
            p, h, buf, t = running[r]
            d = os.read(r, 1 << 20)
            if d:
                running[r] = (p, h, buf + d, t)
                continue
            os.close(r)
            os.waitpid(p, 0)
            del running[r]
            try:
                outs[h['name']] = pickle.loads(buf)
            except Exception:
                outs[h['name']] = {'harness': h['name'], 'status': 'error', 'reason': 'worker died', 'obligations': [], 'assumed': [], 'opaque': [],
                                   'functions': [], 'targets': [], 'contracts': [], 'bounded': [], 'stats': {}, 'covers': 0, 'wall': 0}
            o = outs[h['name']]
            if VERBOSE or o['status'] != 'ok':
                print('%-45s %-11s %3d obligations %6.1fs %s' % (h['name'], o['status'], len(o['obligations']), o.get('wall', 0), o.get('reason', '')), flush=True)
                if o['status'] == 'error':
                    print(o.get('trace', ''))
        if time.time() - T0 > 860:
            for r in list(running):
                p, h, buf, t = running.pop(r)
                try:
                    os.kill(p, signal.SIGKILL)
                    os.waitpid(p, 0)
                except OSError:
                    pass
                outs[h['name']] = {'harness': h['name'], 'status': 'failed', 'reason': 'out of time', 'obligations': [], 'assumed': [], 'opaque': [],
                                   'functions': [], 'targets': [], 'contracts': [], 'bounded': [], 'stats': {}, 'covers': 0, 'wall': time.time() - t}
            queue = []
    results = [outs[h['name']] for h in hs if h['name'] in outs]
    return finish(pid, mod, results, hs)


def known_findings(pid):
    kf = os.path.join(ROOT, 'known_findings.json')
    if not os.path.exists(kf):
        return []
    return [k for k in json.load(open(kf)) if k.get('property') == pid and k.get('status') == 'open']


def is_known(known, harness, obligation):
    return any(k['harness'] == harness and k['obligation'] == obligation for k in known)


def finish(pid, mod, results, hs):
    known = known_findings(pid)
    seen_known = []
    for r in results:
        if r['status'] == 'failed' and not r.get('reason'):
            f = [o for o in r['obligations'] if o['result'] != 'proved']
            if f and all(is_known(known, r['harness'], o['name']) for o in f):
                r['status'] = 'ok'
                for o in f:
                    o['known_finding'] = True
                    seen_known.append('%s: %s' % (r['harness'], o['name']))
    bad = [r for r in results if r['status'] != 'ok']
    obligations = sum(len(r['obligations']) for r in results)
    discharged = sum(1 for r in results for o in r['obligations'] if o['result'] == 'proved')
    backends = {}
    if '--native' in sys.argv:
        for r in results:
            print('NATIVE', r['harness'], json.dumps(r.get('replay'), default=str)[:6000])
    for r in results:
        for k, v in r['stats'].items():
            b = backends.setdefault(k, [0, 0, 0.0])
            for i in range(3):
                b[i] += v[i]
    byback = {}
    for r in results:
        for o in r['obligations']:
            if o['backend']:
                byback[o['backend']] = byback.get(o['backend'], 0) + 1
    viol = 0
    lines = []
    err = False
    confirmed = [r for r in bad if 'failed' in (r.get('replay') or {})]
    rdir = os.path.join(irgen.BUILD, 'replay')
    os.makedirs(rdir, exist_ok=True)
    if bad:
        first = (confirmed or bad)[0]
        path = os.path.join(rdir, '%s.json' % pid)
        json.dump({'property': pid, 'repo': irgen.REPO, 'harness': first['harness'],
                   'failed_obligations': [o for o in first['obligations'] if o['result'] != 'proved'],
                   'reason': first.get('reason'), 'counterexample_on_real_code': first.get('replay'), 'verifier_models': first.get('models'),
                   'all_failing_harnesses': [{'harness': r['harness'], 'status': r['status'], 'reason': r.get('reason'),
                                              'obligations': [o for o in r['obligations'] if o['result'] != 'proved'],
                                              'replay': r.get('replay')} for r in bad],
                   'rerun': 'cd /verif && python3-vt -m gcv.run %s --only "%s" -v' % (pid, first['harness'])}, open(path, 'w'), indent=1, default=str)
        for r in bad:
            for o in r['obligations']:
                if o['result'] != 'proved':
                    print('FAILED %s: %s [%s] in %s -> %s' % (r['harness'], o['name'], o['kind'], o['func'], o['result']))
            if r.get('replay'):
                print('   replay: %s' % json.dumps(r['replay'], default=str)[:1500])
        if all(r['status'] == 'error' for r in bad):
            err = True
        viol = len(bad)
        if not err:
            lines.append('VIOLATION property=%s replay=%s%s' % (pid, path, '' if confirmed else ' no-failing-input-found'))
    bounded = sorted(set(b for r in results for b in r['bounded']))
    nb = sum(len(r['obligations']) for r in results if r['bounded'])
    nbd = sum(o['result'] == 'proved' for r in results if r['bounded'] for o in r['obligations'])
    ev = {'property': pid, 'tier': TIER, 'seed': SEED, 'level': getattr(mod, 'LEVEL', 'proof'), 'wall_s': round(time.time() - T0, 1),
          'violations': viol,
          'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])) + sorted(set(a for r in results for a in r['assumed'])) + ENGINE_ASSUMPTIONS,
          'coverage': {
              'obligations': obligations - nb, 'discharged': discharged - nbd,
              'bounded_obligations': nb, 'bounded_discharged': nbd,
              'checker_cmd': 'cd /verif && python3-vt -m gcv.run %s --tier %s' % (pid, TIER),
              'trusted_base': TRUSTED + ['opaque (no effect on the verified state): ' + o for o in sorted(set(o for r in results for o in r['opaque']))[:60]],
              'harnesses': [{'name': r['harness'], 'obligations': len(r['obligations']), 'discharged': sum(o['result'] == 'proved' for o in r['obligations']),
                             'covers_reached': r['covers'], 'wall_s': r['wall'], 'bounded': r['bounded']} for r in results],
              'functions_under_contract': sorted(set(t for r in results for t in r['targets'])),
              'functions_executed_from_source': sorted(set(t for r in results for t in r['functions'])),
              'callee_contracts_used': sorted(set(t for r in results for t in r['contracts'])),
              'discharged_by_backend': byback,
              'solver_calls': {k: {'calls': v[0], 'unsat': v[1], 'seconds': round(v[2], 2)} for k, v in backends.items()},
              'bounded_stand_ins': bounded,
              'sources_extracted': sorted(mod.SOURCES),
              'known_findings_not_discharged': seen_known,
              'failed': [{'harness': r['harness'], 'status': r['status'], 'reason': r.get('reason')} for r in bad],
          }}
    if getattr(mod, 'LEVEL', 'proof') == 'other':
        ev['coverage']['explanation'] = getattr(mod, 'EXPLANATION', DEFEXPL)
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(ROOT, 'evidence', pid + '.json'), 'w'), indent=1, default=str)
    for k in known:
        print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    print('%s: %d harnesses, %d/%d obligations discharged, %.1fs (%s)' % (pid, len(results), discharged, obligations, time.time() - T0,
                                                                          ', '.join('%s %d' % x for x in sorted(byback.items()))))
    for l in lines:
        print(l, flush=True)
    if err:
        return 2
    return 1 if viol else 0


DEFEXPL = ('Contracts on the real functions, discharged by a deductive verifier (symbolic execution of the LLVM IR compiled from the current source, '
           'obligations decided by z3/cvc5) for all values of every input; the sizes of the data structures and the loops over them are bounded as listed, '
           'so these obligations are counted as bounded, not as proved.')
ENGINE_ASSUMPTIONS = [
    'floating-point arithmetic is treated as exact real arithmetic (no rounding, overflow, NaN or infinity)',
    'signed integer arithmetic does not overflow; counters are treated as mathematical integers',
    'objects declared separately by a contract do not overlap in memory',
    'the dynamic type of an object declared by a contract is the declared class',
]
TRUSTED = [
    'clang 18 front end and the LLVM passes ' + irgen.PASSES + ' (translation of the C++ source to the verified IR)',
    'gcv (this repository): IR semantics, memory model, verification-condition generation',
    'z3 and cvc5',
    'models of libm, the C++ runtime, std::string / streams and message functions in gcv/models.py',
]

if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
