"""Mechanical extraction: /repo's C++ sources -> LLVM IR, on every run, with the flags of the library build."""
import os, subprocess, hashlib, threading
from concurrent.futures import ThreadPoolExecutor
from .irparse import Module

REPO = os.environ.get('GCV_REPO', '/repo')
LLVM = '/usr/lib/llvm-18/bin'
BUILD = os.environ.get('GCV_BUILD', os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'build'))
INCS = ['-I' + REPO + s for s in ('', '/core', '/aspects', '/ms-utils', '/gunns-ts-models')]
CFLAGS = ['-Dno_TRICK_ENV=1', '-O0', '-Xclang', '-disable-O0-optnone', '-g', '-fstandalone-debug', '-w',
          '-fno-access-control', '-ffp-contract=off', '-fno-discard-value-names', '-fno-math-errno',
          '-fno-builtin-memcpy'] + INCS
PASSES = 'sroa,simplifycfg,loop-simplify,lcssa'


def ir_path(src, extra_text=None):
    h = hashlib.sha1(src.encode()).hexdigest()[:10]
    return os.path.join(BUILD, 'ir', os.path.basename(src).replace('.cpp', '') + '-' + h + '.ll')


def gen(src, out=None):
    """src: path relative to REPO (or absolute). Always recompiled from the current tree."""
    path = src if src.startswith('/') else os.path.join(REPO, src)
    out = out or ir_path(src)
    os.makedirs(os.path.dirname(out), exist_ok=True)
    tmp = out + '.%d.%d.tmp' % (os.getpid(), threading.get_ident())
    r = subprocess.run([LLVM + '/clang++', '-x', 'c++', '-std=gnu++17'] + CFLAGS + ['-S', '-emit-llvm', path, '-o', tmp],
                       capture_output=True, text=True)
    if r.returncode:
        raise RuntimeError('clang failed on %s:\n%s' % (path, r.stderr[-3000:]))
    r = subprocess.run([LLVM + '/opt', '-S', '-speculate-one-expensive-inst=false', '-two-entry-phi-node-folding-threshold=3', '-passes=' + PASSES, tmp, '-o', out], capture_output=True, text=True)
    os.unlink(tmp)
    if r.returncode:
        raise RuntimeError('opt failed on %s:\n%s' % (path, r.stderr[-3000:]))
    return out


class Program:
    """A set of modules, extended on demand by locating the source that defines a missing symbol."""
    def __init__(self, sources):
        self.modules = {}
        self.funcs = {}
        self.vt = {}
        self.missing = set()
        self.add(sources)

    def add(self, sources):
        todo = [s for s in sources if s not in self.modules]
        for s in todo:
            self.modules[s] = None
        with ThreadPoolExecutor(8) as ex:
            outs = list(ex.map(gen, todo))
        for s, o in zip(todo, outs):
            m = Module(o)
            m.src = s
            self.modules[s] = m
            for n, f in m.funcs.items():
                if n not in self.funcs or self.funcs[n].linkonce and not f.linkonce:
                    self.funcs[n] = f
            for n in m.globals:
                if n.startswith('_ZTV') and not m.globals[n].startswith('external') if isinstance(m.globals[n], str) else False:
                    self.vt[n] = m

    def func(self, name):
        f = self.funcs.get(name)
        if f is None:
            for m in self.modules.values():
                if name in m.globals:
                    gi = m.global_init(name)
                    if gi and gi[2] == 'alias':
                        return self.func(gi[1].v)
            if name not in self.missing:
                self.missing.add(name)
                if self._discover(name):
                    return self.func(name)
            return None
        f.parse_body()
        return f

    def vtable(self, cls_mangled):
        n = '_ZTV' + cls_mangled
        if n not in self.vt and n not in self.missing:
            self.missing.add(n)
            self._discover(n)
        m = self.vt.get(n)
        return (m, m.global_init(n)) if m else (None, None)

    def _discover(self, name):
        dem = demangle(name)
        if dem.startswith('vtable for '):
            cls = dem[11:].split('<')[0].split('::')[-1]
            pat = r'\b%s(<[^>]*>)?::~?%s\(' % (cls, cls)
        else:
            base = dem.split('(')[0]
            if base.startswith('std::') or '::' not in base or base.startswith('__'):
                return False
            parts = base.split('::')
            pat = r'\b%s(<[^>]*>)?::%s\s*\(' % (parts[-2].split('<')[0], parts[-1].replace('~', '~'))
        r = subprocess.run(['grep', '-rlE', '--include=*.cpp', pat, REPO + '/core', REPO + '/aspects', REPO + '/ms-utils',
                            REPO + '/gunns-ts-models'], capture_output=True, text=True)
        c = [x for x in r.stdout.split('\n') if x and '/test/' not in x and '/cuda/' not in x]
        c = [os.path.relpath(x, REPO) for x in c]
        c = [x for x in c if x not in self.modules]
        if not c or len(c) > 4:
            return False
        self.add(c)
        return True


_dem = {}


def demangle(n):
    if n not in _dem:
        _dem[n] = subprocess.run(['c++filt', n], capture_output=True, text=True).stdout.strip()
    return _dem[n]


def demangle_many(names):
    names = [n for n in names if n not in _dem]
    if names:
        r = subprocess.run(['c++filt'], input='\n'.join(names) + '\n', capture_output=True, text=True).stdout.split('\n')
        for n, d in zip(names, r):
            _dem[n] = d
