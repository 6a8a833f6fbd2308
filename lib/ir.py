"""Compiles probe translation units against /repo's headers to optimised LLVM IR and loads them."""
import os, re, subprocess, tempfile, shutil, json, hashlib, threading
from concurrent.futures import ThreadPoolExecutor
import vg

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
INC = os.path.join(REPO, 'src/include')
CLANG = 'clang++-18'
OPT = 'opt-18'
BUILD = os.path.join(VERIF, 'build')
IRDUMP = os.path.join(BUILD, 'irdump')

_scratch = None


def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix='verif-ir-')
        import atexit
        atexit.register(lambda: shutil.rmtree(_scratch, ignore_errors=True))
    return _scratch


class BuildError(Exception):
    def __init__(s, cmd, out):
        s.cmd, s.out = cmd, out
        super().__init__(out[-3000:])

    def first(s):
        for l in s.out.splitlines():
            if 'error' in l: return l.strip()
        return s.out.strip().splitlines()[-1] if s.out.strip() else '?'


def sh(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode: raise BuildError(' '.join(cmd), p.stdout)
    return p.stdout


def ensure_tools():
    src = os.path.join(VERIF, 'tools/irdump.cpp')
    if os.path.exists(IRDUMP) and os.path.getmtime(IRDUMP) >= os.path.getmtime(src): return
    os.makedirs(BUILD, exist_ok=True)
    cxx = sh(['llvm-config-18', '--cxxflags']).split()
    cxx = [f for f in cxx if not f.startswith('-std=') and f != '-fno-exceptions']
    ld = sh(['llvm-config-18', '--ldflags', '--libs', 'core', 'irreader', 'support', '--link-shared']).split()
    tmp = IRDUMP + '.%d.tmp' % os.getpid()
    sh(['g++', '-O1', '-std=c++17', src, '-o', tmp] + cxx + ld)
    os.replace(tmp, IRDUMP)


CUT_DEFAULT = [r'^[^(]*std::upper_bound<', r'^[^(]*std::lower_bound<']
OPTFLAGS = ['-inline-threshold=100000', '-inlinecold-threshold=100000', '-inlinehint-threshold=100000', '-unroll-threshold=2000000',
            '-unroll-full-max-count=8192', '-unroll-max-upperbound=0', '-unroll-runtime=false', '-unroll-allow-partial=false',
            '-unroll-max-iteration-count-to-analyze=200',
            '-vectorize-loops=false', '-vectorize-slp=false', '-memdep-block-scan-limit=5000', '-memdep-block-number-limit=5000',
            '-dse-memoryssa-walklimit=2000', '-available-load-scan-limit=2000']


def defs(macros): return ['-D' + m for m in macros]


def compile_ll(src, std='17', macros=(), name='p', flags=()):
    """front end only: unoptimised (but optimisable) IR"""
    d = tempfile.mkdtemp(prefix=name + '-', dir=scratch())
    cpp = os.path.join(d, 'p.cpp')
    with open(cpp, 'w') as f: f.write(src)
    ll = os.path.join(d, 'p0.ll')
    sh([CLANG, '-std=c++' + std, *defs(macros), '-O2', '-gline-tables-only', '-ffp-contract=off', '-fno-vectorize', '-fno-slp-vectorize', '-fno-threadsafe-statics' if False else '-fthreadsafe-statics',
        '-w', '-I' + INC, *flags, '-S', '-emit-llvm', '-Xclang', '-disable-llvm-passes', cpp, '-o', ll])
    return ll


def defined(ll):
    """[(mangled, demangled)] of defined functions"""
    names = []
    with open(ll) as f:
        for l in f:
            if l.startswith('define '):
                m = re.search(r'@"?([\w.$]+)"?\(', l)
                if m: names.append(m.group(1))
    dem = subprocess.run(['c++filt'], input='\n'.join(names), stdout=subprocess.PIPE, text=True).stdout.split('\n')
    return list(zip(names, dem))


def module(src, std='17', macros=(), cut=(), name='p', roots='probe_', keep=(), rounds=2, flags=(), lifetime=False):
    """optimised module: everything inlined into the extern "C" functions named probe_*, except cut functions"""
    ensure_tools()
    ll = compile_ll(src, std, macros, name, flags)
    d = os.path.dirname(ll)
    fns = defined(ll)
    pats = [re.compile(c) for c in list(CUT_DEFAULT) + list(cut)]
    cutn = [m for m, dm in fns if any(p.search(dm) for p in pats)]
    api = [m for m, dm in fns if m.startswith(roots)] + [m for m in cutn if any(re.search(k, dict(fns)[m]) for k in keep)]
    l1 = os.path.join(d, 'p1.bc')
    fa = []
    for m in cutn: fa.append('--force-attribute=%s:noinline' % m)
    # no default cut may be specialised or dead-argument-eliminated
    sh([OPT, ll, '-passes=forceattrs,internalize,globaldce', *fa, '-internalize-public-api-list=' + ','.join(api + cutn), '-o', l1])
    l2 = os.path.join(d, 'p2.bc')
    sh([OPT, l1, '-passes=' + ','.join(['default<O3>'] * rounds), *OPTFLAGS, '-o', l2])
    out = sh([IRDUMP, l2], env=dict(os.environ, **({'IRDUMP_LIFETIME': '1'} if lifetime else {})))
    mod = vg.Module(out.splitlines())
    for n in cutn:
        if n in mod.funcs: mod.funcs[n]['cut'] = True
    mod.path = l2
    return mod


def pmap(fn, items, workers=8):
    with ThreadPoolExecutor(workers) as ex: return list(ex.map(fn, items))
