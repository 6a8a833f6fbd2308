"""C22, C23: the parallel sections (control-point solving, cell-layout generation).

The library is compiled with INTP_MULTITHREAD against a model of the threading facilities (stubs/sect/sect.h) in which a
packaged_task keeps its functor and the analysis decides when it runs: at submission, when its future is waited for, or all
of them in reverse order at the first wait. Exceptions are followed through the landing pads. The memory accesses of each
task, and of the caller while tasks are unfinished, are recorded."""
import os
import ir, tu, vg, fun
from fun import IF, NOD, CELL
from vg import Undecided, Throw
from probe import World, memory_ok

MT = 'INTP_MULTITHREAD'
VAL = '''
extern "C" void ev_op();
struct Val { double v; Val() : v() {} Val(double x) : v(x) {} Val(const Val& o) : v(o.v) {} Val& operator=(const Val& o) { ev_op(); v = o.v; return *this; }
  Val& operator+=(const Val& o) { ev_op(); v += o.v; return *this; } Val& operator-=(const Val& o) { ev_op(); v -= o.v; return *this; } Val& operator*=(double s) { ev_op(); v *= s; return *this; } Val& operator/=(double s) { ev_op(); v /= s; return *this; }
  friend Val operator+(Val x, const Val& y) { return x += y; } friend Val operator-(Val x, const Val& y) { return x -= y; } friend Val operator*(double s, Val x) { return x *= s; } friend Val operator*(Val x, double s) { return x *= s; } friend Val operator/(Val x, double s) { return x /= s; } Val operator-() const { return Val(-v); } };
'''


def module(D, O, kinds, macros, std, val, mt=True, features=(), flags=()):
    s = tu.interp(D, O, kinds, 'Val' if val else 'double', 'double', features)
    inc = '#include <Interpolation.hpp>'
    assert inc in s
    if mt: s = s.replace(inc, '#include <sect.h>\n#include <DedicatedThreadPool.hpp>\n%s\n#undef std\n%s' % (inc, VAL if val else ''), 1)
    return ir.module(s, std=std, macros=tuple(macros) + ((MT,) if mt else ()), name='sect', flags=tuple(flags) + ('-I' + os.path.join(ir.VERIF, 'stubs/sect'),), lifetime=True)


class Run:
    """one analysis of a call under a schedule, with at most one injected failure"""
    def __init__(s, mode, fail=None):
        s.mode, s.fail = mode, fail

    def begin(s):
        s.tasks, s.cur, s.macc, s.tacc, s.nalloc, s.nops, s.failed = [], None, {}, {}, 0, {}, False
        s.clock = 0

    def hooks(s):
        H = {}
        for n in ('make', 'drop', 'run', 'wait', 'get', 'ready', 'op', 'async_drop'): H['ev_' + n] = (lambda f: lambda ev, I, a, d: f(ev, *a))(getattr(s, 'h_' + n))
        for n in ('_Znwm', '_Znam', 'posix_memalign'): H[n] = (lambda n: lambda ev, I, a, d: s.alloc(ev, I, a, n))(n)
        return H

    def inject(s, ev, kind, idx):
        if s.fail == (kind, idx):
            s.failed = True
            raise Throw('injected ' + kind, ev.loc)

    # allocations by the caller once work has been submitted
    def alloc(s, ev, I, a, n):
        if s.tasks and s.cur is None and not ev.caught and not s.failed:
            s.nalloc += 1
            if n == 'posix_memalign':
                if s.fail == ('allocation', s.nalloc):
                    s.failed = True
                    return 12
            else: s.inject(ev, 'allocation', s.nalloc)
        return vg._posix_memalign(ev, I, a) if n == 'posix_memalign' else vg._new(ev, I, a)

    def tick(s):
        s.clock += 1
        return s.clock

    def h_op(s, ev):
        if s.failed or not s.tasks: return
        if s.cur is None and not any(t['st'] == 'pending' or not t['waited'] for t in s.tasks): return
        k = (s.cur,)
        s.nops[k] = s.nops.get(k, 0) + 1
        s.inject(ev, 'operation', (s.cur, s.nops[k]))

    def h_make(s, ev, run, functor, result):
        s.inject(ev, 'submission', len(s.tasks) + 1)
        t = dict(id=len(s.tasks) + 1, run=run, f=functor, r=result, st='pending', exc=None, waited=False, loc=ev.loc, made=s.tick(), done=1 << 60)
        s.tasks.append(t)
        if s.mode == 'eager': s.execute(ev, t)
        return t['id']

    def execute(s, ev, t):
        if t['st'] != 'pending': return
        t['st'] = 'running'
        old, s.cur = s.cur, t['id']
        b, o = ev.base(t['run'])
        fn = ev.an.mod.funcs.get(b[3:])
        if fn is None: raise Undecided('task body')
        caught, ev.caught = ev.caught, []
        try:
            s.inject(ev, 'task', t['id'])
            ev.call(fn, [t['f'], t['r']])
        except vg.Terminate: raise
        except Throw as x: t['exc'] = x
        ev.caught = caught
        s.cur = old
        t['st'] = 'done'

    def task(s, i):
        if not isinstance(i, int): raise Undecided('unknown future')
        if i == 0: raise Throw('future_error')
        return s.tasks[i - 1]

    def settle(s, ev, t):
        if t['st'] == 'dropped': return
        if s.mode == 'reverse':
            for u in reversed(s.tasks): s.execute(ev, u)
        s.execute(ev, t)
        if not t['waited']: t['done'] = s.tick()
        t['waited'] = True

    def h_wait(s, ev, i): s.settle(ev, s.task(i))

    def h_get(s, ev, i):
        t = s.task(i)
        s.settle(ev, t)
        if t['st'] == 'dropped': raise Throw('future_error')
        if t['exc'] is not None: raise t['exc']

    def h_async_drop(s, ev, i): s.settle(ev, s.task(i))

    def h_run(s, ev, i): s.execute(ev, s.task(i))

    def h_ready(s, ev, i): return int(s.task(i)['st'] == 'done')

    def h_drop(s, ev, i):
        t = s.task(i)
        if t['st'] == 'pending' and not t['waited']: t['st'] = 'dropped'

    def log(s, ev, rw, b, off, size):
        if b is None: return
        if s.cur is None:
            al = [t['id'] for t in s.tasks if not t['waited']]
            if not al: return
            s.macc.setdefault((b, off if isinstance(off, int) else None, size, rw), [set(), ev.loc])[0].update(al)
        else: s.tacc.setdefault(s.cur, {}).setdefault((b, off if isinstance(off, int) else None, size, rw), ev.loc)


class Sched:
    """rows of one call under one schedule"""
    def __init__(s, w, fn, args, mode, fail=None, facts=()):
        r = Run(mode, fail)
        H = r.hooks()
        w.hooks = dict(w.hooks, **H)
        w.opts = dict(unwind=True, globals=True, log=r.log)
        # each row starts afresh
        real = vg.Eval.run
        def run(ev):
            r.begin()
            row = real(ev)
            row.tasks, row.macc, row.tacc, row.nalloc, row.nops, row.failed = r.tasks, r.macc, r.tacc, r.nalloc, r.nops, r.failed
            return row
        vg.Eval.run = run
        try: s.rows = w.table(fn, *args, facts=facts)
        finally: vg.Eval.run = real


def grid(mod, D, O, kinds, per, n, macros):
    return IF(mod, D, O, kinds, per, n, macros, 'num', build=False)


def call(f, mode, fail=None):
    w = f.w.fork()
    return w, Sched(w, 'probe_mkf', [f.c] + f.ns() + f.ps() + f.rng, mode, fail).rows


def loc(l): return l


def u_c22(rep, D, O, kinds, per, n, macros, std, val=True, dense=False):
    mod = module(D, O, kinds, macros, std, val)
    f = grid(mod, D, O, kinds, per, n, macros)
    steps = 0
    w, rows = call(f, 'lazy')
    base = None
    for r in rows:
        rep.rows += 1
        if r.outcome == 'undecided':
            rep.undecided('%s: %s' % (f.tag(), r.why))
            continue
        rep.check(r.outcome == 'ret', 'construction', '%s construction throws %s' % (f.tag(), r.thrown), r.loc)
        memory_ok(rep, r, 'tasks end before the data they use')
        finished(rep, f, r, 'returns')
        base = r
    rep.steps += w.steps
    if base is None: return
    nt, na = len(base.tasks), base.nalloc
    fails = [('submission', k) for k in range(2, nt + 1)] + [('task', k) for k in range(1, nt + 1)] + [('allocation', k) for k in range(1, na + 1)]
    for (c,), m in sorted(base.nops.items(), key=repr):
        ks = sorted({1, 2, m // 2, m - 1, m} if not dense else set(range(1, m + 1, max(1, m // 40))) | {m})
        fails += [('operation', (c, k)) for k in ks if 1 <= k <= m]
    for fl in fails:
        what = {'submission': 'the submission of task %s fails', 'task': 'task %s fails', 'allocation': 'allocation %s of the caller fails', 'operation': 'operation %s on a value throws'}[fl[0]] % (fl[1] if fl[0] != 'operation' else '%d of %s' % (fl[1][1], 'the caller' if fl[1][0] is None else 'task %d' % fl[1][0]))
        for mode in ('lazy', 'eager') if fl[0] in ('task', 'submission') else ('lazy',):
            w, rows = call(f, mode, fl)
            rep.steps += w.steps
            for r in rows:
                rep.rows += 1
                if r.outcome == 'undecided':
                    rep.undecided('%s, %s: %s' % (f.tag(), what, r.why))
                    continue
                if not r.failed: continue
                rep.check(r.outcome == 'throw', 'failures surface', '%s: %s, but the construction returns normally' % (f.tag(), what), r.ev.loc)
                rep.check(not isinstance(r.thrown, str) or 'terminate' not in r.thrown, 'failures surface', '%s: %s and std::terminate is called' % (f.tag(), what), r.loc)
                memory_ok(rep, r, 'tasks end before the data they use')
                finished(rep, f, r, 'throws when ' + what)


def finished(rep, f, r, how):
    for t in r.tasks:
        if t['st'] == 'dropped':
            rep.check(r.outcome == 'throw', 'every task runs', '%s %s although task %d was discarded' % (f.tag(), how, t['id']), t['loc'])
            continue
        rep.check(t['waited'], 'no task outlives the call', '%s: the construction %s without waiting for task %d of %d' % (f.tag(), how, t['id'], len(r.tasks)), t['loc'])


def bytesof(acc):
    d = {}
    for (b, off, size, rw), l in acc.items():
        if off is None or size is None: raise Undecided('access at an unknown offset')
        d.setdefault(b, []).append((off, off + size, rw, l))
    return d


def conflicts(A, B):
    """first conflicting pair of accesses between two contexts"""
    for b in set(A) & set(B):
        x, y = sorted(A[b], key=lambda t: t[0]), sorted(B[b], key=lambda t: t[0])
        wa, wb = any(t[2] == 'w' for t in x), any(t[2] == 'w' for t in y)
        if not wa and not wb: continue
        ya = {}
        for t in y:
            for k in range(t[0] >> 3, ((t[1] - 1) >> 3) + 1): ya.setdefault(k, []).append(t)
        for s in x:
            for k in range(s[0] >> 3, ((s[1] - 1) >> 3) + 1):
                for t in ya.get(k, ()):
                    if (s[2] == 'w' or t[2] == 'w') and s[0] < t[1] and t[0] < s[1]: return b, s, t
    return None


def u_c23(rep, D, O, kinds, shapes, macros, std, modes=('eager', 'lazy', 'reverse')):
    seq = module(D, O, kinds, macros, std, False, mt=False)
    par_ = module(D, O, kinds, macros, std, False)
    cell = CELL in macros
    for per, n in shapes:
        g = IF(seq, D, O, kinds, per, n, macros, 'num', build=False)
        want = None
        w = g.w.fork()
        r = w.one('probe_mkf', *([g.c] + g.ns() + g.ps() + g.rng))
        want = contents(w, r.ret, cell, g)
        for mode in modes:
            f = grid(par_, D, O, kinds, per, n, macros)
            w, rows = call(f, mode)
            rep.steps += w.steps
            for r in rows:
                rep.rows += 1
                if r.outcome == 'undecided':
                    rep.undecided('%s: %s' % (f.tag(), r.why))
                    continue
                if not rep.check(r.outcome == 'ret', 'same result in every schedule', '%s (%s schedule) throws %s' % (f.tag(), mode, r.thrown), r.loc): continue
                memory_ok(rep, r)
                v = f.w.fork()
                v.ev = r.ev
                got = contents(v, r.ret, cell, f)
                same = got == want
                rep.check(same, 'same result in every schedule', '%s: with tasks run %s, control point %s differs from the sequential build' % (f.tag(), {'eager': 'at once', 'lazy': 'when waited for', 'reverse': 'in reverse order'}[mode], diff(want, got)), None)
                if mode == 'eager': disjoint(rep, f, r)


def diff(a, b):
    if len(a) != len(b): return '(count %d instead of %d)' % (len(b), len(a))
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y: return i
    return '?'


def contents(w, fp, cell, f):
    """all stored control points"""
    w = w.fork()
    w.opts = None
    k = w.one('probe_cpsize', fp).ret
    p = w.one('probe_cp', fp).ret
    return w.read(p, k)


def disjoint(rep, f, r):
    acc = {k: bytesof(a) for k, a in r.tacc.items()}
    ids = sorted(acc)
    for i, a in enumerate(ids):
        for b in ids[i + 1:]:
            ta, tb = r.tasks[a - 1], r.tasks[b - 1]
            if not overlap(r, a, b): continue
            c = conflicts(acc[a], acc[b])
            rep.check(c is None, 'tasks touch disjoint elements', '%s: task %d and task %d of %d access the same element, one of them writing' % (f.tag(), a, b, len(ids)), c and (c[1][3] or ta['loc']))
    for a in ids:
        m = {k: l for k, (al, l) in r.macc.items() if a in al}
        c = conflicts(acc[a], bytesof(m)) if m else None
        rep.check(c is None, 'the caller and the tasks touch disjoint elements', '%s: the caller and task %d access the same element, one of them writing, before the task is waited for' % (f.tag(), a), c and c[2][3])


def overlap(r, a, b):
    """whether task b was submitted before task a was waited for"""
    return r.tasks[b - 1]['made'] < r.tasks[a - 1]['done'] and r.tasks[a - 1]['made'] < r.tasks[b - 1]['done']


def units(pid, tier):
    T = tier == 'thorough'
    us = []
    nm = lambda mac, std: '+'.join([m.replace('INTP_', '').replace('PERIODIC_', '') for m in mac] or ['plain']) + ' c++' + std
    confs = [((CELL, NOD), '17'), ((), '17'), ((CELL,), '20'), ((NOD,), '14'), ((CELL, NOD), '11')]
    if pid == 'C22':
        for mac, std in confs:
            for D, O, kinds, per, n in [(2, 1, 'uu', [0, 0], [4, 5]), (2, 2, 'uu', [1, 0], [7, 4]), (1, 3, 'u', [0], [6]), (2, 3, 'uu', [0, 1], [4, 8]), (3, 1, 'uuu', [0, 0, 0], [2, 3, 4])]:
                if D == 3 and std not in ('17', '11') and not T: continue
                us.append(('%dD order %d %s %s' % (D, O, n, nm(mac, std)), u_c22, (D, O, kinds, per, n, mac, std, True, T), 600))
            us.append(('2D order 1 doubles %s' % nm(mac, std), u_c22, (2, 1, 'uu', [0, 0], [5, 7], mac, std, False, T), 600))
        return us
    top = 60 if not T else 200
    for mac, std in confs:
        full = std in ('17', '11')
        sh2 = [([0, 0], [2, k]) for k in range(2, top, 1 if full else 3)] + [([k % 2, (k // 2) % 2], [k, 9]) for k in range(3, 20, 3)]
        for c in range(4): us.append(('2D order 1 part %d %s' % (c, nm(mac, std)), u_c23, (2, 1, 'uu', sh2[c::4], mac, std), 600))
        us.append(('1D %s' % nm(mac, std), u_c23, (1, 2, 'u', [([0], [k]) for k in (3, 4, 7)] + [([1], [k]) for k in (4, 5, 9)], mac, std), 300))
        us.append(('2D order 3 %s' % nm(mac, std), u_c23, (2, 3, 'uu', [([0, 0], [4, 6]), ([1, 0], [8, 5]), ([0, 1], [5, 9]), ([1, 1], [8, 10])], mac, std), 300))
        us.append(('2D order 2 non-uniform %s' % nm(mac, std), u_c23, (2, 2, 'nu', [([0, 0], [5, 11]), ([1, 0], [7, 4]), ([0, 1], [12, 6])], mac, std), 300))
        us.append(('3D order 1 %s' % nm(mac, std), u_c23, (3, 1, 'uuu', [([0, 0, 0], [2, 3, 4]), ([1, 0, 0], [3, 4, 2]), ([0, 1, 0], [2, 3, 5]), ([0, 0, 1], [5, 2, 3]), ([1, 1, 1], [3, 4, 5])], mac, std), 300))
        if full: us.append(('4D order 1 %s' % nm(mac, std), u_c23, (4, 1, 'uuuu', [([0, 0, 0, 0], [2, 3, 2, 3]), ([0, 1, 0, 1], [2, 3, 3, 2])], mac, std), 300))
    # many lines: the partition arithmetic
    big = [100, 129, 257, 513, 1000, 1025, 2050] + ([4100, 5000, 8193] if T else [])
    for mac, std in (confs[:3] if T else confs[:2]):
        for k in big:
            for n in ([k, 2], [2, k]):
                if n[0] == k or k > 1000: us.append(('2D order 1 %s %s' % (n, nm(mac, std)), u_c23, (2, 1, 'uu', [([0, 0], n)], mac, std, ('eager',)), 600))
    return us
