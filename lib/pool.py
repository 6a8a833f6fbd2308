"""Thread-modular analysis of the thread pool (C19, C20, C21).

The pool header is compiled against a model of the threading and container facilities (stubs/pool/model.h), whose operations
stay calls in the IR. Each thread role (constructor, worker, submitter, destructor) is abstractly interpreted on its own over
all of its paths to a fixpoint: queue contents are unknown, reads of state another role may write are unknown, and the state
carries locksets, facts observed under locks, task and thread typestates. The roles' summaries (accesses with locksets, waits
with the facts known there, pushes, notifications, joins) are then compared."""
import copy, re
import ir, vg
from vg import Undecided

UNK = ('unk',)
POS = ('unkpos',)
UNDEF = ('undef',)


class Viol(Exception):
    def __init__(s, prop, rule, msg): s.prop, s.rule, s.msg = prop, rule, msg


def bits(ty):
    m = re.match(r'i(\d+)$', ty or '')
    return int(m.group(1)) if m else 64


class Fn:
    """a function with liveness"""
    def __init__(s, f):
        s.f, s.name, s.blocks = f, f['name'], f['blocks']
        n = len(s.blocks)
        use, deff = [set() for _ in range(n)], [set() for _ in range(n)]
        phiuse = [dict() for _ in range(n)]
        succ = [set() for _ in range(n)]
        def vals(o):
            if isinstance(o, dict):
                if 'v' in o and len(o) == 1: yield o['v']
                else:
                    for k, v in o.items():
                        if k not in ('loc', 'succ', 'in', 'cases'): yield from vals(v)
            elif isinstance(o, list):
                for x in o: yield from vals(x)
        for b, ins in enumerate(s.blocks):
            for I in ins:
                if I['op'] == 'phi':
                    for v, pb in I['in']: phiuse[b].setdefault(pb, set()).update(vals(v))
                else:
                    for v in vals({k: x for k, x in I.items() if k not in ('id', 'in')}):
                        if v not in deff[b]: use[b].add(v)
                deff[b].add(I['id'])
            t = ins[-1]
            if t['op'] == 'br': succ[b].update(t['succ'])
            elif t['op'] == 'switch': succ[b].update([t['default']] + [c[1] for c in t['cases']])
            elif t['op'] == 'invoke': succ[b].update([t['normal'], t['unwind']])
        s.live = [set() for _ in range(n)]
        ch = True
        while ch:
            ch = False
            for b in range(n - 1, -1, -1):
                out = set()
                for t in succ[b]: out |= s.live[t] | phiuse[t].get(b, set())
                L = use[b] | (out - deff[b])
                if L != s.live[b]:
                    s.live[b] = L
                    ch = True
        s.phis = [{I['id'] for I in ins if I['op'] == 'phi'} for ins in s.blocks]


class St:
    def __init__(s):
        s.frames, s.mem, s.info = [], {}, {}
        s.locks, s.facts, s.tasks, s.futs, s.pend, s.threads = (), {}, {}, {}, {}, {}
        s.owed, s.stores, s.heapn, s.tokn, s.exc, s.spawned = {}, {}, 0, 0, 0, 0
        s.unwinding = False
        s.inited = set()
        s.dead = set()
        s.pushed = ()

    def clone(s):
        n = St.__new__(St)
        n.__dict__.update(s.__dict__)
        n.frames = [dict(f, env=dict(f['env'])) for f in s.frames]
        n.mem = {k: dict(v) for k, v in s.mem.items()}
        for k in ('info', 'facts', 'tasks', 'futs', 'pend', 'threads', 'owed', 'stores'): setattr(n, k, dict(getattr(s, k)))
        n.inited, n.dead = set(s.inited), set(s.dead)
        return n

    def key(s, fns):
        fr = tuple((f['fn'], f['b'], tuple(sorted((k, v) for k, v in f['env'].items() if k in fns[f['fn']].live[f['b']] or k in fns[f['fn']].phis[f['b']]))) if i == len(s.frames) - 1 else (f['fn'], f['b'], f['i'], tuple(sorted(f['env'].items(), key=lambda kv: kv[0]))) for i, f in enumerate(s.frames))
        d = lambda m: tuple(sorted(m.items(), key=repr))
        return repr((fr, [(k, d(v)) for k, v in sorted(s.mem.items())], s.locks, d({k: (v[0], sorted(v[1])) for k, v in s.facts.items()}), d(s.tasks), d(s.futs), d(s.pend), d(s.threads), d(s.owed), d(s.stores), s.exc, s.spawned, s.unwinding, sorted(s.dead, key=repr), s.pushed))


class Role:
    """summary of one role"""
    def __init__(s, name):
        s.name = name
        s.acc, s.waits, s.pushes, s.joins, s.exits, s.order, s.reads = {}, [], [], [], [], {}, set()
        s.viol, s.steps, s.states, s.events = {}, 0, 0, 0
        s.graph = {}
        s.runs = 0
        s.starts = []
        s.notifies = set()
        s.wrote = {}

    def bad(s, prop, rule, msg, loc):
        s.viol.setdefault((prop, rule, msg), loc)


class Eng:
    def __init__(s, mod, role, mutable=(), oom=False, start=None, maxstates=60000):
        s.mod, s.role, s.mut, s.oom, s.max = mod, role, set(mutable), oom, maxstates
        s.fns = {}
        s.start = start
        s.shared = set(start.mem) if start else set()

    def fn(s, name):
        if name not in s.fns:
            if name not in s.mod.funcs: raise Undecided('call to ' + name)
            s.fns[name] = Fn(s.mod.funcs[name])
        return s.fns[name]

    # ---------- driver
    def run(s, name, args):
        st = s.start.clone() if s.start else St()
        st.facts, st.frames, st.src, st.lab, st.owed, st.stores, st.pushed = {}, [], None, frozenset(), {}, {}, ()
        s.loc = None
        s.enter(st, name, args)
        seen, work = {}, [st]
        while work:
            st = work.pop()
            while True:
                f = st.frames[-1]
                if f['i'] == 0:
                    k = st.key(s.fns)
                    nid = seen.get(k)
                    new = nid is None
                    if new: nid = seen[k] = len(seen)
                    if st.src is not None: s.role.graph.setdefault(st.src, []).append((nid, st.lab, s.loc))
                    if not new: break
                    if nid > s.max: raise Undecided('too many states')
                    st.src, st.lab = nid, frozenset()
                try: alts = s.step(st)
                except Viol as v:
                    s.role.bad(v.prop, v.rule, v.msg, s.loc)
                    break
                if alts is None: continue
                if not alts: break
                st = alts[0]
                work += alts[1:]
        s.role.states = len(seen)
        return s.role

    def enter(s, st, name, args, ret=None):
        fn = s.fn(name)
        ps = fn.f['params']
        if len(ps) != len(args): raise Undecided('argument count')
        st.frames.append(dict(fn=name, b=0, i=0, env={p['id']: a for p, a in zip(ps, args)}, prev=None, ret=ret, d=len(st.frames)))
        if len(st.frames) > 60: raise Undecided('call depth')

    # ---------- values
    def val(s, o, env):
        if 'v' in o:
            if o['v'] not in env: raise Undecided('unavailable value')
            return env[o['v']]
        if 'c' in o: return int(o['c']) & ((1 << o['w']) - 1)
        if 'null' in o: return 0
        if 'undef' in o: return UNDEF
        if 'g' in o:
            if o.get('tls'): return ('p', 'tls:' + o['g'], 0)
            return ('f', o['g']) if o['g'] in s.mod.funcs else ('p', 'g:' + o['g'], 0)
        if 'f' in o: return UNK
        if 'zero' in o: return 0
        if 'ce' in o:
            c = o['ce']
            if c['op'] == 'gep': return s.gep(c, env)
            return s.val(c['ops'][0], env)
        if 'agg' in o: return ('agg',) + tuple(s.val(x, env) for x in o['agg'])
        return UNK

    def gep(s, I, env):
        p = s.val(I['base'], env)
        off = I['off']
        for v, sc in I['vars']:
            x = s.val(v, env)
            if not isinstance(x, int): return UNK
            w = 64
            off += (x - (1 << w) if x >> 63 else x) * sc
        return s.padd(p, off)

    def padd(s, p, off):
        if isinstance(p, int): return (p + off) & (2 ** 64 - 1)
        if p[0] == 'p': return ('p', p[1], p[2] + off)
        if p[0] == 'f' and off == 0: return p
        return UNK

    # ---------- memory
    def access(s, st, o, off, size, rw, atomic=False):
        if o.startswith(('stack', 'elem', 'g:', 'tls')): return
        ph = s.phase(st)
        k = (ph, o, off, size, rw, atomic, frozenset(st.locks))
        if k not in s.role.acc: s.role.acc[k] = s.loc

    def phase(s, st):
        n = s.role.name
        if n.startswith('ctor'): return 'ctor:pre' if not st.spawned else 'ctor:post%d' % st.spawned if any(v == 'run' for v in st.threads.values()) else 'ctor:end'
        if n == 'dtor': return 'dtor:post' if any(v == 'run' for v in st.threads.values()) else 'dtor:end'
        return n

    def chk(s, st, p, size, what):
        if isinstance(p, int): raise Viol('C21' if s.role.name == 'dtor' or s.role.name.startswith('ctor') else 'C20', 'memory', 'null pointer %s in %s' % (what, s.role.name))
        if p[0] != 'p': raise Undecided('%s through %s' % (what, p[0]))
        o, off = p[1], p[2]
        if o in st.dead: raise Viol('C21', 'memory', '%s of released memory in %s' % (what, s.role.name))
        z = st.info.get(o, (None,))[0]
        if z is not None and (off < 0 or off + size > z): raise Viol('C20', 'memory', '%s out of bounds in %s' % (what, s.role.name))
        return o, off

    def load(s, st, I, p, size, atomic):
        o, off = s.chk(st, p, size, 'read')
        s.access(st, o, off, size, 'r', atomic)
        if o.startswith('tls') and o not in st.mem: return [(st, 0)]
        if o.startswith('g:'): return [(st, UNK)]
        if (o, off) in s.mut and o in s.shared:
            s.role.reads.add((o, off))
            k = ('mem', o, off)
            st.lab |= {k}
            if size == 1:
                f = st.facts.get(k)
                if f and f[1]: return [(st, f[0])]
                out = []
                for v in (0, 1):
                    n = st if v else st.clone()
                    n.facts[k] = (v, frozenset(st.locks))
                    out.append((n, v))
                return out
            return [(st, UNK)]
        c = st.mem.get(o, {}).get(off)
        if c is None:
            if any(a < off + size and off < a + w[0] for a, w in st.mem.get(o, {}).items()): return [(st, UNK)]
            if o in s.shared or o.startswith('heap') or o == 'pool': s.role.bad('C21', 'initialised before use', '%s reads %s, which construction never initialises' % (s.role.name, s.nm(o, off)), s.loc)
            return [(st, UNK)]
        if c[0] != size:
            if isinstance(c[1], int) and c[0] > size: return [(st, c[1] & ((1 << 8 * size) - 1))]
            return [(st, UNK)]
        return [(st, c[1])]

    def store(s, st, p, size, v, atomic=False):
        o, off = s.chk(st, p, size, 'write')
        s.access(st, o, off, size, 'w', atomic)
        if size > 1 and o in s.shared and s.role.name.startswith('worker'):   # counters: widened at once
            s.mut.add((o, off))
            v = UNK
        m = st.mem.setdefault(o, {})
        for a in [a for a, w in m.items() if a < off + size and off < a + w[0]]: del m[a]
        m[off] = (size, v)
        if o in s.shared or o == 'pool':
            st.facts.pop(('mem', o, off), None)
            s.role.wrote[(o, off)] = v if isinstance(v, int) else -1
            st.stores[(o, off)] = (v if isinstance(v, int) else -1, st.locks, ())

    def nm(s, o, off): return '%s+%d' % (o, off)

    # ---------- execution
    def goto(s, st, b):
        f = st.frames[-1]
        fn = s.fns[f['fn']]
        prev = f['b']
        new = {}
        i = 0
        for I in fn.blocks[b]:
            if I['op'] != 'phi': break
            for v, pb in I['in']:
                if pb == prev:
                    new[I['id']] = s.val(v, f['env'])
                    break
            i += 1
        f['env'].update(new)
        f['b'], f['i'], f['phi'] = b, 0, i

    def throw(s, st):
        """unwinds to the next landing pad; [] when the exception leaves the role"""
        st.unwinding = True
        while st.frames:
            f = st.frames[-1]
            I = s.fns[f['fn']].blocks[f['b']][f['i']]
            if I['op'] == 'invoke':
                s.goto(st, I['unwind'])
                return [st]
            if I.get('nounwind') or f.get('nounwind'): pass
            s.leave(st)
        s.exit(st, 'throw')
        return []

    def leave(s, st):
        f = st.frames.pop()
        for o in [o for o in st.mem if o.startswith('stack%d.' % f['d'])]:
            del st.mem[o]
        for t in [t for t in st.tasks if t[0].startswith('stack%d.' % f['d'])]: del st.tasks[t]

    def ret(s, st, v):
        if not len(st.frames) > 1:
            s.leave(st)
            s.exit(st, 'ret')
            return []
        s.leave(st)
        f = st.frames[-1]
        return s.finish(st, v)

    def finish(s, st, v):
        """the call or invoke at the top frame's position returned v"""
        f = st.frames[-1]
        I = s.fns[f['fn']].blocks[f['b']][f['i']]
        f['env'][I['id']] = v
        if I['op'] == 'invoke': s.goto(st, I['normal'])
        else: f['i'] += 1
        return [st]

    def exit(s, st, how):
        r = s.role
        if st.locks and not (how == 'throw' and r.name.startswith('worker')): r.bad('C20', 'locks are released', '%s ends (%s) while holding a mutex' % (r.name, how), s.loc)
        if st.pend and how == 'ret': r.bad('C20', 'taken tasks leave the queue', '%s ends with a moved-from task left in a queue' % r.name, s.loc)
        r.exits.append((how, st, s.loc))

    def fork(s, st, vals, fact=None):
        out = []
        for k, v in enumerate(vals):
            n = st if k == len(vals) - 1 else st.clone()
            if fact: n.facts[fact] = (v, frozenset(st.locks))
            out.append((n, v))
        return out

    def step(s, st):
        f = st.frames[-1]
        fn = s.fns[f['fn']]
        if f['i'] == 0 and f.get('phi'):
            f['i'] = f.pop('phi')
        I = fn.blocks[f['b']][f['i']]
        if 'loc' in I: s.loc = I['loc']
        s.role.steps += 1
        op, env = I['op'], f['env']
        V = lambda o: s.val(o, env)
        if op == 'br':
            if 'cond' not in I: s.goto(st, I['succ'][0]); return None
            c = V(I['cond'])
            if isinstance(c, int): s.goto(st, I['succ'][0 if c & 1 else 1]); return None
            if c == UNDEF: raise Undecided('branch on undefined value')
            a = st.clone()
            s.goto(st, I['succ'][0])
            s.goto(a, I['succ'][1])
            return [st, a]
        if op == 'switch':
            c = V(I['cond'])
            if isinstance(c, int):
                t = next((t for cv, t in I['cases'] if int(cv['c']) & (2 ** 64 - 1) == c), I['default'])
                s.goto(st, t)
                return None
            outs = []
            for t in {I['default']} | {t for _, t in I['cases']}:
                n = st.clone()
                s.goto(n, t)
                outs.append(n)
            return outs
        if op == 'ret': return s.ret(st, V(I['ops'][0]) if I['ops'] else None)
        if op == 'unreachable': return []
        if op == 'resume': return s.throw_from(st)
        if op in ('call', 'invoke'): return s.call(st, I)
        if op == 'load':
            outs = s.load(st, I, V(I['ptr']), I['size'], 'atomic' in I)
            for n, v in outs:
                g = n.frames[-1]
                if isinstance(v, int): v &= (1 << min(64, 8 * I['size'])) - 1
                g['env'][I['id']] = v
                g['i'] += 1
            return [n for n, _ in outs]
        if op == 'store': s.store(st, V(I['ptr']), I['size'], V(I['val']), 'atomic' in I)
        elif op == 'atomicrmw':
            p, v = V(I['ops'][0]), V(I['ops'][1])
            z = max(1, bits(I['ty']) // 8)
            outs = s.load(st, I, p, z, True)
            for n, old in outs:
                nv = v if I['rmw'] == 'xchg' else UNK
                if isinstance(old, int) and isinstance(v, int): nv = {'xchg': v, 'or': old | v, 'and': old & v, 'add': old + v, 'sub': old - v}.get(I['rmw'], 0) & ((1 << 8 * z) - 1)
                elif I['rmw'] == 'or' and isinstance(v, int) and z == 1: nv = v
                s.store(n, p, z, nv, True)
                g = n.frames[-1]
                g['env'][I['id']] = old
                g['i'] += 1
            return [n for n, _ in outs]
        elif op == 'cmpxchg':
            p, c, v = [V(x) for x in I['ops']]
            outs = []
            for ok in (0, 1):
                n = st.clone()
                n.frames[-1]['env'][I['id']] = ('agg', UNK if not ok else c, ok)
                n.frames[-1]['i'] += 1
                if ok: s.store(n, p, 8, v, True)
                else: s.access(n, p[1], p[2], 8, 'r', True)
                outs.append(n)
            return outs
        elif op == 'alloca':
            o = 'stack%d.%s.%d' % (f['d'], f['fn'][-20:], I['id'])
            st.info[o] = (I['size'] if I['size'] >= 0 else None,)
            st.mem.setdefault(o, {})
            env[I['id']] = ('p', o, 0)
        elif op == 'gep': env[I['id']] = s.gep(I, env)
        elif op == 'icmp': env[I['id']] = s.icmp(I, V(I['ops'][0]), V(I['ops'][1]))
        elif op == 'select':
            c = V(I['ops'][0])
            if isinstance(c, int): env[I['id']] = V(I['ops'][1 if c & 1 else 2])
            else:
                a = st.clone()
                env[I['id']] = V(I['ops'][1])
                a.frames[-1]['env'][I['id']] = s.val(I['ops'][2], a.frames[-1]['env'])
                f['i'] += 1
                a.frames[-1]['i'] += 1
                return [st, a]
        elif op in ('zext', 'bitcast', 'ptrtoint', 'inttoptr', 'freeze', 'addrspacecast'): env[I['id']] = V(I['ops'][0])
        elif op == 'sext':
            v = V(I['ops'][0])
            w = bits(I['oty'])
            env[I['id']] = (v - (1 << w)) & ((1 << bits(I['ty'])) - 1) if isinstance(v, int) and v >> (w - 1) else v
        elif op == 'trunc':
            v = V(I['ops'][0])
            env[I['id']] = v & ((1 << bits(I['ty'])) - 1) if isinstance(v, int) else UNK
        elif op == 'landingpad':
            if I['clauses'] and not I['catchall']: raise Undecided('typed catch')
            env[I['id']] = ('agg', ('p', 'g:exception', 0), 1 if I['clauses'] else 0)
        elif op == 'extractvalue':
            v = V(I['ops'][0])
            for i in I['idx']: v = v[1 + i] if isinstance(v, tuple) and v[0] == 'agg' else UNK
            env[I['id']] = v
        elif op == 'insertvalue':
            v = V(I['ops'][0])
            i = I['idx'][0]
            v = list(v) if isinstance(v, tuple) and v[0] == 'agg' else ['agg', UNK, UNK, UNK, UNK]
            v[1 + i] = V(I['ops'][1])
            env[I['id']] = tuple(v)
        elif op == 'fence': pass
        else: env[I['id']] = s.arith(op, I, [V(o) for o in I['ops']])
        f['i'] += 1
        return None

    def throw_from(s, st):
        s.leave(st)
        if not st.frames:
            s.exit(st, 'throw')
            return []
        return s.throw(st) or None if False else s.throw(st)

    def arith(s, op, I, a):
        x, y = (a + [0])[:2]
        w = bits(I['ty'])
        M = (1 << w) - 1
        if isinstance(x, int) and isinstance(y, int):
            if op in ('udiv', 'urem', 'sdiv', 'srem') and y == 0: raise Viol('C20', 'arithmetic', 'division by zero in %s' % s.role.name)
            sg = lambda v: v - (1 << w) if v >> (w - 1) else v
            r = {'add': lambda: x + y, 'sub': lambda: x - y, 'mul': lambda: x * y, 'udiv': lambda: x // y, 'urem': lambda: x % y, 'and': lambda: x & y, 'or': lambda: x | y, 'xor': lambda: x ^ y,
                 'shl': lambda: x << y, 'lshr': lambda: x >> y, 'ashr': lambda: sg(x) >> y, 'sdiv': lambda: int(sg(x) / sg(y)), 'srem': lambda: sg(x) - sg(y) * int(sg(x) / sg(y))}.get(op)
            if r: return r() & M
            raise Undecided('instruction ' + op)
        pt = lambda v: isinstance(v, tuple) and v[0] == 'p'
        if op == 'sub' and pt(x) and pt(y) and x[1] == y[1]: return (x[2] - y[2]) & M
        if op in ('add', 'sub') and pt(x) and isinstance(y, int): return ('p', x[1], x[2] + (y if op == 'add' else -y))
        if op == 'and' and isinstance(y, int) and isinstance(x, tuple) and x[0] in 'pf' and y in (1, 3, 7): return 0
        if op == 'and' and 0 in (x, y): return 0
        if op == 'or' and POS in (x, y): return POS
        return UNK

    def icmp(s, I, a, b):
        p = I['pred']
        w = bits(I['oty'])
        if isinstance(a, int) and isinstance(b, int):
            if p[0] == 's': a, b = [v - (1 << w) if v >> (w - 1) else v for v in (a, b)]
            return int({'eq': a == b, 'ne': a != b, 'lt': a < b, 'gt': a > b, 'le': a <= b, 'ge': a >= b}[p if p in ('eq', 'ne') else p[1:]])
        if a == POS and b == 0 or b == POS and a == 0: return {'eq': 0, 'ne': 1}.get(p, UNK) if p in ('eq', 'ne') else ({'ugt': 1, 'ule': 0}.get(p, UNK) if a == POS else {'ult': 1, 'uge': 0}.get(p, UNK))
        if a == POS and b == 1 and p in ('ult', 'uge'): return int(p == 'uge')
        ispt = lambda v: isinstance(v, tuple) and v[0] in 'pf'
        if ispt(a) and ispt(b) and a[0] == b[0] == 'p' and a[1] == b[1]: return s.icmp(dict(pred=p, oty='i64'), a[2] & (2 ** 64 - 1), b[2] & (2 ** 64 - 1))
        if p in ('eq', 'ne') and (ispt(a) and (b == 0 or ispt(b)) or ispt(b) and a == 0): return int((a == b) == (p == 'eq'))
        return UNK

    # ---------- calls
    def call(s, st, I):
        f = st.frames[-1]
        args = [s.val(a, f['env']) for a in I['args']]
        name = I.get('callee')
        if name is None:
            p = s.val(I['fptr'], f['env'])
            if not (isinstance(p, tuple) and p[0] == 'f'): raise Undecided('indirect call')
            name = p[1]
        if name.startswith('ev_'):
            s.role.events += 1
            h = getattr(s, name, None)
            if not h: raise Undecided('operation ' + name)
            outs = h(st, *args)
            if outs is None: outs = [(st, 0)]
            res = []
            for n, v in outs:
                if v == 'throw': res += s.throw(n)
                else: res += s.finish(n, v)
            return res
        if name in ('_Znwm', '_Znam', '_ZnwmSt11align_val_t'):
            outs = []
            if s.oom and not st.unwinding:
                n = st.clone()
                outs += s.throw(n)
            return s.finish(st, s.new(st, args[0])) + outs
        if name.startswith(('_ZdlPv', '_ZdaPv')):
            s.free(st, args[0])
            return s.finish(st, 0)
        if name == '__cxa_begin_catch':
            st.exc += 1
            st.unwinding = False
            return s.finish(st, args[0])
        if name == '__cxa_end_catch':
            st.exc = max(0, st.exc - 1)
            return s.finish(st, 0)
        if name == '__cxa_rethrow' or name == '__cxa_throw': return s.throw(st)
        if name == '__cxa_allocate_exception': return s.finish(st, ('p', 'g:exception', 0))
        if name == '__clang_call_terminate' or 'terminate' in name and name.startswith('_ZSt'):
            if not s.role.name.startswith('worker'): s.role.bad('C21', 'no termination of the program', '%s may call std::terminate' % s.role.name, s.loc)
            return []
        if name.startswith('llvm.threadlocal.address'): return s.finish(st, args[0])
        if name.startswith('llvm.memset'):
            if isinstance(args[2], int) and args[1] == 0:
                for k in range(0, args[2], 8): s.store(st, s.padd(args[0], k), min(8, args[2] - k), 0)
            return s.finish(st, 0)
        if name.startswith(('llvm.memcpy', 'llvm.memmove')):
            if isinstance(args[2], int):
                for k in range(0, args[2], 8):
                    z = min(8, args[2] - k)
                    v = s.load(st, I, s.padd(args[1], k), z, False)
                    s.store(st, s.padd(args[0], k), z, v[0][1])
            else: raise Undecided('memcpy')
            return s.finish(st, 0)
        if name.startswith(('llvm.umin', 'llvm.umax', 'llvm.usub.sat')):
            a, b = args[:2]
            v = UNK if not (isinstance(a, int) and isinstance(b, int)) else min(a, b) if 'umin' in name else max(a, b) if 'umax' in name else max(0, a - b)
            return s.finish(st, v)
        if name.startswith('llvm.'): return s.finish(st, UNK)
        if name in s.mod.funcs:
            s.enter(st, name, args)
            return [st]
        raise Undecided('call to %s' % I.get('dem', name)[:100])

    def new(s, st, n):
        st.heapn += 1
        o = 'heap.%s%d' % ('' if s.role.name.startswith('ctor') else s.role.name + '.', st.heapn)
        st.info[o] = (n if isinstance(n, int) else None,)
        st.mem[o] = {}
        return ('p', o, 0)

    def alive(s, st): return [t for t, v in st.threads.items() if v == 'run']

    def free(s, st, p):
        if p == 0: return
        if not (isinstance(p, tuple) and p[0] == 'p'): raise Undecided('delete')
        if p[1] in st.dead: raise Viol('C21', 'memory', 'double delete in %s' % s.role.name)
        ts = [a for a, v in st.threads.items() if v == 'run']
        if ts and any(True for (o, off) in s.workerreads if o == p[1]): s.role.bad('C21', 'workers are joined first', '%s releases memory the workers use while they may be running' % s.role.name, s.loc)
        st.dead.add(p[1])
        st.mem.pop(p[1], None)

    workerreads = ()

    # ---------- modelled operations
    def a(s, p, what='object'):
        if not (isinstance(p, tuple) and p[0] == 'p'):
            if p == 0: raise Viol('C20', 'memory', 'null %s in %s' % (what, s.role.name))
            raise Undecided('unknown %s' % what)
        return (p[1], p[2])

    def live(s, st, p, what):
        o = s.a(p, what)
        if o[0] in st.dead or o in st.dead: raise Viol('C21', 'memory', '%s used after it was destroyed in %s' % (what, s.role.name))
        if (o[0] in s.shared or o[0] == 'pool') and o not in st.inited and what in ('mutex', 'condition variable', 'container') and not any(off == o[1] for off in st.mem.get(o[0], {})):
            s.role.bad('C21', 'initialised before use', '%s uses a %s before it is constructed' % (s.role.name, what), s.loc)
        return o

    def ev_lock(s, st, m):
        m = s.live(st, m, 'mutex')
        if m in st.locks: raise Viol('C20', 'no self-deadlock', '%s locks a mutex it already holds' % s.role.name)
        for h in st.locks: s.role.order.setdefault((h, m), s.loc)
        st.locks = st.locks + (m,)
        st.lab |= {('lock',)}

    def ev_try_lock(s, st, m):
        mm = s.live(st, m, 'mutex')
        b = st.clone()
        b.lab |= {('busy',)}
        st.locks = st.locks + (mm,)
        return [(st, 1), (b, 0)]

    def ev_unlock(s, st, m):
        m = s.live(st, m, 'mutex')
        if m not in st.locks: raise Viol('C20', 'locks are balanced', '%s unlocks a mutex it does not hold' % s.role.name)
        s.release(st, m)
        st.locks = tuple(x for x in st.locks if x != m)

    def release(s, st, m):
        for q, (e, L) in st.pend.items():
            if m not in L or set(L) & set(x for x in st.locks if x != m): continue
            raise Viol('C20', 'taken tasks leave the queue', '%s takes a task and releases the lock without removing it from the queue' % s.role.name)
        for k, (v, L) in list(st.facts.items()):
            if m in L:
                st.facts[k] = (v, L - {m})

    def ev_destroy(s, st, o, kind):
        a = s.a(o)
        kn = {1: 'mutex', 2: 'condition variable', 3: 'task queue', 4: 'thread object'}[kind]
        if kind == 4:
            if st.threads.get(a) == 'run': raise Viol('C21', 'workers are joined first', '%s destroys a thread that has not been joined' % s.role.name)
            st.threads.pop(a, None)
            return
        if s.alive(st) and not a[0].startswith('stack'): raise Viol('C21', 'workers are joined first', '%s destroys a %s while workers may be running' % (s.role.name, kn))
        if not a[0].startswith('stack'): st.dead.add(a)

    def ev_wait(s, st, cv, m):
        cv, m = s.live(st, cv, 'condition variable'), s.live(st, m, 'mutex')
        if m not in st.locks: raise Viol('C20', 'waits hold their mutex', '%s waits without holding the mutex' % s.role.name)
        if len(st.locks) > 1: raise Viol('C20', 'waits hold only their mutex', '%s waits while holding another mutex' % s.role.name)
        s.role.waits.append((cv, m, dict(st.facts), s.loc))
        s.release(st, m)
        st.lab |= {('wait',)}

    def ev_wait_timed(s, st, cv, m):
        cv, m = s.live(st, cv, 'condition variable'), s.live(st, m, 'mutex')
        s.release(st, m)
        st.lab |= {('wait',)}
        return s.fork(st, [0, 1])

    def ev_notify(s, st, cv, all_):
        cv = s.live(st, cv, 'condition variable')
        st.owed = {}
        s.role.notifies.add((cv, bool(all_)))
        if all_:
            for k, (v, L, n) in list(st.stores.items()): st.stores[k] = (v, L, tuple(sorted(set(n) | {cv})))

    def ev_thread_start(s, st, t, fn, clo):
        t = s.a(t)
        outs = []
        if s.oom:
            n = st.clone()
            outs.append((n, 'throw'))
        st.threads[t] = 'run'
        st.spawned += 1
        s.role.starts.append((fn, clo))
        return [(st, 0)] + outs

    def ev_alloc(s, st, n):
        st.heapn += 1
        o = 'heap.closure%d' % st.heapn
        st.info[o] = (n,)
        st.mem[o] = {}
        return [(st, ('p', o, 0))]

    def ev_print(s, st, v): return None
    def ev_hardware(s, st): return [(st, s.hw)]
    hw = 2
    def ev_yield(s, st): return None
    def ev_thread_joinable(s, st, t): return [(st, int(st.threads.get(s.a(t)) == 'run'))]

    def ev_thread_join(s, st, t):
        t = s.a(t)
        if st.threads.get(t) != 'run': raise Viol('C21', 'threads are joined once', '%s joins a thread that is not joinable' % s.role.name)
        s.role.joins.append((dict(st.stores), st.locks, s.loc))
        st.threads[t] = 'joined'

    def ev_thread_detach(s, st, t): raise Viol('C21', 'workers are joined first', '%s detaches a worker, which can then outlive the pool' % s.role.name)

    def ev_thread_move(s, st, to, fr):
        to, fr = s.a(to), s.a(fr)
        if st.threads.get(to) == 'run': raise Viol('C21', 'workers are joined first', '%s overwrites a running thread object' % s.role.name)
        if fr in st.threads: st.threads[to] = st.threads.pop(fr)

    # tasks: slot -> (token, state)
    def full(s, st, a):
        if a[0].startswith('elem'): return True
        return a in st.tasks and st.tasks[a][1] == 'full'

    def ev_task_init(s, st, t): st.tasks.pop(s.a(t), None)

    def ev_task_make(s, st, t):
        outs = []
        if s.oom: outs.append((st.clone(), 'throw'))
        st.tokn += 1
        st.tasks[s.a(t)] = ('T%d' % st.tokn, 'full')
        return [(st, 0)] + outs

    def take(s, st, a):
        """moves the task out of a slot; returns the token or None"""
        if a[0].startswith('elem'):
            _, o, off, back = a[0].split('|')
            q = (o, int(off))
            s.access(st, q[0], q[1], 24, 'w')
            f = st.facts.get(('empty', q))
            if not (f and f[0] == 0 and f[1]): raise Viol('C20', 'only existing tasks are taken', '%s takes a task from a queue that may be empty' % s.role.name)
            if q in st.pend: raise Viol('C20', 'a task is taken once', '%s takes the same task twice' % s.role.name)
            st.pend[q] = (int(back), st.locks)
            return ('from:%s' % q[0], 'full')
        return st.tasks.pop(a, None)

    def ev_task_move(s, st, to, fr):
        to, fr = s.a(to), s.a(fr)
        if to == fr: return
        if st.tasks.get(to, (0, ''))[1] == 'full': raise Viol('C20', 'every taken task is run', '%s overwrites a task that has not been run' % s.role.name)
        v = s.take(st, fr)
        if to[0].startswith('elem'):
            if v: raise Undecided('store into a queue element')
            return
        if v: st.tasks[to] = v
        else: st.tasks.pop(to, None)

    def ev_task_swap(s, st, x, y):
        x, y = s.a(x), s.a(y)
        if x[0].startswith('elem'): x, y = y, x
        if x[0].startswith('elem'): raise Undecided('swap of two queue elements')
        old = st.tasks.get(x)
        if y[0].startswith('elem') and old and old[1] == 'full': raise Undecided('swap into a queue element')
        v = s.take(st, y)
        st.tasks.pop(x, None)
        if v: st.tasks[x] = v
        if old and not y[0].startswith('elem'): st.tasks[y] = old

    def ev_task_drop(s, st, t):
        a = s.a(t)
        if st.tasks.get(a, (0, ''))[1] == 'full' and not st.unwinding: raise Viol('C20', 'every taken task is run', '%s drops a task that has not been run' % s.role.name)
        st.tasks.pop(a, None)

    def ev_task_run(s, st, t):
        a = s.a(t)
        if st.locks: raise Viol('C20', 'tasks run without locks', '%s runs a task while holding a pool mutex' % s.role.name)
        if a[0].startswith('elem'): raise Viol('C20', 'tasks run without locks', '%s runs a task inside a queue' % s.role.name)
        v = st.tasks.get(a)
        if not v: raise Viol('C20', 'only taken tasks are run', '%s runs an empty task' % s.role.name)
        if v[1] == 'run': raise Viol('C20', 'every task runs once', '%s runs a task twice' % s.role.name)
        st.tasks[a] = (v[0], 'run')
        s.role.runs += 1
        st.lab |= {('run',)}
        for k, (v, L) in list(st.facts.items()):   # a task takes arbitrary time
            if not L and not (k[0] == 'empty'): pass

    def ev_task_valid(s, st, t):
        a = s.a(t)
        return [(st, int(a in st.tasks or a[0].startswith('elem')))]

    def ev_task_future(s, st, t, f):
        a = s.a(t)
        v = st.tasks.get(a)
        if not v: raise Viol('C20', 'the future belongs to the task', '%s asks a moved-from or empty task for its future' % s.role.name)
        st.futs[s.a(f)] = v[0]

    def ev_future_init(s, st, f): st.futs.pop(s.a(f), None)

    def ev_future_move(s, st, to, fr):
        to, fr = s.a(to), s.a(fr)
        v = st.futs.pop(fr, None)
        if v: st.futs[to] = v
        else: st.futs.pop(to, None)

    def ev_future_drop(s, st, f): st.futs.pop(s.a(f), None)
    def ev_future_wait(s, st, f): return None
    def ev_future_get(s, st, f): st.futs.pop(s.a(f), None)
    def ev_future_valid(s, st, f): return [(st, int(s.a(f) in st.futs))]

    # queues
    def q(s, st, p, rw):
        q = s.live(st, p, 'container')
        s.access(st, q[0], q[1], 24, rw)
        return q

    def ev_q_init(s, st, p):
        q = s.a(p)
        st.inited.add(q)
        s.access(st, q[0], q[1], 24, 'w')

    def empt(s, st, q):
        k = ('empty', q)
        f = st.facts.get(k)
        if f and f[1]: outs = [(st, f[0])]
        else: outs = s.fork(st, [0, 1], k)
        for n, v in outs: n.lab |= {('empty', q, v)}
        return outs

    def ev_q_empty(s, st, p): return s.empt(st, s.q(st, p, 'r'))
    def ev_q_size(s, st, p): return [(n, 0 if v else POS) for n, v in s.empt(st, s.q(st, p, 'r'))]

    def ev_q_ref(s, st, p, back):
        q = s.q(st, p, 'r')
        f = st.facts.get(('empty', q))
        if not (f and f[0] == 0 and f[1]): raise Viol('C20', 'only existing tasks are taken', '%s accesses the end of a queue that may be empty' % s.role.name)
        return [(st, ('p', 'elem|%s|%d|%d' % (q[0], q[1], back), 0))]

    def ev_q_push(s, st, p, back, e):
        q = s.q(st, p, 'w')
        a = s.a(e)
        outs = []
        if s.oom and s.role.name == 'client': outs.append((st.clone(), 'throw'))
        if not a[0].startswith('elem') and not s.full(st, a): raise Viol('C20', 'only live tasks are queued', '%s queues an empty or already executed task' % s.role.name)
        v = s.take(st, a)
        st.facts[('empty', q)] = (0, frozenset(st.locks))
        st.owed[q] = s.loc and tuple(s.loc)
        s.role.pushes.append((q, st.locks, s.loc))
        st.pushed = tuple(sorted(set(st.pushed) | {(v[0], q)})) if s.role.name == 'client' else ()
        if s.role.name == 'client' and len([1 for t, _ in st.pushed if t == v[0]]) > 1: raise Viol('C20', 'every task runs once', 'a task is queued twice')
        st.lab |= {('push', q)}
        return [(st, 0)] + outs

    def ev_q_pop(s, st, p, back):
        q = s.q(st, p, 'w')
        f = st.facts.get(('empty', q))
        if not (f and f[0] == 0 and f[1]): raise Viol('C20', 'only existing tasks are taken', '%s removes a task from a queue that may be empty' % s.role.name)
        if q not in st.pend: raise Viol('C20', 'no task is discarded', '%s removes a task from a queue without taking it' % s.role.name)
        if st.pend[q][0] != back:
            raise Viol('C20', 'no task is discarded', '%s takes the task at one end of a queue and removes the one at the other end' % s.role.name)
        del st.pend[q]
        del st.facts[('empty', q)]
        st.lab |= {('pop', q)}

    def ev_q_clear(s, st, p):
        q = s.q(st, p, 'w')
        if s.role.name.startswith(('worker', 'client')): raise Viol('C20', 'no task is discarded', '%s clears a queue' % s.role.name)

    def ev_q_swap(s, st, x, y): raise Undecided('queue swap')


# ---------------------------------------------------------------- roles and rules
def pool_tu(T):
    s = '#include <model.h>\n#include <DedicatedThreadPool.hpp>\n#undef std\nusing namespace intp;\ntypedef unsigned long ul;\ntypedef DedicatedThreadPool<%s> P;\n' % T
    s += 'struct Work { %s operator()() const; };\n' % T
    s += 'extern "C" ul probe_size() { return sizeof(P); }\n'
    s += 'extern "C" void probe_ctor(void* p, ul n) { ::new (p) P(n); }\nextern "C" void probe_ctor_default(void* p) { ::new (p) P(); }\nextern "C" void probe_dtor(P* p) { p->~P(); }\n'
    s += 'extern "C" void probe_submit(P* p, void* f) { ::new (f) pstd::future<%s>(p->queue_task(Work())); }\n' % T
    s += 'extern "C" void probe_empty(P* p) { p->is_main_queue_empty(); }\nextern "C" void probe_num(P* p) { p->thread_num(); }\n'
    s += 'template <typename X> auto instance(int) -> decltype(X::get_instance(ul()), void()) { X::get_instance(2); X::get_instance(); }\nextern "C" void probe_instance() { instance<P>(0); }\n'
    return s


def module(T, macros, std):
    import os
    return ir.module(pool_tu(T), std=std, macros=macros, name='pool', flags=('-fno-access-control', '-I' + os.path.join(ir.VERIF, 'stubs/pool')))


class Pool:
    """all roles of a pool with n workers"""
    def __init__(s, mod, n, default=None):
        s.mod, s.n = mod, n
        s.roles = {}
        s.size = None
        for I in mod.funcs['probe_size']['blocks'][0]:
            if I['op'] == 'ret': s.size = int(I['ops'][0]['c'])
        s.default = default
        s.build()

    def init(s):
        st = St()
        st.info['pool'] = (s.size,)
        st.mem['pool'] = {}
        st.info['caller'] = (64,)
        st.mem['caller'] = {}
        return st

    def build(s):
        P = ('p', 'pool', 0)
        # construction without failures, then with a failure at any point
        def ctor(name, oom):
            e = Eng(s.mod, Role(name), start=s.init(), oom=oom)
            e.shared = set()
            if s.default is None: return e.run('probe_ctor', [P, s.n])
            e.hw = s.default
            return e.run('probe_ctor_default', [P])
        c = ctor('ctor', False)
        s.roles['ctor'] = c
        done = [x for x in c.exits if x[0] == 'ret']
        s.viable = len(done) == 1
        if not s.viable: return
        st = done[0][1]
        s.after = st
        s.workers = len([1 for v in st.threads.values() if v == 'run'])
        if s.default is not None: return
        starts = list(dict.fromkeys(c.starts))
        shared = set(st.mem)
        wrs = {}
        s.partial = {}
        def run(nm, e, fn, args):
            """the role's summary; a role that could not be analysed completely keeps what was found so far"""
            try: roles[nm] = e.run(fn, args)
            except Undecided as u:
                roles[nm] = e.role
                s.partial[nm] = str(u)
        for it in range(6):
            roles = {}
            s.partial = {}
            mut = lambda nm: {k for k, w in wrs.items() if nm.startswith('client') or w - {nm}}
            for i, (fn, clo) in enumerate(starts):
                nm = 'worker%d' % i
                run(nm, Eng(s.mod, Role(nm), mut(nm), start=st), fn[1], [clo])
            rd = set()
            first = {}
            for i, r in enumerate(roles.values()):
                for k in r.acc:
                    rd.add((k[1], k[2]))
                    first.setdefault((k[1], k[2]), i)
            for nm, pr, args in (('client', 'probe_submit', [P, ('p', 'caller', 0)]), ('client-empty', 'probe_empty', [P]), ('client-num', 'probe_num', [P])):
                run(nm, Eng(s.mod, Role(nm), mut(nm), start=st, oom=True), pr, args)
            e = Eng(s.mod, Role('dtor'), mut('dtor'), start=st)
            e.workerreads = rd
            run('dtor', e, 'probe_dtor', [P])
            new = {}
            for nm, r in roles.items():
                for (ph, o, off, size, rw, at, L) in r.acc:
                    if rw == 'w' and ph != 'dtor:end' and o in shared: new.setdefault((o, off), set()).add(nm)
            for (ph, o, off, size, rw, at, L) in c.acc:
                if rw == 'w' and ph.startswith('ctor:post') and first.get((o, off), 10 ** 9) < int(ph[9:]): new.setdefault((o, off), set()).add('ctor')
            if all(w <= wrs.get(k, set()) for k, w in new.items()): break
            for k, w in new.items(): wrs.setdefault(k, set()).update(w)
        s.roles.update(roles)
        e = Eng(s.mod, Role('ctor failing'), start=s.init(), oom=True)
        e.shared = set()
        e.workerreads = rd
        run('ctor failing', e, 'probe_ctor', [P, s.n])
        s.roles['ctor failing'] = roles['ctor failing']

    def wr(s): return [r for k, r in s.roles.items() if k.startswith('worker')]


def field(o, off): return 'pool state' if o == 'pool' else 'worker queue state' if o.startswith('heap') else o


def fl(loc): return ' < '.join(loc) if loc else None


CONC = [('worker', 'worker'), ('worker', 'client'), ('client', 'client'), ('ctor:post', 'worker'), ('dtor:post', 'worker')]


def kind(ph): return 'ctor:post' if ph.startswith('ctor:post') else 'worker' if ph.startswith('worker') else 'client' if ph.startswith('client') else ph


def races(rep, p, ids, prop):
    byloc = {}
    for r in p.roles.values():
        for k, loc in r.acc.items(): byloc.setdefault(k[1], []).append((k, loc))
    seen = set()
    npairs = 0
    for o, L in byloc.items():
        for i, (a, la) in enumerate(L):
            for b, lb in L[i:]:
                if a[4] == 'r' and b[4] == 'r': continue
                if a[2] >= b[2] + b[3] or b[2] >= a[2] + a[3]: continue
                ka, kb = kind(a[0]), kind(b[0])
                if (ka, kb) not in CONC and (kb, ka) not in CONC: continue
                if ka == kb == 'worker' and a[0] == b[0]: continue
                if 'ctor:post' in (ka, kb) and 'worker' in (ka, kb):
                    c, w = (a, b) if ka == 'ctor:post' else (b, a)
                    if int(w[0][6:]) >= int(c[0][9:]): continue
                if prop == 'C21' and 'ctor:post' not in (ka, kb): continue
                npairs += 1
                ok = (a[5] and b[5]) or (a[6] & b[6])
                if ok:
                    rep.check(True, 'race', '')
                    continue
                sig = tuple(sorted((fl(la) or '?', fl(lb) or '?')))
                if sig in seen: continue
                seen.add(sig)
                rep.check(False, 'conflicting accesses are ordered' if prop == 'C19' else 'workers start on finished state',
                          '%s by %s and %s by %s of the same %s have no common mutex and are not both atomic' % ('write' if a[4] == 'w' else 'read', a[0], 'write' if b[4] == 'w' else 'read', b[0], field(o, a[2])), '%s  and  %s' % (fl(la), fl(lb)))
    return npairs


def u_c19(rep, T, macros, std, n):
    p = Pool(module(T, macros, std), n)
    if not p.viable: return rep.undecided('construction has no single outcome')
    count(rep, p)
    races(rep, p, None, 'C19')
    incomplete(rep, p)


def incomplete(rep, p):
    for nm, why in p.partial.items(): rep.undecided('%s: %s' % (nm, why))
    return bool(p.partial)


def count(rep, p):
    rep.steps += sum(r.steps for r in p.roles.values())
    rep.rows += sum(r.states for r in p.roles.values())


def report(rep, p, prop):
    for r in p.roles.values():
        rep.check(True, 'role analysed', '')
        for (pr, rule, msg), loc in r.viol.items():
            if pr == prop: rep.check(False, rule, msg, loc)


def term_flag(p):
    """locations whose value makes the workers leave: {loc: value}"""
    d = p.roles['dtor']
    st = {}
    for stores, L, loc in d.joins:
        for k, v in stores.items(): st[k] = v[0]
    if not d.joins:
        st.update(d.wrote)
    flags = None
    for r in p.wr():
        for how, x, loc in r.exits:
            if how != 'ret': continue
            f = {(k[1], k[2]): v[0] for k, v in x.facts.items() if k[0] == 'mem'}
            c = {k: v for k, v in f.items() if st.get(k) == v}
            flags = c if flags is None else {k: v for k, v in flags.items() if c.get(k) == v}
    return flags


def cycles(graph, bad):
    """a cycle using only edges without a label for which bad() holds: its location, or None"""
    G = {}
    for a, es in graph.items():
        for b, lab, loc in es:
            if not any(bad(l) for l in lab): G.setdefault(a, {})[b] = loc
    return cycle(G)


def cycle(G):
    """G: {a: {b: loc}}: the location of an edge on a cycle, or None"""
    color = {}
    for r in list(G):
        if r in color: continue
        color[r] = 1
        st = [(r, iter(G.get(r, {}).items()))]
        while st:
            x, it = st[-1]
            for y, loc in it:
                c = color.get(y)
                if c == 1: return loc or ['?']
                if c is None:
                    color[y] = 1
                    st.append((y, iter(G.get(y, {}).items())))
                    break
            else:
                color[x] = 2
                st.pop()
    return None


def waits_on(p):
    return {(cv, m) for r in p.wr() for cv, m, f, loc in r.waits}


def u_c20(rep, T, macros, std, n):
    p = Pool(module(T, macros, std), n)
    if not p.viable: return rep.undecided('construction has no single outcome')
    count(rep, p)
    report(rep, p, 'C20')
    if incomplete(rep, p): return
    rep.check(p.workers >= 1, 'the pool has workers', 'a pool constructed for %d threads starts no worker' % n)
    for k in (0, 1):
        d = Pool(p.mod, n, default=k)
        if d.viable: rep.check(d.workers >= 1, 'the pool has workers', 'with hardware_concurrency() = %d the pool starts no worker' % k)
    z = Pool0(p.mod)
    if z is not None: rep.check(z >= 1, 'the pool has workers', 'a pool constructed for 0 threads starts no worker')
    flags = term_flag(p)
    for r in p.wr():
        for how, x, loc in r.exits:
            if how == 'ret':
                f = {(k[1], k[2]): v[0] for k, v in x.facts.items() if k[0] == 'mem'}
                rep.check(bool(flags), 'workers serve until told to stop', '%s can stop while the pool is alive' % r.name, loc)
        if r.states > 1: rep.check(r.runs > 0, 'workers run tasks', '%s never runs a task' % r.name)
    c = p.roles['client']
    pushers = {}
    for nm, r in p.roles.items():
        for q, L, loc in r.pushes: pushers.setdefault(q, set()).add(nm)
    ext = {q for q, ns in pushers.items() if len(ns) > 1 or not next(iter(ns)).startswith('worker')}
    # submission
    for how, x, loc in c.exits:
        if how != 'ret':
            rep.check(not x.pushed, 'a submission that fails queues nothing', 'queue_task throws after queueing the task', loc)
            continue
        rep.check(len(x.pushed) == 1, 'a submission queues its task once', 'queue_task returns with the task queued %d times' % len(x.pushed), loc)
        rep.check(bool(x.pushed) and x.futs.get(('caller', 0)) == x.pushed[0][0], 'the future belongs to the task', 'the future returned by queue_task is not that of the queued task', loc)
        rep.check(not x.owed, 'submissions wake a worker', 'queue_task can return without notifying a worker after queueing the task', loc)
    cvs = {cv for cv, m in waits_on(p)}
    if cvs and c.pushes: rep.check(any(cv in cvs for cv, al in c.notifies), 'submissions wake a worker', 'queue_task notifies a condition variable no worker waits on')
    # workers must be able to take tasks from every queue that is pushed to
    popped = {}
    for nm, r in p.roles.items():
        for a, es in r.graph.items():
            for b, lab, loc in es:
                for l in lab:
                    if l[0] == 'pop': popped.setdefault(l[1], set()).add(nm)
    for q, ns in pushers.items():
        rep.check(any(x.startswith('worker') for x in popped.get(q, ())), 'queued tasks are taken', 'no worker takes tasks from a queue that tasks are put into', next((loc for r in p.roles.values() for qq, L, loc in r.pushes if qq == q), None))
        for nm in ns:
            if nm.startswith('worker') and q not in ext: rep.check(nm in popped.get(q, ()), 'a worker serves its own queue', '%s fills a queue it never takes tasks from' % nm)
    # waiting
    for r in p.wr():
        own = {q for q, ns in pushers.items() if ns == {r.name}}
        for cv, m, facts, loc in r.waits:
            for q in ext:
                f = facts.get(('empty', q))
                rep.check(bool(f) and f[0] == 1 and m in f[1], 'no sleep while tasks are pending', '%s can go to sleep without having found a queue other threads push to empty under the waited mutex' % r.name, loc)
                for nm, o in p.roles.items():
                    for q2, L, l2 in o.pushes:
                        if q2 == q: rep.check(m in L, 'no lost wake-up', '%s pushes to a queue without holding the mutex a sleeping worker tests it under' % nm, l2)
            for q in own:
                f = facts.get(('empty', q))
                rep.check(bool(f) and f[0] == 1, 'no sleep while tasks are pending', '%s can go to sleep although its own queue may hold tasks' % r.name, loc)
        stop = lambda l: l[0] in ('run', 'pop', 'push', 'wait', 'busy') or (l[0] == 'empty' and l[1] in ext and l[2] == 1)
        cyc = cycles(r.graph, stop)
        rep.check(cyc is None, 'workers look for pending tasks', '%s can loop forever without looking at the submitted tasks' % r.name, cyc)
    # lock order
    G = {}
    for r in p.roles.values():
        for (a, b), loc in r.order.items(): G.setdefault(a, {})[b] = loc
    cy = cycle(G)
    rep.check(cy is None, 'mutexes are locked in one order', 'the pool locks two mutexes in both orders (deadlock)', cy)


def Pool0(mod):
    p = Pool.__new__(Pool)
    p.mod, p.n, p.roles, p.default = mod, 0, {}, None
    p.size = next(int(I['ops'][0]['c']) for I in mod.funcs['probe_size']['blocks'][0] if I['op'] == 'ret')
    e = Eng(mod, Role('ctor'), start=p.init())
    e.shared = set()
    r = e.run('probe_ctor', [('p', 'pool', 0), 0])
    d = [x for x in r.exits if x[0] == 'ret']
    return len([1 for v in d[0][1].threads.values() if v == 'run']) if len(d) == 1 else None


def u_c21(rep, T, macros, std, n):
    p = Pool(module(T, macros, std), n)
    if not p.viable: return rep.undecided('construction has no single outcome')
    count(rep, p)
    report(rep, p, 'C21')
    races(rep, p, None, 'C21')
    if incomplete(rep, p): return
    flags = term_flag(p)
    for r in p.wr(): rep.check(any(how == 'ret' for how, x, l in r.exits), 'workers leave their loop', '%s never leaves its loop' % r.name)
    rep.check(bool(flags), 'workers are told to stop', 'the destructor joins the workers without setting what makes them leave their loop', next((l for s_, L, l in p.roles['dtor'].joins), None))
    flags = flags or {}
    W = waits_on(p)
    wlocks = {m for r in p.wr() for k in r.acc for m in k[6]} | {m for cv, m in W}
    for nm in ('dtor', 'ctor failing'):
        r = p.roles[nm]
        for how, x, loc in r.exits:
            if nm == 'dtor' or how == 'throw':
                left = [t for t, v in x.threads.items() if v == 'run']
                rep.check(not left, 'workers are joined', '%s ends while workers are still running' % nm, loc)
        for stores, L, loc in r.joins:
            rep.check(not (set(L) & wlocks), 'joining holds no lock the workers need', '%s joins a worker while holding a mutex the worker needs' % nm, loc)
            for k, v in flags.items():
                z = stores.get(k)
                if not rep.check(bool(z) and z[0] == v, 'workers are told to stop', '%s joins the workers without telling them to stop' % nm, loc): continue
                for cv, m in W:
                    rep.check(m in z[1], 'no missed termination', '%s sets the termination flag without holding the mutex sleeping workers test it under' % nm, loc)
                    rep.check(cv in z[2], 'no missed termination', '%s joins the workers without notifying all of them after setting the termination flag' % nm, loc)
    for r in p.wr():
        for cv, m, facts, loc in r.waits:
            for k, v in flags.items():
                f = facts.get(('mem',) + k)
                rep.check(bool(f) and f[0] != v and m in f[1], 'no sleep after termination', '%s can go to sleep without having checked the termination flag under the waited mutex' % r.name, loc)
        cyc = cycles(r.graph, lambda l: l[0] in ('run', 'pop', 'push', 'busy') or (l[0] == 'mem' and l[1:] in flags))
        rep.check(cyc is None, 'workers notice termination', '%s can loop forever without looking at the termination flag' % r.name, cyc)
    for k, v in flags.items():
        c = p.after.mem.get(k[0], {}).get(k[1])
        rep.check(bool(c) and c[1] != v, 'workers start serving', 'the termination flag is not cleared when the workers start')


def units(pid, tier):
    fn = {'C19': u_c19, 'C20': u_c20, 'C21': u_c21}[pid]
    us = []
    for std in ('11', '14', '17', '20'):
        for mac in ((), ('INTP_DEBUG',)):
            for T in ('void', 'int'):
                for n in ((1, 2, 3) if tier == 'quick' else (1, 2, 3, 4, 5)):
                    if T == 'int' and (mac or n != 2): continue
                    us.append(('pool<%s> %d workers c++%s%s' % (T, n, std, ' debug' if mac else ''), fn, (T, mac, std, n), 300))
    return us
