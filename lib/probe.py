"""World: abstract memory shared by a sequence of probe calls, and the report of a check."""
import json, os, time, traceback
import vg, ir
from vg import iatom, fsym, Undecided


class _Pre:
    def __init__(s):
        s.objs, s.heapn, s.freed, s.bounds, s.known, s.desc = {}, 0, set(), {}, {}, {}
        s.ffacts, s.ifacts, s.ext = [], [], []
        s.fm, s.rd, s.fmods = {}, {}, set()


class World:
    def __init__(s, mod, facts=(), hooks=None, max_rows=20000):
        s.mod = mod
        s.ev = _Pre()
        s.facts = [(vg.cone.normal(f) if isinstance(f, dict) else f, st) for f, st in facts]
        s.hooks = hooks or {}
        s.max_rows = max_rows
        s.steps = 0
        s.calls = 0
        s.opts = None

    def fork(s):
        w = World(s.mod, s.facts, s.hooks, s.max_rows)
        w.ev = s.ev
        w.opts = s.opts
        return w

    def fact(s, big, small, strict=True):
        d = vg.lincomb(big.lin, small.lin, -1)
        f = (vg.cone.normal(d), strict)
        if not vg.cone.positive(s.facts, f[0], strict): s.facts.append(f)

    def array(s, name, vals, esz=8):
        """a caller-owned array"""
        n = '&' + name
        o = vg.Obj(n, esz * len(vals), 'caller')
        for i, v in enumerate(vals): o.store(i * esz, esz, v)
        pre = s.ev
        e = _Pre()
        e.objs = dict(pre.objs)
        e.objs[n] = o
        e.heapn, e.freed, e.bounds, e.known, e.desc = pre.heapn, pre.freed, pre.bounds, pre.known, pre.desc
        e.ffacts, e.ifacts, e.ext = pre.ffacts, pre.ifacts, pre.ext
        e.fm, e.rd, e.fmods = pre.fm, pre.rd, pre.fmods
        s.ev = e
        return iatom(n)

    def kill(s, p):
        """the caller releases an array"""
        b, o = s.ev_base(p)
        e = _Pre()
        e.__dict__.update({k: getattr(s.ev, k) for k in e.__dict__})
        e.freed = set(s.ev.freed) | {b}
        s.ev = e

    @staticmethod
    def ev_base(p):
        bs = [m for m, c in p.t.items() if len(m) == 1 and m[0].startswith('&') and c == 1]
        return bs[0][0], None

    def overwrite(s, p, vals, esz=8):
        """the caller writes other values into an array"""
        b, _ = s.ev_base(p)
        o = s.ev.objs[b].clone()
        for i, v in enumerate(vals): o.store(i * esz, esz, v)
        e = _Pre()
        e.__dict__.update({k: getattr(s.ev, k) for k in e.__dict__})
        e.objs = dict(s.ev.objs)
        e.objs[b] = o
        s.ev = e

    def syms(s, name, n): return s.array(name, [fsym('%s%d' % (name, i)) for i in range(n)])

    def table(s, fn, *args, facts=(), max_steps=4000000):
        """all rows of a call; the world is unchanged"""
        if fn not in s.mod.funcs: raise Undecided('probe %s vanished' % fn)
        fs = list(s.facts)
        for f, st in facts: fs.append((vg.cone.normal(f) if isinstance(f, dict) else f, st))
        an = vg.Analysis(s.mod, fn, list(args), fs, hooks=s.hooks, pre=s.ev, max_rows=s.max_rows, max_steps=max_steps, opts=s.opts)
        rows = an.rows()
        s.steps += an.total_steps
        s.calls += 1
        for r in rows:
            if r.outcome == 'undecided':
                bad = [e for e in r.ev.events if e[0] in BAD]
                if bad: raise Fault('%s: %s %s on the path where %s' % (fn, bad[0][0], bad[0][1], r.cond()[:300]), bad[0][-1])
        return [r for r in rows if r.outcome != 'unreachable']

    def one(s, fn, *args, outcome='ret', **kw):
        """a call with a single row; the world advances to its final state"""
        rows = s.table(fn, *args, **kw)
        if len(rows) != 1: raise Undecided('%s has %d rows: %s' % (fn, len(rows), '; '.join(r.cond()[:120] for r in rows[:3])))
        r = rows[0]
        if r.outcome == 'undecided': raise Undecided('%s: %s' % (fn, r.why))
        if r.outcome != outcome: raise Outcome(r, fn)
        r.written = sorted(set(r.ev.objs) & set(s.ev.objs) - r.ev.shared)
        s.ev = r.ev
        return r

    def changed(s, row, before):
        """pre-existing objects whose contents a row changed: [(object, what)], and stores outside tracked memory"""
        out = []
        for b in sorted(set(row.ev.objs) & set(before.objs) - row.ev.shared):
            o, n = before.objs[b], row.ev.objs[b]
            if o.kind == 'global' or b in row.ev.freed: continue
            m = len(o.layers)
            for L in n.layers[m:]:
                off, sz = L[1], L[2]
                step = sz if L[0] == 'st' else 8
                for k in range(0, sz, step or 8):
                    w = min(step, sz - k)
                    try: same = _same(o.load(off + k, w, 'i%d' % (8 * w), row.ev), n.load(off + k, w, 'i%d' % (8 * w), row.ev))
                    except Undecided: same = False
                    if not same:
                        out.append((b, '%s object, bytes %d..%d' % (o.kind, off + k, off + k + w)))
                        break
                else: continue
                break
        for e in row.ev.events:
            if e[0] == 'ext-write': out.append((e[1], 'static or thread-local state %s' % e[1].replace('&g:', '')))
        return out

    def read(s, p, n, esz=8, ty='double'):
        return [s.ev.load(vg.iadd(p, i * esz), esz, ty) for i in range(n)]


def _same(a, b):
    if a is vg.UNDEF and b is vg.UNDEF: return True
    if a is vg.UNDEF or b is vg.UNDEF: return False
    try: return a == b or vg.ikey(a) == vg.ikey(b)
    except Exception: return a is b


class Fault(Exception):
    """an invalid memory access after which the analysis of the path could not go on"""
    def __init__(s, msg, loc):
        s.loc = loc
        super().__init__(msg)


class Outcome(Exception):
    def __init__(s, row, fn=''):
        s.row = row
        super().__init__('%s %s in %s' % (row.outcome, row.thrown, fn))


class Rep:
    """what one unit of a check found"""
    def __init__(s, unit):
        s.unit = unit
        s.obl = 0
        s.ok = 0
        s.viol = []
        s.und = []
        s.steps = 0
        s.rows = 0

    def check(s, cond, rule, msg, loc=None, where=None):
        s.obl += 1
        if cond: s.ok += 1
        elif len(s.viol) < 50: s.viol.append(dict(unit=s.unit, rule=rule, message=msg, loc=fmtloc(loc), where=where))
        return cond

    def undecided(s, why):
        s.obl += 1
        if len(s.und) < 200: s.und.append(dict(unit=s.unit, why=str(why)[:300]))

    def merge(s, o):
        s.obl += o.obl; s.ok += o.ok; s.viol += o.viol; s.und += o.und; s.steps += o.steps; s.rows += o.rows


def fmtloc(l):
    if not l: return None
    return ' < '.join(l) if isinstance(l, (list, tuple)) else str(l)


BAD = ('oob-read', 'oob-write', 'use-after-free', 'double-free', 'free-caller', 'use-after-scope', 'div-by-zero', 'null-access')


def memory_ok(rep, row, rule='memory'):
    """no out-of-bounds or dangling access on this row"""
    bad = [e for e in row.ev.events if e[0] in BAD]
    rep.check(not bad, rule, '%s on the path where %s' % (bad[0][:2] if bad else '', row.cond()[:300]), bad[0][-1] if bad else None)
    # every instance analysed is of double precision
    low = [e for e in row.ev.events if e[0] == 'narrowing']
    rep.check(not low, 'precision', '%s on the path where %s' % (low[0][1] if low else '', row.cond()[:300]), low[0][-1] if low else None)
    return not bad
