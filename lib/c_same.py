"""C17: builds that differ only in standard, layout, threading, logging, assertions or dummy-point convention agree."""
import os
from itertools import product
import ir, tu, vg, fun, sect
from fun import IF, sub, NOD, CELL
from vg import fsym, fconst, fadd, fmul, fdiv, Undecided
from probe import World, memory_ok
from c_own import state
from c_build import mname

MT, AS, TR, DB = 'INTP_MULTITHREAD', 'INTP_ENABLE_ASSERTION', 'INTP_TRACE', 'INTP_DEBUG'
IO = ('-I' + os.path.join(ir.VERIF, 'stubs/io'),)
Z = fconst(0)


class Build:
    """one build of the library, and a function over a symbolic grid in it"""
    def __init__(s, D, O, kinds, macros, std):
        s.D, s.O, s.kinds, s.macros, s.std = D, O, kinds, macros, std
        ft = ('lite',)
        s.mt = MT in macros
        if s.mt: s.mod = sect.module(D, O, kinds, tuple(m for m in macros if m != MT), std, False, features=ft, flags=IO)
        else: s.mod = tu.module_interp(D, O, kinds, macros, std, features=ft, flags=IO)
        s.name = mname(macros, std) + (' c++17' if std == '17' else '')

    def make(s, rep, per, n, style):
        f = IF(s.mod, s.D, s.O, s.kinds, per, n, s.macros, style, build=False)
        s.f = f
        s.objs = {}
        if s.mt:
            # which schedule is immaterial: C23
            r = s.run(rep, f.w, 'probe_mkf', [f.c] + f.ns() + f.ps() + f.rng)
            s.objs['the function'] = r
            s.t = None
            return f
        r = f.w.one('probe_mkf', *([f.c] + f.ns() + f.ps() + f.rng))
        memory_ok(rep, r)
        s.objs['the function'] = r.ret
        s.t = f.w.one('probe_mkt', *(f.ns() + f.ps() + f.rng)).ret
        m = f.w.one('probe_mesh', f.c, *f.ns()).ret
        r = f.w.one('probe_ti', s.t, m)
        memory_ok(rep, r)
        s.objs['the function from a template'] = r.ret
        return f

    def run(s, rep, w, fn, args):
        v = w.fork()
        rows = sect.Sched(v, fn, args, 'lazy').rows
        if len(rows) != 1 or rows[0].outcome != 'ret': raise Undecided('%s: %s' % (fn, [r.why or r.thrown for r in rows]))
        memory_ok(rep, rows[0])
        w.ev = rows[0].ev
        w.opts = None
        return rows[0].ret


def regions(f, kn, d, dense):
    """[(name, coordinate or None, facts)] partitioning the axis of dimension d"""
    O, per = f.O, f.per[d]
    t = kn[d]
    first, last = O, len(t) - O - 2
    lo, hi = t[first], t[last + 1]
    P = sub(hi, lo)
    x = f.x[d]
    out = []
    segs = [k for k in range(first, last + 1) if t[k] != t[k + 1]]
    if not dense: segs = sorted({segs[0], segs[len(segs) // 2], segs[-1]})
    for k in segs: out.append(('segment %d' % (k - first), x, [(x, t[k]), (t[k + 1], x)]))
    out.append(('the lower end', lo, []))
    out.append(('the upper end', hi, []))
    if len(segs) > 1 and dense: out.append(('an inner knot', t[segs[1]], []))
    if per:
        k = segs[-1]
        for q in (-1, 2) if dense else (1,):
            s = fmul(fconst(q), P)
            out.append(('%d periods away' % q, x, [(x, fadd(t[k], s)), (fadd(t[k + 1], s), x)]))
    else:
        out.append(('below the range', x, [(lo, x)]))
        out.append(('above the range', x, [(x, hi)]))
    return out


def compare(rep, a, b, rows_a, rows_b, what, rule):
    """wherever both tables apply, they agree"""
    for ra in rows_a:
        for rb in rows_b:
            if 'undecided' in (ra.outcome, rb.outcome):
                rep.undecided('%s: %s' % (what, ra.why or rb.why))
                continue
            rep.rows += 1
            if len(rows_a) > 1 or len(rows_b) > 1:
                ev = ra.ev
                m = len(ev.ffacts)
                ok = all(vg.cone.positive(ev.ffacts, tuple((x, -c) for x, c in g), not st) is not True and (ev.ffacts.append((g, st)) or True) for g, st in rb.ev.ffacts)
                del ev.ffacts[m:]
                if not ok: continue
            if ra.outcome != rb.outcome or (ra.outcome == 'throw' and str(ra.thrown) != str(rb.thrown)):
                rep.check(False, rule, '%s: %s %s in the build %s, but %s %s in the build %s' % (what, ra.outcome, ra.thrown or '', a.name, rb.outcome, rb.thrown or '', b.name), rb.loc or rb.ev.loc)
            elif ra.outcome == 'ret':
                rep.check(ra.ret == rb.ret, rule, '%s: the builds %s and %s disagree when %s' % (what, a.name, b.name, rb.cond()[:200]), rb.ev.loc)


def u_same(rep, D, O, kinds, grids, ref_, variants):
    rule = 'builds agree'
    A = Build(D, O, kinds, *ref_)
    Bs = [Build(D, O, kinds, *v) for v in variants]
    for per, n, style in grids:
        fa = A.make(rep, per, n, style)
        kn, rg = fa.knots(A.objs['the function']), fa.range(A.objs['the function'])
        regs = list(product(*[regions(fa, kn, d, D == 1) for d in range(D)]))
        if D > 1: regs = [r for i, r in enumerate(regs) if i % (2 if D == 2 else 11) == 0]
        ds = [0] * D
        ds[-1] = 1
        tab = {}
        def rows(f, obj, p, rg_):
            facts = [(vg.lincomb(g.lin, s.lin, -1), True) for r in rg_ for g, s in r[2]]
            return f.w.table(p, obj, *([r[1] for r in rg_] + (ds if p == 'probe_d' else [])), facts=facts)
        PR = ['probe_f', 'probe_at', 'probe_d']
        for i, rg_ in enumerate(regs):
            for p in PR: tab[i, p] = rows(fa, A.objs['the function'], p, rg_)
        sa = state(fa.w, fa, A.objs['the function'])
        for B in Bs:
            try: fb = B.make(rep, per, n, style)
            except Undecided as e:
                rep.undecided('%s, %s: %s' % (fa.tag(), B.name, e))
                continue
            for nm, obj in B.objs.items():
                what = '%s, %s' % (fb.tag(), nm)
                kb, rb = fb.knots(obj), fb.range(obj)
                rep.check(kb == kn, rule, '%s: knots of the builds %s and %s differ' % (what, A.name, B.name))
                rep.check(rb == rg, rule, '%s: ranges of the builds %s and %s differ' % (what, A.name, B.name))
                if (CELL in A.macros) == (CELL in B.macros):
                    sb = state(fb.w, fb, obj)
                    bad = [k for (k, x), (_, y) in zip(sa, sb) if x != y]
                    rep.check(not bad, rule, '%s: the builds %s and %s differ in %s' % (what, A.name, B.name, ', '.join(bad)))
                for i, rg_ in enumerate(regs):
                    if D > 1 and nm != 'the function' and i % 3: continue
                    for p in PR if nm == 'the function' else PR[:1]:
                        compare(rep, A, B, tab[i, p], rows(fb, obj, p, rg_), '%s %s at %s' % (what, {'probe_f': 'value', 'probe_at': 'checked value', 'probe_d': 'derivative'}[p], ', '.join(r[0] for r in rg_)), rule)
            if CELL in B.macros and B.t is not None:
                for i, rg_ in enumerate(regs):
                    if D > 1 and i % 3: continue
                    facts = [(vg.lincomb(g.lin, s.lin, -1), True) for r in rg_ for g, s in r[2]]
                    compare(rep, A, B, tab[i, 'probe_f'], fb.w.table('probe_px_f', B.t, B.objs['the function'], *[r[1] for r in rg_], facts=facts), '%s proxy at %s' % (fb.tag(), ', '.join(r[0] for r in rg_)), rule)
            rep.steps += fb.w.steps
        rep.steps += fa.w.steps


def units(tier):
    from c_fun import fplan
    T = tier == 'thorough'
    us = []
    C, N = CELL, NOD
    base = ((), '17')
    lay = [(), (C,), (N,), (C, N)]
    V = [(m, s) for s in ('11', '14', '17', '20') for m in lay if (m, s) != base]
    diag = [((AS,), '17'), ((AS, C, N), '11'), ((TR,), '14'), ((TR, C), '20'), ((DB, C, N), '17'), ((AS, TR, DB, N), '11'), ((AS, TR, DB, C, N), '20')]
    thr = [((MT,), '17'), ((MT, C, N), '20'), ((MT, C), '11'), ((MT, N, AS), '14'), ((MT, DB, TR, C, N), '17')]
    def add(D, O, kinds, vs, k, lab, grids=None):
        for i in range(0, len(vs), k): us.append(('%dD order %d %s: %s %d' % (D, O, kinds, lab, i // k), u_same, (D, O, kinds, grids or fplan(D, O, kinds, tier), base, vs[i:i + k]), 500))
    for O in range(0, 6 if T else 5):
        for kinds in 'un':
            if O == 0 and kinds == 'n': continue
            sel = V if T or (O, kinds) in ((2, 'n'), (3, 'u')) else V[O % 3::4]
            add(1, O, kinds, sel, 4, 'standards and layouts')
            add(1, O, kinds, diag if T or (O, kinds) in ((3, 'n'), (2, 'u')) else diag[O % 3::3], 4, 'diagnostics')
            if T or (O, kinds) in ((1, 'n'), (3, 'u')): add(1, O, kinds, thr, 3, 'threads')
    for O, kinds in ((1, 'un'), (2, 'uu'), (2, 'nu'), (3, 'un')) if not T else ((1, 'un'), (2, 'uu'), (2, 'nu'), (3, 'un'), (3, 'nn'), (4, 'uu')):
        q = [((C, N), '11'), ((C,), '14'), ((N,), '20'), ((C, N), '20'), ((), '11')]
        for g in fplan(2, O, kinds, tier):
            add(2, O, kinds, q if T else [q[(O + sum(g[0]) * 2 + j) % 5] for j in range(2)], 2, 'standards and layouts, periodic=%s' % (g[0],), [g])
            if sum(g[0]) == 1: add(2, O, kinds, [diag[1 + O % 2], diag[6]], 2, 'diagnostics, periodic=%s' % (g[0],), [g])
        if O < 3: add(2, O, kinds, [((MT,), '17'), ((MT, C, N), '11')], 1, 'threads', fplan(2, O, kinds, tier, per=[[0, 1]]))
    add(3, 1, 'uuu', [((C, N), '17'), ((N,), '11')], 1, 'standards and layouts', fplan(3, 1, 'uuu', tier, per=[[0, 1, 0], [1, 0, 0], [0, 0, 1]]))
    return us
