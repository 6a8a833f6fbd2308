"""C07, C09, C10, C11, C12: linearity, purity of evaluation, ownership, template reuse, caller-owned inputs."""
from itertools import product
import tu, ref, vg, fun
from fun import IF, sub, NOD, CELL
from vg import fsym, fconst, fadd, fmul, fdiv, Undecided
from probe import World, memory_ok, Rep
from c_eval import judge_rows
from c_fun import Fn, zero_rows, Z


def feats(macros, *more): return tuple(more) + (('proxy',) if CELL in macros else ())


def tmpl_args(f): return f.ns() + f.ps() + f.rng


# ---------------------------------------------------------------- C09
def u_pure(rep, D, O, kinds, grids, macros, std):
    cell = CELL in macros
    fn = Fn(D, O, kinds, macros, std, feats(macros, 'eval'))
    for per, n, style in grids:
        f = fn.make(rep, per, n, style)
        w = f.w
        t = w.one('probe_mkt', *tmpl_args(f)).ret if cell else None
        e = [1] + [0] * (D - 1)
        calls = [('probe_f', [f.f] + f.x), ('probe_fa', [f.f] + f.x), ('probe_at', [f.f] + f.x), ('probe_ata', [f.f] + f.x),
                 ('probe_d', [f.f] + f.x + e), ('probe_dv', [f.f] + f.x + e), ('probe_dp', [f.f] + f.x + e), ('probe_dat', [f.f] + f.x + e),
                 ('probe_s', [f.f] + f.x)]
        for q in ('lo', 'hi', 'uni', 'per', 'nk', 'knots', 'cpn'): calls.append(('probe_' + q, [f.f, 0]))
        calls += [('probe_cp', [f.f]), ('probe_cpsize', [f.f])]
        if cell: calls += [('probe_px', [t] + f.x), ('probe_pxa', [t] + f.x), ('probe_px_f', [t, f.f] + f.x)]
        for fn_, a in calls:
            if D > 1 and fn_ in ('probe_ata', 'probe_dv', 'probe_dp', 'probe_fa', 'probe_pxa'): continue
            for r in w.table(fn_, *a): pure_row(rep, w, r, w.ev, '%s %s' % (f.tag(), fn_[6:]))
            if fn_ == 'probe_px':
                # applying a kept proxy
                r = next((r for r in w.table(fn_, *a) if r.outcome == 'ret'), None)
                if r is not None:
                    v = w.fork()
                    v.ev, v.facts = r.ev, list(r.ev.ffacts)
                    for q in v.table('probe_pxcall', r.ret, f.f): pure_row(rep, v, q, r.ev, '%s applying a proxy' % f.tag())
        rep.steps += w.steps


def pure_row(rep, w, r, before, what):
    rep.rows += 1
    if r.outcome == 'undecided': return rep.undecided('%s: %s' % (what, r.why))
    ch = w.changed(r, before)
    rep.check(not ch, 'evaluation writes nothing', '%s modifies %s when %s' % (what, '; '.join(c[1] for c in ch[:3]), r.cond()[:200]), r.ev.loc)


# ---------------------------------------------------------------- C12
def unchanged(rep, w, fn, args, what, rule='inputs unchanged', outs=()):
    """the call changes no pre-existing object (except those listed); the world advances"""
    before = w.ev
    r = w.one(fn, *args)
    memory_ok(rep, r)
    names = {World.ev_base(p)[0] for p in outs}
    ch = [c for c in w.changed(r, before) if c[0] not in names]
    fr = sorted((set(r.ev.freed) - set(before.freed)) & set(before.objs) - names)
    rep.check(not ch and not fr, rule, '%s changes what the caller owns: %s' % (what, '; '.join('%s (%s)' % (c[0].strip('&'), c[1]) for c in ch[:3]) or 'frees ' + str(fr)), r.ev.loc)
    return r.ret


def u_inputs(rep, D, O, kinds, grids, macros, std):
    fn = Fn(D, O, kinds, macros, std, ('tmpl',))
    for per, n, style in grids:
        f = fn.make(rep, per, n, style, build=False)
        w = f.w
        m = unchanged(rep, w, 'probe_mesh', [f.c] + f.ns(), f.tag() + ' filling a mesh')
        t = unchanged(rep, w, 'probe_mkt', tmpl_args(f), f.tag() + ' template construction')
        for q in ('probe_ti', 'probe_ti_lv'): unchanged(rep, w, q, [t, m], f.tag() + ' interpolate(%s)' % ('mesh lvalue' if q[-1] == 'v' else 'const mesh'))
        unchanged(rep, w, 'probe_ff', [m] + f.ps() + f.rng, f.tag() + ' function construction')
        if not any(per): unchanged(rep, w, 'probe_fnp', [m] + f.rng, f.tag() + ' function construction (no periodicity)')
        g = w.one('probe_empty').ret
        r = unchanged(rep, w, 'probe_into', [t, g, m], f.tag() + ' interpolate(function, mesh)', outs=[g])
        h = unchanged(rep, w, 'probe_copy', [g], f.tag() + ' copying a function')
        unchanged(rep, w, 'probe_assign', [h, g], f.tag() + ' assigning a function', outs=[h] + heap_of(w, h))
        unchanged(rep, w, 'probe_copyt', [t], f.tag() + ' copying a template')
        unchanged(rep, w, 'probe_copym', [m], f.tag() + ' copying a mesh')
        # the data can still be read
        t2 = w.one('probe_ti', t, m).ret
        f.f = t2
        from c_build import at_points
        at_points(rep, f, limit=4 if D == 1 else 3, rule='inputs unchanged')
        rep.steps += w.steps


def u_bsinputs(rep, D, O, macros, std):
    import ir
    from c_eval import BS
    mod = ir.module(tu.bspline_own(D, O, CELL in macros), std=std, macros=macros, name='bo')
    n = [O + 2 + d for d in range(D)]
    for per in product((0, 1), repeat=D):
        w = World(mod)
        tot = 1
        for k in n: tot *= k
        data = w.syms('c', tot)
        cp = unchanged(rep, w, 'probe_cp', [data] + n, 'filling control points')
        ks = []
        for d in range(D):
            m = n[d] + (2 * O + 1 if per[d] else O + 1)
            ks.append(unchanged(rep, w, 'probe_kc', [w.syms('k%d_' % d, m), m], 'filling knots'))
        tag = 'BSpline<%d,%d> periodic=%s ' % (D, O, list(per))
        for q in ('probe_ctor', 'probe_ctorc'): unchanged(rep, w.fork(), q, [cp] + ks + list(per), tag + 'construction from %s control points and knots' % ('const' if q[-1] == 'c' else 'lvalue'))
        if not any(per):
            for q in ('probe_ctor0', 'probe_ctor0c'): unchanged(rep, w.fork(), q, [cp] + ks, tag + 'construction without periodicity')
        s = w.one('probe_mt', *per).ret
        for d in range(D): unchanged(rep, w, 'probe_lk', [s, d, ks[d]], tag + 'load_knots(lvalue)', outs=[s])
        for q in ('probe_lc', 'probe_lcc') if CELL in macros else ('probe_lc',): unchanged(rep, w, q, [s, cp], tag + 'load_ctrlPts(lvalue)', outs=[s] + heap_of(w, s))
        for q in ('probe_copy', 'probe_copyn'): z = unchanged(rep, w, q, [s], tag + 'copying')
        unchanged(rep, w, 'probe_assign', [z, s], tag + 'assigning', outs=[z] + heap_of(w, z))
        rep.steps += w.steps


def u_conv(rep, O, kinds, grids, macros, std, what):
    """the 1D convenience constructors give the function the general constructor gives"""
    fn = Fn(1, O, kinds, macros, std, ('tmpl', '1d'))
    rule = {'C08': 'passes through the data', 'C26': 'range and knots of convenience constructors', 'C12': 'inputs unchanged'}[what]
    for per, n, style in grids:
        f = fn.make(rep, per, n, style, build=False)
        w = f.w
        N = f.shape[0]
        p = int(bool(per[0]))
        ref_ = w.fork()
        want = state(ref_, f, ref_.one('probe_mkf', f.c, N, p, *f.rng).ret)
        vec = w.one('probe_vec', f.c, N).ret
        L = [('1dx', [f.c, N, p] + f.rng), ('1b', [f.c, N, p] + f.rng), ('1bv', [vec, p] + f.rng), ('1bc', [vec, p] + f.rng), ('1bi', [f.c, N, p] + f.rng),
             ('1t', [f.c, N, p] + f.rng), ('1tx', [f.c, N, p] + f.rng)]
        if kinds == 'n': L += [('1xv', [f.c, N, p] + f.rng), ('1xi', [f.c, N, p] + f.rng)]
        if not p: L += [(q, [f.c, N] + f.rng) for q in ('1dx0', '1b0', '1t0', '1tx0')]
        dflt = None
        if kinds == 'u':
            hi = n[0] if p else n[0] - 1
            g = w.fork()
            dflt = state(g, f, g.one('probe_mkf', f.c, N, p, fconst(0), fconst(hi)).ret)
            L += [('1dr', [f.c, N, p]), ('1drv', [vec, p]), ('1tr', [f.c, N, p])] + ([('1dr0', [f.c, N]), ('1tr0', [f.c, N])] if not p else [])
            for q, lo, hi2, arg in (('1mu', -3, 6, 6), ('1md', 2, vg.Fraction(13, 2), fconst(vg.Fraction(13, 2)))):
                g = w.fork()
                mixed = state(g, f, g.one('probe_mkf', f.c, N, p, fconst(lo), fconst(hi2)).ret)
                v = w.fork()
                g = unchanged(rep, v, 'probe_' + q, [f.c, N, p, lo, arg], '%s constructor %s' % (f.tag(), q), rule)
                same_state(rep, state(v, f, g), mixed, '%s built from a range whose ends differ in type (%s) and from one of coordinates' % (f.tag(), q), rule)
        for q, a in L:
            v = w.fork()
            g = unchanged(rep, v, 'probe_' + q, a, '%s constructor %s' % (f.tag(), q), rule)
            same_state(rep, state(v, f, g), dflt if q in ('1dr', '1drv', '1tr', '1dr0', '1tr0') else want, '%s built by the 1D constructor (%s) and by the general one' % (f.tag(), q), rule)
        rep.steps += w.steps


def heap_of(w, p):
    """storage owned by the object p points to: heap objects its words name"""
    b, _ = World.ev_base(p)
    o = w.ev.objs[b]
    out = []
    if isinstance(o.size, int):
        for k in range(0, o.size - 7, 8):
            try: v = o.load(k, 8, 'ptr', w.ev)
            except Exception: continue
            if isinstance(v, vg.Poly):
                bs = [m for m, c in v.t.items() if len(m) == 1 and m[0].startswith('&')]
                if len(bs) == 1: out.append(vg.iatom(bs[0][0]))
    return out


# ---------------------------------------------------------------- C11
def state(w, f, obj):
    """what a function holds"""
    v = w.fork()
    out = []
    for d in range(f.D):
        nk = v.one('probe_nk', obj, d).ret
        out.append(('knots %d' % d, [x.r if isinstance(x, vg.Fl) else x for x in v.read(v.one('probe_knots', obj, d).ret, nk)]))
        out.append(('range %d' % d, [v.one('probe_lo', obj, d).ret.r, v.one('probe_hi', obj, d).ret.r]))
        out.append(('flags %d' % d, [v.one('probe_uni', obj, d).ret & 1, v.one('probe_per', obj, d).ret & 1]))
    size = v.one('probe_cpsize', obj).ret
    out.append(('control points', [x.r if isinstance(x, vg.Fl) else x for x in v.read(v.one('probe_cp', obj).ret, size)]))
    nd = f.D + (1 if f.cell else 0)
    out.append(('shape', [v.one('probe_cpn', obj, d).ret for d in range(nd)]))
    return out


def same_state(rep, a, b, what, rule, loc=None):
    bad = [k for (k, x), (_, y) in zip(a, b) if x != y]
    rep.check(not bad, rule, '%s: differ in %s' % (what, ', '.join(bad)), loc)


def diff(rep, w, f, a, b, what, rule):
    """two functions agree at every coordinate"""
    zero_rows(rep, w.table('probe_diff', a, b, *f.x), rule, what)


def u_reuse(rep, D, O, kinds, grids, macros, std):
    fn = Fn(D, O, kinds, macros, std, ('tmpl',))
    rule = 'template reuse'
    for per, n, style in grids:
        f = fn.make(rep, per, n, style, build=False)
        w = f.w
        t = w.one('probe_mkt', *tmpl_args(f)).ret
        m = w.one('probe_mesh', f.c, *f.ns()).ret
        m2 = w.one('probe_mesh', w.array('e', f.values('e')), *f.ns()).ret
        fresh = w.fork()
        want = state(fresh, f, fresh.one('probe_ti', t, m).ret)
        want2 = state(fresh, f, fresh.one('probe_ti', t, m2).ret)
        tg = f.tag()
        a = unchanged(rep, w, 'probe_ti', [t, m], tg + ' interpolate', 'template unchanged')
        b = unchanged(rep, w, 'probe_ti', [t, m2], tg + ' second interpolate', 'template unchanged')
        c = unchanged(rep, w, 'probe_ti_lv', [t, m], tg + ' third interpolate', 'template unchanged')
        same_state(rep, state(w, f, a), want, tg + ' first and fresh interpolation', rule)
        same_state(rep, state(w, f, b), want2, tg + ' second and fresh interpolation', rule)
        same_state(rep, state(w, f, c), want, tg + ' third and fresh interpolation', rule)
        # constructing the function directly
        d = w.one('probe_ff', m, *(f.ps() + f.rng)).ret
        same_state(rep, state(w, f, d), want, tg + ' template and direct construction', rule)
        diff(rep, w, f, d, a, tg + ' template and direct construction', rule)
        # populating existing functions: empty, same shape with other data, another shape and periodicity
        g = w.one('probe_empty').ret
        unchanged(rep, w, 'probe_into', [t, g, m], tg + ' populate an empty function', 'template unchanged', outs=[g])
        same_state(rep, state(w, f, g), want, tg + ' populating an empty function and interpolation', rule)
        diff(rep, w, f, g, a, tg + ' populating an empty function and interpolation', rule)
        unchanged(rep, w, 'probe_into', [t, g, m2], tg + ' populate again', 'template unchanged', outs=[g] + heap_of(w, g))
        same_state(rep, state(w, f, g), want2, tg + ' populating a used function and interpolation', rule)
        per2 = [1 - p for p in per]
        n2 = [k + 2 for k in n]
        o = IF(fn.mod, D, O, kinds, per2, n2, macros, style, data='o', build=False, world=OtherNames(w))
        t2 = w.one('probe_mkt', *tmpl_args(o)).ret
        mo = w.one('probe_mesh', o.c, *o.ns()).ret
        h = w.one('probe_ti', t2, mo).ret
        unchanged(rep, w, 'probe_into', [t, h, m], tg + ' populate a function of another shape', 'template unchanged', outs=[h] + heap_of(w, h))
        same_state(rep, state(w, f, h), want, tg + ' populating a function of another shape and interpolation', rule)
        diff(rep, w, f, h, a, tg + ' populating a function of another shape and interpolation', rule)
        # rvalue template and rvalue mesh
        m3 = w.one('probe_copym', m).ret
        r = w.one('probe_ti_rm', t, m3)
        memory_ok(rep, r)
        same_state(rep, state(w, f, r.ret), want, tg + ' interpolating a moved mesh', rule)
        t3 = w.one('probe_copyt', t).ret
        r = w.one('probe_ti_rv', t3, m)
        memory_ok(rep, r)
        same_state(rep, state(w, f, r.ret), want, tg + ' interpolation by an rvalue template', rule)
        diff(rep, w, f, r.ret, a, tg + ' interpolation by an rvalue template', rule)
        rep.steps += w.steps


class OtherNames:
    """axis arrays of a second grid in the same world, under other names"""
    def __init__(s, w): s.w = w
    def array(s, n, v, esz=8): return s.w.array('o_' + n, v, esz)
    def __getattr__(s, k): return getattr(s.w, k)


# ---------------------------------------------------------------- C10
def u_owns(rep, D, O, kinds, grids, macros, std):
    cell = CELL in macros
    fn = Fn(D, O, kinds, macros, std, feats(macros, 'tmpl'))
    rule = 'independent of its sources'
    for per, n, style in grids:
        f = fn.make(rep, per, n, style, build=False)
        w = f.w
        t = w.one('probe_mkt', *tmpl_args(f)).ret
        m = w.one('probe_mesh', f.c, *f.ns()).ret
        tg = f.tag()
        other = fn.make(Rep('x'), per, n, style)
        ctrl = fn.ctrl(rep, other)
        kn = other.knots()
        def good(w, obj, what):
            judge_rows(rep, w.table('probe_f', obj, *f.x), fn.dims(f, None, kn), ctrl, rule, '%s %s' % (tg, what))
        def drop(w, *what):
            for x in what:
                w.kill(x)
        arrays = [f.c] + [p for d, k in enumerate(kinds) if k == 'n' for p in [vg.iatom('&g%d' % d)]]
        # function from a template; then template, mesh and all caller data go away
        a = w.one('probe_ti', t, m).ret
        v = w.fork()
        memory_ok(rep, v.one('probe_delt', t), rule)
        memory_ok(rep, v.one('probe_delm', m), rule)
        drop(v, *arrays)
        good(v, a, 'after its template, mesh and coordinates are destroyed')
        # the caller overwrites its data
        v = w.fork()
        v.overwrite(f.c, [fsym('over%d' % i) for i in range(len(f.values('d')))])
        for d, k in enumerate(kinds):
            if k == 'n': v.overwrite(vg.iatom('&g%d' % d), [fsym('overg%d_%d' % (d, i)) for i in range(len(f.xs[d]))])
        if D == 1: good(v, a, 'after the caller overwrites data and coordinates')
        # template outlives the coordinates it was made from
        v = w.fork()
        drop(v, *[p for p in arrays if p is not f.c])
        g = v.one('probe_ti', t, m)
        memory_ok(rep, g, rule)
        if D == 1: good(v, g.ret, 'interpolated after the coordinates are destroyed')
        # copies
        v = w.fork()
        c = v.one('probe_copy', a).ret
        memory_ok(rep, v.one('probe_delf', a), rule)
        good(v, c, 'copy, after the original is destroyed')
        memory_ok(rep, v.one('probe_delf', c), rule)
        # a copy is not affected by repopulating the original
        v = w.fork()
        c = v.one('probe_copy', a).ret
        m2 = v.one('probe_mesh', v.array('e', f.values('e')), *f.ns()).ret
        memory_ok(rep, v.one('probe_into', t, a, m2), rule)
        if D == 1: good(v, c, 'copy, after the original is repopulated')
        # assignment and move
        v = w.fork()
        e = v.one('probe_empty').ret
        memory_ok(rep, v.one('probe_assign', e, a), rule)
        memory_ok(rep, v.one('probe_delf', a), rule)
        if D == 1: good(v, e, 'assigned copy, after the original is destroyed')
        v = w.fork()
        e = v.one('probe_move', a).ret
        memory_ok(rep, v.one('probe_delf', a), rule)
        if D == 1: good(v, e, 'moved-to function, after the source is destroyed')
        v = w.fork()
        e = v.one('probe_empty').ret
        memory_ok(rep, v.one('probe_massign', e, a), rule)
        memory_ok(rep, v.one('probe_delf', a), rule)
        if D == 1: good(v, e, 'move-assigned function, after the source is destroyed')
        # copied template
        v = w.fork()
        t2 = v.one('probe_copyt', t).ret
        memory_ok(rep, v.one('probe_delt', t), rule)
        g = v.one('probe_ti', t2, m)
        memory_ok(rep, g, rule)
        good(v, g.ret, 'from a copied template, after the original template is destroyed')
        # mesh copy
        v = w.fork()
        m2 = v.one('probe_copym', m).ret
        memory_ok(rep, v.one('probe_delm', m), rule)
        g = v.one('probe_ti', t, m2)
        memory_ok(rep, g, rule)
        if D == 1: good(v, g.ret, 'from a copied mesh, after the original mesh is destroyed')
        if cell:
            for r in w.table('probe_px', t, *f.x):
                if r.outcome != 'ret':
                    rep.undecided('%s eval_proxy: %s' % (tg, r.why or r.thrown))
                    continue
                v = w.fork()
                v.ev, v.facts = r.ev, list(r.ev.ffacts)
                memory_ok(rep, v.one('probe_delt', t), rule)
                drop(v, *arrays)
                judge_rows(rep, v.table('probe_pxcall', r.ret, a), fn.dims(f, None, kn), ctrl, rule, '%s proxy, after its template is destroyed' % tg)
        rep.steps += w.steps


# ---------------------------------------------------------------- C07
def u_linear(rep, D, O, kinds, grids, macros, std):
    cell = CELL in macros
    fn = Fn(D, O, kinds, macros, std, feats(macros, 'eval'))
    lam = fsym('lambda')
    rule = 'linear in the data'
    for per, n, style in grids:
        fs = []
        for k in range(4):
            f = fn.make(rep, per, n, style, build=False)
            d, e = f.values('d'), f.values('e')
            vals = [d, e, [fadd(a, fmul(lam, b)) for a, b in zip(d, e)], [Z] * len(d)][k]
            f.w.overwrite(f.c, vals)
            f.mk = f.w.one('probe_mkf', *([f.c] + f.ns() + f.ps() + f.rng))
            memory_ok(rep, f.mk)
            f.f = f.mk.ret
            if cell: f.t = f.w.one('probe_mkt', *tmpl_args(f)).ret
            fs.append(f)
        e = [1] + [0] * (D - 1)
        calls = [('probe_f', lambda f: [f.f] + f.x), ('probe_d', lambda f: [f.f] + f.x + e)]
        if cell: calls.append(('probe_px_f', lambda f: [f.t, f.f] + f.x))
        for p, a in calls:
            tabs = [{r.cond(): r for r in f.w.table(p, *a(f))} for f in fs]
            what = '%s %s' % (fs[0].tag(), {'probe_f': 'evaluation', 'probe_d': 'derivative', 'probe_px_f': 'proxy'}[p])
            rep.check(all(set(t) == set(tabs[0]) for t in tabs), rule, what + ': the path taken depends on the data values')
            for c, r in tabs[0].items():
                rs = [t.get(c) for t in tabs]
                rep.rows += 1
                if any(x is None or x.outcome != 'ret' for x in rs):
                    rep.undecided('%s: %s' % (what, [x and (x.why or x.thrown) for x in rs]))
                    continue
                rep.check(rs[2].ret == fadd(rs[0].ret, fmul(lam, rs[1].ret)), rule, '%s of d + lambda e is not that of d plus lambda that of e when %s' % (what, c[:200]), rs[2].ev.loc)
                rep.check(rs[3].ret == Z, rule, '%s of zero data is not zero when %s' % (what, c[:200]), rs[3].ev.loc)
        rep.steps += sum(f.w.steps for f in fs)
