"""Checks on InterpolationFunction and its template: C01, C02, C03, C05, C06 (function level), C17, C25, C26, C27."""
from itertools import product
import tu, ref, vg, fun
from fun import IF, sub, NOD, CELL
from vg import fsym, fconst, fadd, fmul, fdiv, Undecided
from probe import World, memory_ok, Rep
from c_eval import judge_rows, der_orders
from c_build import mname, plan

Z = fconst(0)


def fplan(D, O, kinds, tier, per=None):
    """[(periodic, n, style)] few grids with a single construction row, for evaluation at every coordinate"""
    out = []
    lo = max(2, O + 1)
    for k, p in enumerate(product((0, 1), repeat=D)):
        if per is not None and list(p) not in per: continue
        ns = []
        for d, q in enumerate(p):
            mn = lo if not q else max(2, (O | 1) + 1 if O > 1 else 2)
            ns.append(mn + (2 if D == 1 else (d + k) % 2))
        out.append((list(p), ns, 'affine'))
        if D == 1:
            out.append((list(p), [mn], 'affine'))
            if tier == 'thorough': out.append((list(p), [mn + 7], 'affine'))
    return out


def twin(rep, mod, f):
    """control points of the same interpolation in a plain-layout build: function(index tuple) -> value"""
    macros = tuple(m for m in f.macros if m != CELL)
    g = IF(mod, f.D, f.O, f.kinds, f.per, f.n, macros, f.style)
    w = g.w.fork()
    size = [w.one('probe_cpn', g.f, d).ret for d in range(f.D)]
    if size != list(f.n): raise Undecided('control points %s for %s data points' % (size, f.n))
    tot = 1
    for x in size: tot *= x
    cp = w.read(w.one('probe_cp', g.f).ret, tot)
    def ctrl(ix):
        k = 0
        for i, n in zip(ix, size): k = k * n + i
        return cp[k]
    return ctrl


class Fn:
    """function modules of a unit"""
    def __init__(s, D, O, kinds, macros, std, features, T='double', U='double'):
        s.a = (D, O, kinds, macros, std)
        s.mod = tu.module_interp(D, O, kinds, macros, std, T, U, features=features)
        s.plain = None
        s.macros = macros

    def make(s, rep, per, n, style, **kw):
        D, O, kinds, macros, std = s.a
        f = IF(s.mod, D, O, kinds, per, n, macros, style, **kw)
        f.style = style
        if hasattr(f, 'mk'): memory_ok(rep, f.mk)
        return f

    def ctrl(s, rep, f):
        D, O, kinds, macros, std = s.a
        if s.plain is None:
            s.plain = s.mod if CELL not in macros else tu.module_interp(D, O, kinds, tuple(m for m in macros if m != CELL), std, features=())
        return twin(rep, s.plain, f)

    def dims(s, f, ders=None, kn=None):
        kn = kn or f.knots()
        return [ref.Dim(kn[d], f.per[d], f.O, f.n[d], f.x[d], ders[d] if ders else 0) for d in range(f.D)]


def zero_rows(rep, rows, rule, what, allow_throw=False):
    for r in rows:
        rep.rows += 1
        if r.outcome == 'undecided':
            rep.undecided('%s: %s' % (what, r.why))
            continue
        if r.outcome == 'throw':
            if not allow_throw: rep.check(False, rule, '%s throws %s when %s' % (what, r.thrown, r.cond()[:300]), r.loc)
            continue
        if not memory_ok(rep, r): continue
        rep.check(r.ret == Z, rule, '%s differ when %s' % (what, r.cond()[:400]), r.ev.loc)


# ---------------------------------------------------------------- C01
def u_checked(rep, D, O, kinds, grids, macros, std):
    fn = Fn(D, O, kinds, macros, std, ('eval',))
    for per, n, style in grids:
        f = fn.make(rep, per, n, style)
        rg = f.range()
        def outside(r):
            """(may be inside, may be outside) of the closed range of the non-periodic dimensions"""
            ev = r.ev
            m = len(ev.ffacts)
            ins = all(ev.addfact(f.x[d], rg[d][0], False) and ev.addfact(rg[d][1], f.x[d], False) for d in range(D) if not per[d])
            del ev.ffacts[m:]
            out = any(ev.consistent(rg[d][0], f.x[d], True) or ev.consistent(f.x[d], rg[d][1], True) for d in range(D) if not per[d])
            return ins, out
        for p in ('at', 'ata'):
            for r in f.w.table('probe_%s_minus' % p, f.f, *f.x):
                judge_checked(rep, r, outside, '%s %s()' % (f.tag(), 'at'))
        ders = [(1,) * D, (0,) * D] if D == 1 else [(1,) + (0,) * (D - 1)]
        for e in ders:
            for p in ('dat', 'datv', 'datp'):
                for r in f.w.table('probe_%s_minus' % p, f.f, *(f.x + list(e))):
                    judge_checked(rep, r, outside, '%s derivative_at(%s)' % (f.tag(), e))
        for p, a in (('f', []), ('fa', []), ('d', [1] * D), ('dp', [0] * D)):
            for r in f.w.table('probe_' + p, f.f, *(f.x + a)):
                rep.rows += 1
                if r.outcome == 'undecided': rep.undecided('%s: %s' % (f.tag(), r.why))
                else: rep.check(r.outcome == 'ret', 'unchecked evaluation never throws', '%s throws %s when %s' % (f.tag(), r.thrown, r.cond()[:300]), r.loc)
        rep.steps += f.w.steps


def judge_checked(rep, r, outside, what):
    rep.rows += 1
    if r.outcome == 'undecided': return rep.undecided('%s: %s' % (what, r.why))
    ins, out = outside(r)
    if not ins and not out: return
    if r.outcome == 'throw':
        rep.check('domain_error' in str(r.thrown), 'exception type', '%s throws %s' % (what, r.thrown), r.loc)
        rep.check(not ins, 'throws only out of range', '%s throws for a coordinate inside range() (or only outside in a periodic dimension): %s' % (what, r.cond()[:300]), r.loc)
    else:
        memory_ok(rep, r)
        rep.check(not out, 'throws whenever out of range', '%s returns for a coordinate strictly outside range(): %s' % (what, r.cond()[:300]), r.ev.loc)
        if not out: rep.check(r.ret == Z, 'checked equals unchecked', '%s differs from the unchecked call when %s' % (what, r.cond()[:300]), r.ev.loc)


# ---------------------------------------------------------------- C02, C05, C06 at function level
def u_fvalue(rep, D, O, kinds, grids, macros, std):
    fn = Fn(D, O, kinds, macros, std, ('eval',))
    for per, n, style in grids:
        f = fn.make(rep, per, n, style)
        judge_rows(rep, f.w.table('probe_f', f.f, *f.x), fn.dims(f), fn.ctrl(rep, f), 'tensor-product value', f.tag())
        zero_rows(rep, f.w.table('probe_fa_minus', f.f, *f.x), 'overloads agree', f.tag() + ': operator()(x...) and operator()(array)')
        if D == 1 and O:
            zero_rows(rep, f.w.table('probe_s_minus', f.f, *f.x), 'overloads agree', f.tag() + ': function and its spline without hint')
        rep.steps += f.w.steps


# ---------------------------------------------------------------- C03 at function level
def u_fderiv(rep, D, O, kinds, grids, macros, std):
    fn = Fn(D, O, kinds, macros, std, ('eval',))
    for per, n, style in grids:
        f = fn.make(rep, per, n, style)
        ctrl = fn.ctrl(rep, f)
        kn = f.knots()
        es = der_orders(D, O, 'quick')
        if D > 1: es = [e for e in es if sum(e) <= O + 1][1:6]
        for i, e in enumerate(es):
            judge_rows(rep, f.w.table('probe_d', f.f, *(f.x + list(e))), fn.dims(f, e, kn), ctrl, 'derivative', f.tag() + ' derivative order %s' % (e,))
            for p in ('dv', 'dp', 'dat', 'datv', 'datp'):
                if D > 1 and i % 2: continue
                zero_rows(rep, f.w.table('probe_%s_minus' % p, f.f, *(f.x + list(e))), 'overloads agree', '%s derivative order %s: overloads (%s)' % (f.tag(), e, p), allow_throw=p[1] == 'a')
        if O: zero_rows(rep, f.w.table('probe_d0_minus', f.f, *f.x), 'order zero is the value', f.tag() + ': derivative of order 0 and value')
        rep.steps += f.w.steps


# ---------------------------------------------------------------- C06: every evaluation path wraps
def u_fperiodic(rep, D, O, kinds, grids, macros, std):
    cell = CELL in macros
    fn = Fn(D, O, kinds, macros, std, ('eval', 'proxy') if cell else ('eval',))
    for per, n, style in grids:
        f = fn.make(rep, per, n, style)
        ctrl, kn = fn.ctrl(rep, f), f.knots()
        e = [1] + [0] * (D - 1)
        judge_rows(rep, f.w.table('probe_f', f.f, *f.x), fn.dims(f, None, kn), ctrl, 'periodic wrap', f.tag())
        judge_rows(rep, f.w.table('probe_d', f.f, *(f.x + e)), fn.dims(f, e, kn), ctrl, 'periodic wrap', f.tag() + ' derivative')
        if all(per):
            judge_rows(rep, f.w.table('probe_at', f.f, *f.x), fn.dims(f, None, kn), ctrl, 'periodic wrap', f.tag() + ' at()')
            judge_rows(rep, f.w.table('probe_dat', f.f, *(f.x + e)), fn.dims(f, e, kn), ctrl, 'periodic wrap', f.tag() + ' derivative_at()')
        if cell:
            t = f.w.one('probe_mkt', *(f.ns() + f.ps() + f.rng)).ret
            judge_rows(rep, f.w.table('probe_px_f', t, f.f, *f.x), fn.dims(f, None, kn), ctrl, 'periodic wrap', f.tag() + ' evaluation proxy')
        rg = f.range()
        for d in range(D):
            if per[d]: rep.check(sub(rg[d][1], rg[d][0]) == sub(f.xs[d][-1], f.xs[d][0]), 'period', '%s: range() of periodic dimension %d does not span the period of the grid' % (f.tag(), d))
        rep.steps += f.w.steps


# ---------------------------------------------------------------- C27
def u_proxy(rep, D, O, kinds, grids, macros, std):
    fn = Fn(D, O, kinds, macros, std, ('proxy', 'tmpl') if D == 1 else ('proxy',))
    for per, n, style in grids:
        f = fn.make(rep, per, n, style, build=False)
        w = f.w
        t = w.one('probe_mkt', *(f.ns() + f.ps() + f.rng)).ret
        m = w.one('probe_mesh', f.c, *f.ns()).ret
        f.f = w.one('probe_ti', t, m).ret
        c2 = w.array('e', f.values('e'))
        m2 = w.one('probe_mesh', c2, *f.ns()).ret
        g = w.one('probe_ti', t, m2).ret
        for p in ('px', 'pxa'):
            zero_rows(rep, w.table('probe_%s_minus' % p, t, f.f, *f.x), 'proxy equals evaluation', '%s: proxy and direct evaluation' % f.tag())
        if D > 1: zero_rows(rep, w.table('probe_px_minus', t, g, *f.x), 'proxy equals evaluation', '%s: proxy and direct evaluation of a second function' % f.tag())
        # a proxy kept and applied to two functions
        for r in w.table('probe_px', t, *f.x):
            rep.rows += 1
            if r.outcome != 'ret':
                rep.undecided('%s eval_proxy: %s %s' % (f.tag(), r.outcome, r.why or r.thrown))
                continue
            memory_ok(rep, r)
            v = w.fork()
            v.ev = r.ev
            v.facts = list(r.ev.ffacts)
            for h in (f.f, g):
                a = v.table('probe_pxcall', r.ret, h)
                b = v.table('probe_f', h, *f.x)
                for y in a + b:
                    if y.outcome == 'undecided': rep.undecided('%s: %s' % (f.tag(), y.why))
                    elif y.outcome == 'ret': memory_ok(rep, y)
                a, b = [y for y in a if y.outcome == 'ret'], [y for y in b if y.outcome == 'ret']
                if not a or not b: continue
                if len({y.ret.r for y in a}) > 1 or len({y.ret.r for y in b}) > 1:
                    continue
                rep.check(a[0].ret == b[0].ret, 'proxy equals evaluation', '%s: a kept proxy differs from direct evaluation when %s' % (f.tag(), r.cond()[:300]), a[0].ev.loc)
        rep.steps += w.steps


# ---------------------------------------------------------------- C26
def expected_knots(f, d):
    """documented knot vector of dimension d from its coordinates"""
    O, xs, n = f.O, f.xs[d], f.n[d]
    if f.per[d]:
        P = sub(xs[-1], xs[0])
        def at(i):  # odd order: the data points; even order: their midpoints; continued periodically
            q, r = divmod(i, n)
            b = xs[r] if O % 2 else fdiv(fadd(xs[r], xs[r + 1]), fconst(2))
            return fadd(b, fmul(fconst(q), P))
        # segment `order` starts the base range
        return [at(i - O - (0 if O % 2 else 1)) for i in range(n + 1 + 2 * O)]
    if f.kinds[d] in 'ui':
        inner = []
        dx = sub(xs[1], xs[0])
        for i in range(O + 1, n): inner.append(fadd(xs[0], fmul(fconst(vg.Fraction(2 * i - O - 1, 2)), dx)))
    else:
        inner = []
        for i in range(O + 1, n):
            v = Z
            for k in range(i - O, i): v = fadd(v, xs[k])
            inner.append(fdiv(v, fconst(O)))
    return [xs[0]] * (O + 1) + inner + [xs[-1]] * (O + 1)


def u_knots(rep, D, O, kinds, grids, macros, std):
    fn = Fn(D, O, kinds, macros, std, ())
    for per, n, style in grids:
        base = fn.make(rep, per, n, style, build=False)
        from c_build import makes
        for f in makes(rep, base, 'probe_mkf'):
            kn, rg = f.knots(), f.range()
            for d in range(D):
                tag = '%s dimension %d' % (f.tag(), d)
                rep.check(len(kn[d]) == n[d] + (2 * O + 1 if per[d] else O + 1), 'knot count', '%s has %d knots for %d control points' % (tag, len(kn[d]), n[d]), f.mk.ev.loc)
                if not per[d]:
                    rep.check(rg[d][0] == f.xs[d][0] and rg[d][1] == f.xs[d][-1], 'range', '%s: range() is not from the first to the last coordinate' % tag, f.mk.ev.loc)
                    rep.check(all(k == f.xs[d][0] for k in kn[d][:O + 1]) and all(k == f.xs[d][-1] for k in kn[d][-O - 1:]), 'clamped ends', '%s: knot vector is not clamped at both ends' % tag, f.mk.ev.loc)
                else:
                    P = sub(f.xs[d][-1], f.xs[d][0])
                    rep.check(sub(rg[d][1], rg[d][0]) == P, 'range', '%s: range() does not span one period' % tag, f.mk.ev.loc)
                    rep.check(all(sub(kn[d][i + n[d]], kn[d][i]) == P for i in range(len(kn[d]) - n[d])), 'periodic knots', '%s: knots are not continued periodically' % tag, f.mk.ev.loc)
                    rep.check(rg[d][0] == kn[d][O] and rg[d][1] == kn[d][len(kn[d]) - O - 1], 'range', '%s: range() is not the span of the valid segments' % tag, f.mk.ev.loc)
                ev = f.mk.ev
                ok = True
                for i in range(len(kn[d]) - 1):
                    if kn[d][i] == kn[d][i + 1]: continue
                    if ev.entails(kn[d][i + 1], kn[d][i], False): continue
                    if ev.consistent(kn[d][i], kn[d][i + 1], True): ok = i
                    break
                rep.check(ok is True, 'nondecreasing knots', '%s: knot %s may exceed its successor' % (tag, ok), f.mk.ev.loc)
                exp = expected_knots(f, d)
                rep.check(len(exp) == len(kn[d]) and all(a == b for a, b in zip(exp, kn[d])), 'knots follow from the coordinates', '%s: knots differ from the documented ones at %s' % (tag, [i for i, (a, b) in enumerate(zip(exp, kn[d])) if a != b]), f.mk.ev.loc)
                w = f.w.fork()
                rep.check(w.one('probe_uni', f.f, d).ret & 1 == (kinds[d] in 'ui'), 'uniform()', '%s: uniform() is wrong' % tag)
                rep.check(w.one('probe_per', f.f, d).ret & 1 == per[d], 'periodicity()', '%s: periodicity() is wrong' % tag)
            rep.steps += f.w.steps
        rep.steps += base.w.steps


# ---------------------------------------------------------------- C25
def u_cell(rep, D, O, shapes, macros, std):
    """a cell-layout spline with symbolic control points, at a coordinate inside each combination of segments, against
    the tensor-product sum over the control points in their original (row-major) arrangement"""
    from c_eval import BS
    mod = tu.module_bs(D, O, macros, std)
    for per, n in shapes:
        for maker in ('probe_mk', 'probe_reload')[:1 if min(n) <= O else 2]:   # reloading starts from O+1 control points per dimension
            b = BS(mod, D, O, per, n, 'generic', maker)
            memory_ok(rep, b.mk)
            dims = b.dims()
            for sg in product(*[range(d.first, d.last + 1) for d in dims]):
                w = b.w.fork()
                for d in range(D):
                    w.fact(b.x[d], b.k[d][sg[d]])
                    w.fact(b.k[d][sg[d] + 1], b.x[d])
                exp = ref.value(dims, b.ctrl, [(sg[d], b.x[d]) for d in range(D)])
                for p in ('probe_hint', 'probe_pre', 'probe_derh'):
                    if maker == 'probe_reload' and p == 'probe_derh': continue
                    a = b.x + list(sg) + ([0] * D if p == 'probe_derh' else [])
                    for r in w.table(p, b.s, *a):
                        rep.rows += 1
                        if r.outcome != 'ret':
                            rep.undecided('%s: %s %s' % (p, r.outcome, r.why or r.thrown))
                            continue
                        memory_ok(rep, r)
                        rep.check(r.ret == exp, 'cell content', 'BSpline<%d,%d> periodic=%s control points=%s (%s): %s in segment %s does not combine the control points of that segment' % (
                            D, O, per, n, maker[6:], {'probe_hint': 'evaluation', 'probe_pre': 'pre-calculated evaluation', 'probe_derh': 'derivative of order 0'}[p], list(sg)), r.ev.loc)
                rep.steps += w.steps
