"""C02-C06: evaluation, derivatives, basis functions, segment location, periodicity."""
from itertools import product
import tu, ref, vg
from vg import fsym, fconst, fadd, fmul, fdiv, Undecided
from probe import World, memory_ok


def mname(macros, std): return '+'.join([m.replace('INTP_', '') for m in macros] or ['plain']) + ('' if std == '17' else ' c++' + std)


def knots(w, name, m, O, flavour, per, n):
    """symbolic knot vector with its ordering facts"""
    if flavour == 'generic':
        k = [fsym('%s_%d' % (name, i)) for i in range(m)]
        for i in range(m - 1): w.fact(k[i + 1], k[i])
    elif flavour == 'clamped':
        f = [fsym('%s_%d' % (name, i)) for i in range(m - 2 * O)]
        for i in range(len(f) - 1): w.fact(f[i + 1], f[i])
        k = [f[0]] * O + f + [f[-1]] * O
    else:  # periodic continuation
        f = [fsym('%s_%d' % (name, i)) for i in range(n)]
        P = fsym(name + '_P')
        for i in range(n - 1): w.fact(f[i + 1], f[i])
        w.fact(fadd(f[0], P), f[-1])
        w.fact(P, fconst(0))
        k = [fadd(f[(i - O) % n], fmul(fconst((i - O) // n), P)) for i in range(m)]
    return k


def flat(ix, n):
    f = 0
    for i, s in zip(ix, n): f = f * s + i
    return f


class BS:
    """a symbolic BSpline of given shape"""
    def __init__(s, mod, D, O, per, n, flavour, maker='probe_mk', esz=8):
        s.w = w = World(mod)
        s.D, s.O, s.per, s.n = D, O, per, n
        s.k, kp = [], []
        for d in range(D):
            m = n[d] + (2 * O + 1 if per[d] else O + 1)
            k = knots(w, 'k%d' % d, m, O, flavour if flavour == 'generic' else ('periodic' if per[d] else 'clamped'), per[d], n[d])
            s.k.append(k)
            kp.append(w.array('k%d' % d, k, esz))
        tot = 1
        for x in n: tot *= x
        c = w.array('c', [fsym('c%d' % i) for i in range(tot)], esz)
        args = [c]
        for d in range(D): args += [kp[d], len(s.k[d])]
        s.mk = w.one(maker, *(args + list(n) + [int(bool(p)) for p in per]))
        s.s = s.mk.ret
        s.x = [fsym('x%d' % d) for d in range(D)]

    def ctrl(s, ix): return fsym('c%d' % flat(ix, s.n))

    def dims(s, ders=None): return [ref.Dim(s.k[d], s.per[d], s.O, s.n[d], s.x[d], ders[d] if ders else 0) for d in range(s.D)]


def judge_rows(rep, rows, dims, ctrl, rule, what, mem=True):
    for r in rows:
        rep.rows += 1
        if r.outcome == 'undecided':
            rep.undecided('%s: %s' % (what, r.why))
            continue
        if r.outcome == 'throw':
            rep.check(False, rule, '%s throws %s when %s' % (what, r.thrown, r.cond()[:300]), r.loc)
            continue
        if mem and not memory_ok(rep, r): continue
        j = ref.judge(r, dims, ctrl)
        if j == 'und': rep.undecided('%s: wrapped coordinate not bounded' % what)
        else: rep.check(j == 'ok', rule, '%s is not the reference value of the segment on the path where %s' % (what, r.cond()[:400]), r.ev.loc)


def shapes(D, O, tier):
    """(periodicity, control point counts, knot flavour)"""
    out = []
    if D == 1:
        for per in ([0], [1]):
            for n in sorted({O + 1, O + 2, O + 4} | ({2} if per[0] else set())):
                if per[0] and n < 2: continue
                out.append((per, [n], 'generic'))
            out.append((per, [O + 3], 'real'))
        if tier == 'thorough':
            for per in ([0], [1]): out.append((per, [O + 9], 'real'))
    elif D == 2:
        for per in ([0, 0], [1, 0], [0, 1], [1, 1]):
            n = [O + 2, O + 3] if per != [1, 0] else [O + 4, O + 1]
            out.append((per, n, 'real' if sum(per) == 1 else 'generic'))
    else:
        for per in ([0, 0, 0], [1, 0, 0], [0, 1, 0], [0, 0, 1]) + (([1, 1, 1],) if tier == 'thorough' else ()):
            n = [O + 1, O + 2, O + 1] if not any(per) else [max(2, O + 1 + (1 - p)) if not p else max(2, O + 1) for p in per]
            n = [v + d for d, v in enumerate(n)] if O < 2 else n
            out.append((per, n, 'generic'))
    return out


def u_value(rep, D, O, macros, std, tier):
    mod = tu.module_bs(D, O, macros, std)
    for per, n, fl in shapes(D, O, tier):
        for maker in ('probe_mk', 'probe_load'):
            b = BS(mod, D, O, per, n, fl, maker)
            memory_ok(rep, b.mk)
            tag = 'BSpline<%d,%d> periodic=%s control points=%s knots=%s (%s)' % (D, O, per, n, fl, maker[6:])
            if maker == 'probe_mk' or D == 1:
                judge_rows(rep, b.w.table('probe_val', b.s, *b.x), b.dims(), b.ctrl, 'tensor-product value', tag)
            h = [O] * D
            if maker == 'probe_load' or D == 1:
                judge_rows(rep, b.w.table('probe_hint', b.s, *(b.x + h)), b.dims(), b.ctrl, 'tensor-product value', tag + ' with hints')
            rep.steps += b.w.steps


def der_orders(D, O, tier):
    if D == 1: return [(k,) for k in range(0, O + 2)] + [(O + 3,)]
    if D == 2:
        c = [(0, 0), (1, 0), (0, 1), (1, 1), (2, 1), (O, 0), (0, O), (O, O - 1), (0, O + 1), (O + 1, 1)]
    else:
        c = [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 0, O), (0, O + 1, 0)]
    return sorted(set(x for x in c if all(e >= 0 for e in x)))


def u_deriv(rep, D, O, macros, std, tier):
    mod = tu.module_bs(D, O, macros, std)
    sh = shapes(D, O, tier)
    if D > 1: sh = sh[:3]
    if D == 1 and tier == 'quick': sh = [x for x in sh if x[1][0] != O + 4]
    for per, n, fl in sh:
        b = BS(mod, D, O, per, n, fl)
        for e in der_orders(D, O, tier):
            tag = 'BSpline<%d,%d>::derivative_at order %s periodic=%s control points=%s' % (D, O, e, per, n)
            judge_rows(rep, b.w.table('probe_der', b.s, *(b.x + list(e))), b.dims(e), b.ctrl, 'derivative', tag)
        rep.steps += b.w.steps


def u_basis(rep, D, O, macros, std, tier):
    mod = tu.module_bs(D, O, macros, std)
    for per, n, fl in shapes(D, O, tier):
        b = BS(mod, D, O, per, n, fl)
        for d in range(D):
            dim = b.dims()[d]
            for seg in range(dim.first, dim.last + 1):
                for p in list(range(O + 1)) + [None]:
                    w = b.w.fork()
                    out = w.array('out', [vg.UNDEF] * (O + 1))
                    x = b.x[d]
                    r = w.one('probe_basis', b.s, d, seg, x, p, out) if p is not None else w.one('probe_basis0', b.s, d, seg, x, out)
                    q = O if p is None else p
                    got = w.read(out, O + 1)
                    exp = [fconst(0)] * (O - q) + ref.basis(b.k[d], seg, x, q)
                    memory_ok(rep, r)
                    for j in range(O + 1):
                        rep.check(got[j] is not vg.UNDEF and got[j] == exp[j], 'Cox-de Boor', 'base_spline_value order %s of %d, segment %d, dimension %d: entry %d differs from the recursion' % (q, O, seg, d, j), r.ev.loc)
                    rep.steps += w.steps


def u_hint(rep, D, O, macros, std, tier):
    mod = tu.module_bs(D, O, macros, std)
    for per, n, fl in shapes(D, O, tier):
        b = BS(mod, D, O, per, n, fl)
        dims = b.dims()
        hs = [list(range(d.first, d.last + 1)) for d in dims]
        if D > 1: hs = [[h[0], h[-1]] for h in hs]
        for h in product(*hs):
            tag = 'BSpline<%d,%d> hint %s periodic=%s control points=%s' % (D, O, list(h), per, n)
            judge_rows(rep, b.w.table('probe_hint', b.s, *(b.x + list(h))), dims, b.ctrl, 'segment location', tag)
            if D == 1:
                for e in (1, O):
                    judge_rows(rep, b.w.table('probe_derh', b.s, *(b.x + list(h) + [e])), b.dims([e]), b.ctrl, 'segment location', tag + ' derivative')
        # the located segment itself
        for d in range(D):
            for h in hs[d]:
                w = b.w.fork()
                out = w.array('out', [vg.UNDEF])
                for r in w.table('probe_iter', b.s, d, b.x[d], h, out):
                    rep.rows += 1
                    if r.outcome != 'ret':
                        rep.undecided('get_knot_iter: %s %s' % (r.outcome, r.why or r.thrown))
                        continue
                    memory_ok(rep, r)
                    ok = False
                    for X, ent, op, cl in dims[d].options(r.ev):
                        if ent and r.ret in (cl if not op else op) and (len(op) <= 1): ok = True
                    if isinstance(r.ret, int):
                        rep.check(ok, 'segment location', 'get_knot_iter(dim %d, hint %d) returns knot %s, which does not enclose the coordinate when %s' % (d, h, r.ret, r.cond()[:300]), r.ev.loc)
                    else: rep.undecided('get_knot_iter returns %s' % (r.ret,))
                rep.steps += w.steps
        rep.steps += b.w.steps


def u_periodic(rep, D, O, macros, std, tier):
    mod = tu.module_bs(D, O, macros, std)
    for per, n, fl in shapes(D, O, tier):
        b = BS(mod, D, O, per, n, fl)
        dims = b.dims()
        tag = 'BSpline<%d,%d> periodic=%s control points=%s' % (D, O, per, n)
        judge_rows(rep, b.w.table('probe_val', b.s, *b.x), dims, b.ctrl, 'periodic wrap', tag)
        e = [1] + [0] * (D - 1)
        judge_rows(rep, b.w.table('probe_der', b.s, *(b.x + e)), b.dims(e), b.ctrl, 'periodic wrap', tag + ' derivative')
        if D == 1:
            for d in range(D):
                w = b.w.fork()
                out = w.array('out', [vg.UNDEF])
                for h in (dims[d].first, dims[d].last):
                    for r in w.table('probe_iter', b.s, d, b.x[d], h, out):
                        if r.outcome != 'ret':
                            rep.undecided('get_knot_iter: %s' % (r.why or r.thrown))
                            continue
                        y = r.ev.load(out, 8, 'double')
                        if not per[d]:
                            rep.check(y == b.x[d], 'periodic wrap', 'the coordinate of a non-periodic dimension is changed', r.ev.loc)
                            continue
                        ok = any(X == y and ent for X, ent, op, cl in dims[d].options(r.ev))
                        weak = any(X == y for X, ent, op, cl in dims[d].options(r.ev)) and r.ev.rd
                        if weak and not ok: rep.undecided('wrapped coordinate not bounded')
                        else: rep.check(ok, 'periodic wrap', 'the wrapped coordinate is not in the base range or not congruent to x when %s' % r.cond()[:300], r.ev.loc)
                rep.steps += w.steps
        rep.steps += b.w.steps
