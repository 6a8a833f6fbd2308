"""C18: with INTP_ENABLE_ASSERTION invalid input raises std::runtime_error before it is used; valid input never does."""
from itertools import product
import ir, tu, vg, fun, c_mesh, c_own
from fun import IF, sub, NOD, CELL, axis
from vg import fsym, fconst, fadd, fmul, iatom, isub, iadd, Undecided
from probe import World, memory_ok, Rep, Outcome
from c_build import mname

AS = 'INTP_ENABLE_ASSERTION'
RT = ('runtime_error', 'range_error', 'overflow_error', 'underflow_error', 'system_error')
BIG = (1 << 62, -1)


def verdict(rep, r, bad, what, rule):
    """one row of a guarded operation.  bad: the input is invalid"""
    rep.rows += 1
    if r.outcome == 'undecided': return rep.undecided('%s: %s' % (what, r.why))
    memory_ok(rep, r, 'no invalid access first')
    if bad:
        if rep.check(r.outcome == 'throw', rule, '%s: accepted without an exception' % what, r.ev.loc):
            rep.check(any(t in str(r.thrown) for t in RT), rule, '%s: raises %s, not std::runtime_error' % (what, r.thrown), r.loc)
    else: rep.check(r.outcome == 'ret', 'valid input is accepted', '%s: raises %s although the input is valid' % (what, r.thrown), r.loc)


def rows(rep, w, fn, args, **kw):
    from probe import Fault
    try: return w.table(fn, *args, **kw)
    except Fault as e:
        rep.check(False, 'no invalid access first', str(e), e.loc)
        return []


# ---------------------------------------------------------------- coordinates
def u_mono(rep, D, O, kinds, grids, macros, std):
    """symbolic coordinates of one dimension in any order"""
    rule = 'coordinates that are not strictly increasing are rejected'
    mod = tu.module_interp(D, O, kinds, macros, std, features=('lite', '1d') if D == 1 else ('lite',))
    for per, n in grids:
        for d in range(D):
            if kinds[d] != 'n': continue
            w = World(mod)
            f = IF(mod, D, O, kinds, per, n, macros, 'affine', world=w, build=False)
            m = len(f.xs[d])
            xs = [fsym('u%d' % i) for i in range(m)]
            p = w.array('free', xs)
            rng, k = [], 0
            for e in range(D):
                rng += f.rng[2 * e:2 * e + 2] if e != d else [p, iadd(p, 8 * m)]
            L = [('probe_mkf', [f.c] + f.ns() + f.ps() + rng), ('probe_mkt', f.ns() + f.ps() + rng)]
            if D == 1: L += [('probe_1dx', [f.c, f.shape[0]] + f.ps() + rng), ('probe_1tx', [f.c, f.shape[0]] + f.ps() + rng), ('probe_1xi', [f.c, f.shape[0]] + f.ps() + rng)]
            for fn, a in L:
                for r in rows(rep, w, fn, a):
                    what = '%s %s, dimension %d, when %s' % (f.tag(), fn[6:], d, r.cond()[:160])
                    if r.outcome == 'undecided':
                        rep.undecided('%s: %s' % (what, r.why))
                        continue
                    ev = r.ev
                    k = len(ev.ffacts)
                    inc = all(ev.addfact(xs[i + 1], xs[i], True) for i in range(m - 1))
                    del ev.ffacts[k:]
                    if r.outcome == 'throw':
                        verdict(rep, r, not inc, what, rule)
                        continue
                    rep.rows += 1
                    memory_ok(rep, r, 'no invalid access first')
                    bad = [i for i in range(m - 1) if not ev.entails(xs[i + 1], xs[i], True)]
                    rep.check(not bad, rule, '%s: coordinate %s need not exceed its predecessor, yet the grid is accepted' % (what, [i + 1 for i in bad]), r.ev.loc)
            rep.steps += w.steps


def coords(w, name, m):
    a, h = fsym(name + '_a'), fsym(name + '_h')
    w.fact(h, fconst(0))
    xs = [fadd(a, fmul(fconst(i * (i + 3)), h)) for i in range(m)]
    p = w.array(name + '_arr', xs)
    return [p, iadd(p, 8 * m)]


def u_counts(rep, D, O, kinds, grids, macros, std):
    """more or fewer coordinates than the mesh has points"""
    rule = 'a coordinate count that disagrees with the mesh is rejected'
    mod = tu.module_interp(D, O, kinds, macros, std, features=('lite', '1d') if D == 1 else ('lite',))
    for per, n in grids:
        for d in range(D):
            if kinds[d] != 'n': continue
            for delta in (-3, -2, -1, 0, 1, 2, 3):
                w = World(mod)
                f = IF(mod, D, O, kinds, per, n, macros, 'affine', world=w, build=False)
                m = len(f.xs[d]) + delta
                if m < 0: continue
                c = coords(w, 'cnt', m)
                rng = []
                for e in range(D): rng += f.rng[2 * e:2 * e + 2] if e != d else c
                L = [('probe_mkf', [f.c] + f.ns() + f.ps() + rng), ('probe_mkt', f.ns() + f.ps() + rng)]
                if D == 1: L += [('probe_1dx', [f.c, f.shape[0]] + f.ps() + rng), ('probe_1t', [f.c, f.shape[0]] + f.ps() + rng), ('probe_1tx', [f.c, f.shape[0]] + f.ps() + rng), ('probe_1xi', [f.c, f.shape[0]] + f.ps() + rng), ('probe_1xv', [f.c, f.shape[0]] + f.ps() + rng)]
                for fn, a in L:
                    for r in rows(rep, w, fn, a): verdict(rep, r, delta != 0, '%s %s with %d coordinates in dimension %d instead of %d' % (f.tag(), fn[6:], m, d, m - delta), rule)
                rep.steps += w.steps


# ---------------------------------------------------------------- data
def u_data(rep, D, O, kinds, grids, macros, std):
    rule = 'a data count that disagrees with the template is rejected'
    s = tu.interp(D, O, kinds, features=('tmpl',))
    if D == 1:
        s += 'extern "C" F* probe_tp(const TM& t, T* c, ul n) { return new F(t.interpolate(std::make_pair(c, c + n))); }\n'
        s += 'extern "C" F* probe_tpr(TM& t, T* c, ul n) { return new F(std::move(t).interpolate(std::make_pair(c, c + n))); }\n'
        s += 'extern "C" void probe_tpi(const TM& t, F& f, T* c, ul n) { t.interpolate(f, std::make_pair(c, c + n)); }\n'
    mod = ir.module(s, std=std, macros=macros, name='dat')
    for per, n in grids:
        w = World(mod)
        f = IF(mod, D, O, kinds, per, n, macros, 'affine', world=w, build=False)
        t = w.one('probe_mkt', *(f.ns() + f.ps() + f.rng)).ret
        for ds in [x for x in product((-2, -1, 0, 1, 2), repeat=D) if D == 1 or sum(map(bool, x)) < 2 or x in ((1, -1), (-1, 1))]:
            sh = [a + b for a, b in zip(f.shape, ds)]
            if min(sh) < 1: continue
            tot = 1
            for k in sh: tot *= k
            v = w.fork()
            c = v.syms('e', tot)
            m = v.one('probe_mesh', c, *sh).ret
            g = v.one('probe_empty').ret
            L = [('probe_ti', [t, m]), ('probe_ti_lv', [t, m]), ('probe_ti_rm', [t, m]), ('probe_ti_rv', [t, m]), ('probe_into', [t, g, m])]
            if D == 1: L += [('probe_tp', [t, c, tot]), ('probe_tpr', [t, c, tot]), ('probe_tpi', [t, g, c, tot])]
            for fn, a in L:
                for r in rows(rep, v, fn, a): verdict(rep, r, any(ds), '%s: interpolating data of shape %s (%s)' % (f.tag(), sh, fn[6:]), rule)
            rep.steps += v.steps
        rep.steps += w.steps


# ---------------------------------------------------------------- knots and control points
def u_knots(rep, D, O, macros, std):
    rule = 'a knot count that disagrees with the control points is rejected'
    mod = ir.module(tu.bspline_own(D, O, CELL in macros), std=std, macros=macros, name='bo')
    n = [O + 2 + d for d in range(D)]
    for per in product((0, 1), repeat=D):
        for ds in [x for x in product((-1, 0, 1, 2), repeat=D) if sum(map(bool, x)) < 2]:
            w = World(mod)
            tot = 1
            for k in n: tot *= k
            cp = w.one('probe_cp', w.syms('c', tot), *n).ret
            ks = []
            for d in range(D):
                m = n[d] + (2 * O + 1 if per[d] else O + 1) + ds[d]
                ks.append(w.one('probe_kc', w.syms('k%d_' % d, m), m).ret)
            L = [(q, [cp] + ks + list(per)) for q in ('probe_ctor', 'probe_ctorc')] + ([(q, [cp] + ks) for q in ('probe_ctor0', 'probe_ctor0c')] if not any(per) else [])
            for fn, a in L:
                for r in rows(rep, w, fn, a): verdict(rep, r, any(ds), 'BSpline<%d,%d> periodic=%s with %s knots too many' % (D, O, list(per), list(ds)), rule)
            rep.steps += w.steps


# ---------------------------------------------------------------- meshes
def u_mesh(rep, D, shapes, macros, std):
    rule = 'a mesh index out of range is rejected'
    mod = ir.module(c_mesh.mesh_tu(D), std=std, macros=macros, name='mesh')
    for n in shapes:
        w = World(mod)
        m = w.one('probe_mk', *n).ret
        tag = 'Mesh<%d> %s' % (D, list(n))
        for ix in product(*[range(k) for k in n]): w.one('probe_seta', m, *(list(ix) + [fsym('e')]))
        cand = [list(range(k + 2)) + list(BIG) for k in n]
        alls = list(product(*cand))
        if len(alls) > 150: alls = [ix for ix in alls if sum(not 0 <= i < k for i, k in zip(ix, n)) < 2]
        for ix in alls:
            bad = any(not 0 <= i < k for i, k in zip(ix, n))
            for p in ('getv', 'cgetv'):
                for r in rows(rep, w, 'probe_' + p, [m] + list(ix)): verdict(rep, r, bad, '%s element %s' % (tag, list(ix)), rule)
            for r in rows(rep, w, 'probe_setv', [m] + list(ix) + [fsym('v')]): verdict(rep, r, bad, '%s assigning element %s' % (tag, list(ix)), rule)
            for p in ('xs', 'xsa'):
                for r in rows(rep, w, 'probe_' + p, list(n) + list(ix)): verdict(rep, r, bad, '%s position of %s' % (tag, list(ix)), rule)
        rep.steps += w.steps
    # all sizes and indices
    n = [iatom('n%d' % d, b=(1, None)) for d in range(D)]
    i = [iatom('i%d' % d, b=(0, None)) for d in range(D)]
    w = World(mod)
    for p in ('xs', 'xsa'):
        for r in rows(rep, w, 'probe_' + p, n + i):
            rep.rows += 1
            if r.outcome == 'undecided':
                rep.undecided('%s: %s' % (p, r.why))
                continue
            what = 'MeshDimension<%d> position of an index when %s' % (D, r.cond()[:200])
            if r.outcome == 'throw': rep.check(any(r.ev.ige0(isub(i[d], n[d])) for d in range(D)), 'valid input is accepted', what + ': raises %s' % r.thrown, r.loc)
            else: rep.check(all(r.ev.ige0(isub(isub(n[d], i[d]), 1)) for d in range(D)), rule, what + ': accepted although an index may be out of range', r.ev.loc)
    rep.steps += w.steps


# ---------------------------------------------------------------- band matrices
def u_band(rep, ext, sizes, macros, std):
    rule = 'a position outside the bands is rejected'
    mod = ir.module(c_mesh.band_tu(ext), std=std, macros=macros, name='band')
    nm = 'ExtendedBandMatrix' if ext else 'BandMatrix'
    for n, p, q in sizes:
        w = World(mod)
        tag = '%s(n=%d, p=%d, q=%d)' % (nm, n, p, q)
        a, main, side, sym = c_mesh.fill_band(rep, w, ext, n, p, q)
        for i, j in product(range(n + 2), repeat=2):
            L = [('get', main | side), ('cget', main | side)] + ([('main', main), ('cmain', main), ('side', side), ('cside', side)] if ext else [])
            for pr, ok in L:
                for r in rows(rep, w, 'probe_' + pr, [a, i, j]):
                    if i >= n or j >= n:
                        # not a position of the matrix: whatever happens, it stays inside its storage
                        rep.rows += 1
                        if r.outcome == 'undecided': rep.undecided('%s: %s' % (tag, r.why))
                        else: memory_ok(rep, r, 'no invalid access first')
                    else: verdict(rep, r, (i, j) not in ok, '%s element (%d,%d) through %s' % (tag, i, j, {'get': 'operator()', 'cget': 'operator() const', 'main': 'main_bands_val', 'cmain': 'main_bands_val const', 'side': 'side_bands_val', 'cside': 'side_bands_val const'}[pr]), rule)
        rep.steps += w.steps


def u_valid(rep, fn, args, what):
    """the valid uses another property examines raise nothing and stay inside memory in an assertion build"""
    sub_ = Rep(rep.unit)
    try: fn(sub_, *args)
    except Outcome as e:
        if e.row.outcome != 'throw': raise Undecided(str(e))
        rep.check('runtime_error' not in str(e.row.thrown), 'valid input is accepted', '%s: %s' % (what, e), e.row.loc)
    rep.steps += sub_.steps
    rep.rows += sub_.rows
    for v in sub_.viol:
        if v['rule'] == 'memory' or 'throws _ZTISt13runtime_error' in v['message']: rep.viol.append(v)
    rep.obl += sub_.obl - len(sub_.und)
    rep.ok += sub_.obl - len(sub_.und) - len(rep.viol)
    rep.und += sub_.und
    rep.obl += len(sub_.und)


def units(tier):
    import c_fun, c_build
    T = tier == 'thorough'
    us = []
    C, N = CELL, NOD
    def mn(O, p): return max(2, O + 1) if not p else max(2, (O | 1) + 1 if O > 1 else 2)
    for O in range(1, 7 if T else 5):
        for mac, std in (((AS,), '17'), ((AS, C, N), '17')) + ((((AS, N), '11'), ((AS, C), '14'), ((AS, C, N), '20')) if O in (2, 3) or T else ()):
            g = [([p], [mn(O, p) + k]) for p in (0, 1) for k in ((0, 1) if O < 4 else (0,))]
            nm = '1D order %d %s' % (O, mname(mac, std))
            us.append(('increasing coordinates ' + nm, u_mono, (1, O, 'n', g, mac, std), 300))
            us.append(('coordinate counts ' + nm, u_counts, (1, O, 'n', [([p], [mn(O, p) + 2]) for p in (0, 1)], mac, std), 300))
            us.append(('data counts ' + nm, u_data, (1, O, 'un'[O % 2], [([p], [mn(O, p) + 2]) for p in (0, 1)], mac, std), 300))
    for O, kinds, mac, std in ((1, 'nu', (AS,), '17'), (2, 'un', (AS, C, N), '17'), (2, 'nn', (AS, N), '20'), (3, 'un', (AS, C), '11')):
        nm = '2D order %d %s %s' % (O, kinds, mname(mac, std))
        per = [[0, 1], [1, 0]] if not T else [[0, 0], [0, 1], [1, 0], [1, 1]]
        if kinds != 'nn' or T: us.append(('increasing coordinates ' + nm, u_mono, (2, O, kinds, [(p, [mn(O, q) for q in p]) for p in per], mac, std), 400))
        us.append(('coordinate counts ' + nm, u_counts, (2, O, kinds, [(p, [mn(O, q) + 1 for q in p]) for p in per], mac, std), 400))
        us.append(('data counts ' + nm, u_data, (2, O, kinds, [(p, [mn(O, q) + 1 for q in p]) for p in per], mac, std), 400))
    us.append(('data counts 3D', u_data, (3, 1, 'uuu', [([0, 1, 0], [3, 3, 3])], (AS, C, N), '17'), 400))
    for D, O in ((1, 0), (1, 2), (1, 3), (2, 2), (3, 1)):
        for mac in ((AS,), (AS, C)):
            for std in ('17', '11', '20') if D == 1 else ('17',): us.append(('knot counts %dD order %d %s' % (D, O, mname(mac, std)), u_knots, (D, O, mac, std), 300))
    for D, sh in ((1, [(1,), (4,)]), (2, [(2, 3), (3, 1)]), (3, [(2, 3, 2), (1, 2, 3)]), (4, [(2, 1, 2, 3)])):
        for std in ('11', '14', '17', '20'): us.append(('mesh indices %dD c++%s' % (D, std), u_mesh, (D, sh, (AS,), std), 300))
    for ext in (False, True):
        z = [x for x in c_mesh.band_sizes(ext, tier) if T or x[0] in (1, 2, 3, 5, 6) and (x[0] < 5 or x[1] != x[2] or x[1] == 2)]
        for i in range(0, len(z), 8): us.append(('bands %s %s..' % ('extended' if ext else 'plain', z[i]), u_band, (ext, z[i:i + 8], (AS,), '17'), 300))
        for std in ('11', '14', '20'): us.append(('bands %s c++%s' % ('extended' if ext else 'plain', std), u_band, (ext, [(1, 0, 0), (4, 2, 1), (6, 1, 2)], (AS,), std), 300))
        for std in ('11', '17'): us.append(('valid band solving %s c++%s' % ('extended' if ext else 'plain', std), u_valid, (c_mesh.u_lu, (ext, [(1, 0, 0), (5, 1, 2), (6, 2, 2)], (AS,), std), 'band LU'), 300))
    for D in (1, 2, 3): us.append(('valid mesh use %dD' % D, u_valid, (c_mesh.u_mesh, (D, [(3,), (2, 4), (2, 3, 2)][D - 1:D], (AS,), '17'), 'mesh'), 300))
    for O, k, mac, std in ((2, 'n', (AS, C, N), '17'), (3, 'u', (AS,), '11'), (3, 'n', (AS, N), '20'), (0, 'u', (AS, C), '17'), (4, 'u', (AS, N), '14')):
        us.append(('valid grids 1D order %d %s %s' % (O, k, mname(mac, std)), u_valid, (c_build.u_interp, (1, O, k, c_build.plan(1, O, k, 'quick')[:5], mac, std), 'interpolation'), 300))
        us.append(('valid evaluation 1D order %d %s %s' % (O, k, mname(mac, std)), u_valid, (c_fun.u_fderiv, (1, O, k, c_fun.fplan(1, O, k, 'quick'), mac, std), 'evaluation'), 300))
    us.append(('valid evaluation 2D', u_valid, (c_fun.u_fvalue, (2, 2, 'un', c_fun.fplan(2, 2, 'un', 'quick', per=[[0, 1]]), (AS, C, N), '17'), 'evaluation'), 300))
    return us
