"""C13, C14, C15, C24: meshes, band matrices, band LU, aligned allocator."""
from itertools import product, combinations
import ir, ref, vg, tu
from tu import lst, PRE
from vg import fsym, fconst, fadd, fmul, iatom, Undecided
from probe import World, memory_ok, Rep, BAD
from c_own import unchanged


def mesh_tu(D, T='double', alloc=''):
    ii, iv = lst('ul i%(d)d', D), lst('i%(d)d', D)
    ns, nv = lst('ul n%(d)d', D), lst('n%(d)d', D)
    s = PRE % dict(hdr='Mesh.hpp')
    if alloc: s = PRE % dict(hdr='BSpline.hpp')
    s += 'typedef %s T; using M = Mesh<T, %d%s>; using MD = MeshDimension<%d>; using IX = M::index_type;\n' % (T, D, alloc, D)
    s += 'static IX ix(%s) { return IX{{%s}}; }\n' % (ii, iv)
    s += 'extern "C" M* probe_mk(%s) { return new M(MD(ix(%s))); }\n' % (ns, nv)
    if D > 1: s += 'extern "C" M* probe_mkv(%s) { return new M(%s); }\n' % (ns, nv)
    s += 'extern "C" M* probe_mk1(ul n) { return new M(n); }\n'
    s += 'extern "C" M* probe_copy(const M& m) { return new M(m); }\n'
    s += 'extern "C" void probe_del(M* m) { delete m; }\n'
    s += 'extern "C" void probe_resize(M& m, %s) { m.resize(ix(%s)); }\n' % (ns, nv)
    s += 'extern "C" ul probe_size(const M& m) { return m.size(); }\nextern "C" ul probe_dim(const M& m, ul d) { return m.dim_size(d); }\n'
    s += 'extern "C" void probe_setv(M& m, %s, T v) { m(%s) = v; }\n' % (ii, iv)
    s += 'extern "C" void probe_seta(M& m, %s, T v) { m(ix(%s)) = v; }\n' % (ii, iv)
    s += 'extern "C" T probe_getv(M& m, %s) { return m(%s); }\nextern "C" T probe_geta(M& m, %s) { return m(ix(%s)); }\n' % (ii, iv, ii, iv)
    s += 'extern "C" T probe_cgetv(const M& m, %s) { return m(%s); }\nextern "C" T probe_cgeta(const M& m, %s) { return m(ix(%s)); }\n' % (ii, iv, ii, iv)
    s += 'extern "C" T probe_flat(const M& m, ul k) { return m.begin()[(long)k]; }\nextern "C" ul probe_len(const M& m) { return (ul)(m.end() - m.begin()); }\n'
    s += 'extern "C" T probe_data(const M& m, ul k) { return m.data()[k]; }\n'
    s += 'extern "C" void probe_fi(const M& m, ul k, ul* out) { auto a = m.iter_indices(m.begin() + (long)k); for (ul d = 0; d < %d; ++d) out[d] = a[d]; }\n' % D
    # per-dimension iterators
    for c, q in (('', 'M&'), ('c', 'const M&')):
        s += 'extern "C" ul probe_%strav(%s m, ul d, %s, T* out) { ul k = 0; for (auto it = m.begin(d, ix(%s)), e = m.end(d, ix(%s)); it != e; ++it) out[k++] = *it; return k; }\n' % (c, q, ii, iv, iv)
        s += 'extern "C" ul probe_%sback(%s m, ul d, %s, T* out) { ul k = 0; auto b = m.begin(d, ix(%s)); auto e = m.end(d, ix(%s)); while (e != b) { --e; out[k++] = *e; } return k; }\n' % (c, q, ii, iv, iv)
        s += 'extern "C" ul probe_%srand(%s m, ul d, %s, T* out) { auto b = m.begin(d, ix(%s)); auto e = m.end(d, ix(%s)); long n = e - b; for (long k = 0; k < n; ++k) out[k] = b[k]; return (ul)n; }\n' % (c, q, ii, iv, iv)
        s += 'extern "C" ul probe_%splus(%s m, ul d, %s, T* out) { auto b = m.begin(d, ix(%s)); auto e = m.end(d, ix(%s)); long n = e - b; for (long k = 0; k < n; ++k) { auto t = b + k; out[k] = *t; } return (ul)n; }\n' % (c, q, ii, iv, iv)
        s += 'extern "C" ul probe_%sminus(%s m, ul d, %s, T* out) { auto b = m.begin(d, ix(%s)); auto e = m.end(d, ix(%s)); long n = e - b; for (long k = 0; k < n; ++k) { auto t = e - (n - k); out[k] = *t; } return (ul)n; }\n' % (c, q, ii, iv, iv)
        s += 'extern "C" ul probe_%sless(%s m, ul d, %s, T* out) { ul k = 0; auto e = m.end(d, ix(%s)); for (auto it = m.begin(d, ix(%s)); it < e; it++) { out[k++] = *it.operator->(); } return k; }\n' % (c, q, ii, iv, iv)
    s += 'extern "C" void probe_si(M& m, ul d, %s, ul k, ul* out) { auto it = m.begin(d, ix(%s)); it += (long)k; auto a = m.iter_indices(it); for (ul q = 0; q < %d; ++q) out[q] = a[q]; }\n' % (ii, iv, D)
    s += 'extern "C" void probe_write(M& m, ul d, %s, const T* in) { for (auto it = m.begin(d, ix(%s)), e = m.end(d, ix(%s)); it != e; ++it) *it = *in++; }\n' % (ii, iv, iv)
    # dimension objects alone, for symbolic sizes
    s += 'extern "C" ul probe_x(%s, %s) { return MD(ix(%s)).indexing(ix(%s)); }\n' % (ns, ii, nv, iv)
    s += 'extern "C" ul probe_xs(%s, %s) { return MD(ix(%s)).indexing_safe(%s); }\n' % (ns, ii, nv, iv)
    s += 'extern "C" ul probe_xsa(%s, %s) { return MD(ix(%s)).indexing_safe(ix(%s)); }\n' % (ns, ii, nv, iv)
    s += 'extern "C" ul probe_dsz(%s) { return MD(ix(%s)).size(); }\n' % (ns, nv)
    s += 'extern "C" ul probe_acc(%s, ul d) { return MD(ix(%s)).dim_acc_size(d); }\n' % (ns, nv)
    s += 'extern "C" ul probe_inv(%s, ul t, ul d) { return MD(ix(%s)).dimwise_indices(t)[d]; }\n' % (ns, nv)
    s += 'extern "C" ul probe_ds(%s, ul d) { MD md(%s); return md.dim_size(d); }\n' % (ns, nv)
    return s


def flat(ix, n):
    f = 0
    for i, s in zip(ix, n): f = f * s + i
    return f


def u_mesh(rep, D, shapes, macros, std, alloc=''):
    mod = ir.module(mesh_tu(D, alloc=alloc), std=std, macros=macros, name='mesh')
    R = 'one row-major bijection'
    for n in shapes:
        w = World(mod)
        tag = 'Mesh<%d> %s' % (D, list(n))
        tot = 1
        for k in n: tot *= k
        mk = w.one('probe_mk', *n)
        memory_ok(rep, mk)
        m = mk.ret
        rep.check(w.fork().one('probe_size', m).ret == tot and w.fork().one('probe_len', m).ret == tot, R, tag + ': size() or end()-begin() is not the number of elements', mk.ev.loc)
        for d in range(D): rep.check(w.fork().one('probe_dim', m, d).ret == n[d], R, '%s: dim_size(%d) is wrong' % (tag, d))
        idx = list(product(*[range(k) for k in n]))
        sym = {ix: fsym('m_' + '_'.join(map(str, ix))) for ix in idx}
        for k, ix in enumerate(idx):
            r = w.one('probe_setv' if k % 2 else 'probe_seta', m, *(list(ix) + [sym[ix]]))
            memory_ok(rep, r)
        for ix in idx:
            for p in ('getv', 'geta', 'cgetv', 'cgeta'):
                r = w.fork().one('probe_' + p, m, *ix)
                memory_ok(rep, r)
                rep.check(r.ret == sym[ix], R, '%s: element %s read through %s is not the one written there' % (tag, list(ix), p), r.ev.loc)
        for k, ix in enumerate(idx):
            for p in ('flat', 'data'):
                r = w.fork().one('probe_' + p, m, k)
                memory_ok(rep, r)
                rep.check(r.ret == sym[ix], R, '%s: element %d of the flat order (%s) is not element %s of the row-major order' % (tag, k, p, list(ix)), r.ev.loc)
            v = w.fork()
            out = v.array('out', [0] * D)
            r = v.one('probe_fi', m, k, out)
            rep.check([v.ev.load(vg.iadd(out, 8 * d), 8, 'i64') for d in range(D)] == list(ix), R, '%s: iter_indices of flat position %d is not %s' % (tag, k, list(ix)), r.ev.loc)
            rep.check(flat(ix, n) == k, R, 'reference')
        for d in range(D):
            lines = [ix for ix in idx if ix[d] == (k0 := n[d] - 1)] if False else [ix for ix in idx if ix[d] == min(1, n[d] - 1)]
            for ix in lines:
                want = [sym[ix[:d] + (k,) + ix[d + 1:]] for k in range(n[d])]
                for c in ('', 'c'):
                    for p in ('trav', 'back', 'rand', 'plus', 'minus', 'less'):
                        v = w.fork()
                        out = v.array('out', [vg.UNDEF] * (n[d] + 1))
                        r = v.one('probe_' + c + p, m, d, *(list(ix) + [out]))
                        memory_ok(rep, r)
                        got = v.read(out, n[d])
                        if p == 'back': got = got[::-1]
                        rep.check(r.ret == n[d] and got == want, R, '%s: %siterator along dimension %d through %s (%s) does not visit exactly the elements that differ in that dimension' % (tag, 'const ' if c else '', d, list(ix), p), r.ev.loc)
                for k in range(n[d]):
                    v = w.fork()
                    out = v.array('out', [0] * D)
                    r = v.one('probe_si', m, d, *(list(ix) + [k, out]))
                    rep.check([v.ev.load(vg.iadd(out, 8 * q), 8, 'i64') for q in range(D)] == list(ix[:d] + (k,) + ix[d + 1:]), R, '%s: iter_indices of a per-dimension iterator is wrong' % tag, r.ev.loc)
                v = w.fork()
                src = v.syms('in', n[d])
                r = v.one('probe_write', m, d, *(list(ix) + [src]))
                memory_ok(rep, r)
                for jx in idx:
                    on = all(jx[q] == ix[q] for q in range(D) if q != d)
                    g = v.fork().one('probe_cgetv', m, *jx).ret
                    rep.check(g == (fsym('in%d' % jx[d]) if on else sym[jx]), R, '%s: writing a line along dimension %d through its iterator changes other elements' % (tag, d), r.ev.loc)
        # a copy and a resized mesh address the same way
        v = w.fork()
        c = v.one('probe_copy', m).ret
        memory_ok(rep, v.one('probe_del', m))
        for k, ix in enumerate(idx): rep.check(v.fork().one('probe_cgetv', c, *ix).ret == sym[ix], R, tag + ': a copy differs')
        n2 = [k + 1 for k in n][::-1]
        r = v.one('probe_resize', c, *n2)
        memory_ok(rep, r)
        idx2 = list(product(*[range(k) for k in n2]))
        for k, ix in enumerate(idx2): memory_ok(rep, v.one('probe_seta', c, *(list(ix) + [fsym('z%d' % k)])))
        for k, ix in enumerate(idx2):
            q = v.fork().one('probe_flat', c, k)
            memory_ok(rep, q)
            rep.check(q.ret == fsym('z%d' % k), R, '%s resized to %s: element %s is not at flat position %d' % (tag, n2, list(ix), k), q.ev.loc)
        rep.check(v.one('probe_size', c).ret == len(idx2), R, '%s resized to %s: size() is wrong' % (tag, n2))
        rep.steps += w.steps
    if D > 1:
        w = World(mod)
        r = w.one('probe_mkv', *[2 + d for d in range(D)])
        for d in range(D): rep.check(w.one('probe_dim', r.ret, d).ret == 2 + d, R, 'Mesh(n...): sizes assigned to the wrong dimensions', r.ev.loc)
    w = World(mod)
    r = w.one('probe_mk1', 3)
    for d in range(D): rep.check(w.one('probe_dim', r.ret, d).ret == 3, R, 'Mesh(n): sizes', r.ev.loc)
    rep.check(w.one('probe_size', r.ret).ret == 3 ** D, R, 'Mesh(n): size()', r.ev.loc)


def u_meshsym(rep, D, macros, std):
    """index arithmetic for all sizes at once: integer polynomials in the sizes and indices"""
    mod = ir.module(mesh_tu(D), std=std, macros=macros, name='mesh')
    R = 'one row-major bijection (all sizes)'
    n = [iatom('n%d' % d, b=(1, None)) for d in range(D)]
    i = [iatom('i%d' % d, b=(0, vg.isub(n[d], 1))) for d in range(D)]
    w = World(mod)
    want = 0
    for d in range(D): want = vg.iadd(vg.imul(want, n[d]), i[d])
    def get(fn, *a):
        r = w.fork().table(fn, *a)
        r = [x for x in r if x.outcome != 'throw']
        if len(r) != 1 or r[0].outcome != 'ret': raise Undecided('%s: %s' % (fn, [x.why for x in r][:2]))
        return r[0]
    def eq(fn, a, exp, what):
        try: r = get(fn, *a)
        except Undecided as e: return rep.undecided('%s: %s' % (fn, e))
        if isinstance(r.ret, vg.Poly) and any('(' in x for m in r.ret.t for x in m):
            return rep.undecided('%s: opaque integer term %s' % (fn, vg.ikey(r.ret)[:80]))
        rep.check(vg.ikey(r.ret) == vg.ikey(exp), R, 'MeshDimension<%d>: %s is %s, expected %s' % (D, what, vg.ikey(r.ret), vg.ikey(exp)), r.ev.loc)
    for p in ('x', 'xs', 'xsa'): eq('probe_' + p, n + i, want, 'position of an index')
    tot = 1
    for x in n: tot = vg.imul(tot, x)
    eq('probe_dsz', n, tot, 'size()')
    for d in range(D):
        eq('probe_inv', n + [want, d], i[d], 'index %d of the position of an index' % d)
        eq('probe_ds', n + [d], n[d], 'dim_size(%d)' % d)
    acc = 1
    for d in range(D + 1):
        eq('probe_acc', n + [d], acc, 'number of elements of the last %d dimensions' % d)
        if d < D: acc = vg.imul(acc, n[D - 1 - d])
    rep.steps += w.steps


# ---------------------------------------------------------------- C14 / C15
def band_tu(ext, T='double'):
    A = 'ExtendedBandMatrix<T>' if ext else 'BandMatrix<T>'
    s = PRE % dict(hdr='BandLU.hpp')
    s += '#include <vector>\ntypedef %s T; using A = %s; using LU = BandLU<A>; using V = std::vector<T>;\n' % (T, A)
    s += 'extern "C" A* probe_mk(ul n, ul p, ul q) { return new A(n, p, q); }\nextern "C" void probe_del(A* a) { delete a; }\n'
    s += 'extern "C" void probe_set(A& a, ul i, ul j, T v) { a(i, j) = v; }\nextern "C" T probe_get(A& a, ul i, ul j) { return a(i, j); }\nextern "C" T probe_cget(const A& a, ul i, ul j) { return a(i, j); }\n'
    if ext:
        for k in ('main', 'side'):
            s += 'extern "C" T probe_%s(A& a, ul i, ul j) { return a.%s_bands_val(i, j); }\nextern "C" T probe_c%s(const A& a, ul i, ul j) { return a.%s_bands_val(i, j); }\n' % (k, k, k, k)
            s += 'extern "C" void probe_set%s(A& a, ul i, ul j, T v) { a.%s_bands_val(i, j) = v; }\n' % (k, k)
    s += 'extern "C" ul probe_n(const A& a) { return a.dim(); }\nextern "C" ul probe_p(const A& a) { return a.lower_band_width(); }\nextern "C" ul probe_q(const A& a) { return a.upper_band_width(); }\n'
    s += 'extern "C" void probe_mul(const A& a, const T* x, ul n, T* out) { V v(x, x + n); V r = a * v; for (ul i = 0; i < n; ++i) out[i] = r[i]; }\n'
    s += 'extern "C" A* probe_copy(const A& a) { return new A(a); }\n'
    # solver
    s += 'extern "C" LU* probe_lu(const A& a) { LU* l = new LU; l->compute(a); return l; }\nextern "C" LU* probe_lul(A& a) { LU* l = new LU; l->compute(a); return l; }\n'
    s += 'extern "C" LU* probe_lur(A& a) { LU* l = new LU; l->compute(std::move(a)); return l; }\n'
    s += 'extern "C" LU* probe_luc(const A& a) { return new LU(a); }\nextern "C" LU* probe_lucr(A& a) { return new LU(std::move(a)); }\nextern "C" LU* probe_lucopy(const LU& l) { return new LU(l); }\nextern "C" void probe_dellu(LU* l) { delete l; }\n'
    s += 'extern "C" V* probe_vec(const T* b, ul n) { return new V(b, b + n); }\nextern "C" void probe_vread(const V& v, ul n, T* out) { for (ul i = 0; i < n; ++i) out[i] = v[i]; }\n'
    s += 'extern "C" V* probe_solve(const LU& l, V& b) { return new V(l.solve(b)); }\nextern "C" V* probe_csolve(const LU& l, const V& b) { return new V(l.solve(b)); }\nextern "C" V* probe_rsolve(const LU& l, V& b) { return new V(l.solve(std::move(b))); }\n'
    s += 'extern "C" void probe_inv(const LU& l, V& b) { l.solve_in_place(b); }\nextern "C" void probe_inp(const LU& l, T* b) { l.solve_in_place(b); }\nextern "C" void probe_ini(const LU& l, V& b) { l.solve_in_place(b.begin()); }\n'
    s += 'extern "C" void probe_psolve(const LU& l, T* b) { l.solve(b); }\n'
    s += 'using M = Mesh<T, 2>;\nextern "C" void probe_ins(const LU& l, M& m, ul d, ul k) { M::index_type ix{{k, k}}; l.solve_in_place(m.begin(d, ix)); }\n'
    s += 'extern "C" M* probe_mesh(const T* c, ul r, ul q) { M* m = new M(r, q); for (ul i = 0; i < r; ++i) for (ul j = 0; j < q; ++j) (*m)(i, j) = c[i * q + j]; return m; }\nextern "C" T probe_mget(const M& m, ul i, ul j) { return m(i, j); }\n'
    return s


def band_pattern(ext, n, p, q):
    main = {(i, j) for i in range(n) for j in range(n) if j + p >= i and i + q >= j}
    side = set()
    if ext:
        side = {(i, j) for i in range(n) for j in range(n) if (j >= n - p and j > i + q) or (i >= n - q and i > j + p)}
    return main, side


def band_sizes(ext, tier):
    out = []
    N = 7 if tier == 'quick' else 10
    for n in range(1, N):
        for p in range(0, min(n, 4) if ext else min(n + 2, 4)):
            for q in range(0, min(n, 4) if ext else min(n + 2, 4)): out.append((n, p, q))
    return out


def fill_band(rep, w, ext, n, p, q, direct=False):
    mk = w.one('probe_mk', n, p, q)
    memory_ok(rep, mk)
    a = mk.ret
    main, side = band_pattern(ext, n, p, q)
    sym = {}
    for ij in sorted(main | side):
        sym[ij] = fsym('a_%d_%d' % ij)
        fn = 'probe_set'
        if ext and direct: fn = 'probe_setmain' if ij in main else 'probe_setside'
        r = w.one(fn, a, ij[0], ij[1], sym[ij])
        memory_ok(rep, r)
    return a, main, side, sym


def u_band(rep, ext, sizes, macros, std):
    mod = ir.module(band_tu(ext), std=std, macros=macros, name='band')
    R = 'distinct in-range slots'
    nm = 'ExtendedBandMatrix' if ext else 'BandMatrix'
    for n, p, q in sizes:
        for direct in ((False, True) if ext else (False,)):
            w = World(mod)
            tag = '%s(n=%d, p=%d, q=%d)' % (nm, n, p, q)
            a, main, side, sym = fill_band(rep, w, ext, n, p, q, direct)
            for (i, j), s in sym.items():
                ps = ['get', 'cget'] + (list(('side', 'cside') if (i, j) in side else ('main', 'cmain')) if ext else [])
                for pr in ps:
                    r = w.fork().one('probe_' + pr, a, i, j)
                    memory_ok(rep, r)
                    rep.check(r.ret == s, R, '%s: element (%d,%d) read through %s is not the one written there' % (tag, i, j, pr), r.ev.loc)
            for pr, v in (('n', n), ('p', p), ('q', q)): rep.check(w.fork().one('probe_' + pr, a).ret == v, R, '%s: wrong dimension or band width' % tag)
        # product
        x = w.syms('x', n)
        out = w.array('y', [vg.UNDEF] * n)
        before = w.ev
        r = w.one('probe_mul', a, x, n, out)
        memory_ok(rep, r)
        rep.check(not [c for c in w.changed(r, before) if c[0] != '&y'], 'product leaves its operands alone', '%s: the product changes its operands' % tag, r.ev.loc)
        y = w.read(out, n)
        for i in range(n):
            e = fconst(0)
            for j in range(n):
                if (i, j) in sym: e = fadd(e, fmul(sym[i, j], fsym('x%d' % j)))
            rep.check(y[i] == e, 'matrix-vector product', '%s: row %d of the product is not the sum of the row times the vector' % (tag, i), r.ev.loc)
        # a fresh matrix is zero, a copy is independent
        v = w.fork()
        c = v.one('probe_copy', a).ret
        z = v.one('probe_mk', n, p, q).ret
        for ij in sym:
            rep.check(v.fork().one('probe_cget', z, *ij).ret == fconst(0), R, '%s: element %s of a fresh matrix is not zero' % (tag, ij))
        for ij in sym: v.one('probe_set', a, ij[0], ij[1], fsym('other'))
        for ij in sym: rep.check(v.fork().one('probe_cget', c, *ij).ret == sym[ij], R, '%s: writing the original changes a copy' % tag)
        rep.steps += w.steps


def u_lu(rep, ext, sizes, macros, std, tier='quick'):
    mod = ir.module(band_tu(ext), std=std, macros=macros, name='band')
    nm = 'ExtendedBandMatrix' if ext else 'BandMatrix'
    R = 'A x = b'
    for n, p, q in sizes:
        w = World(mod)
        tag = 'BandLU<%s>(n=%d, p=%d, q=%d)' % (nm, n, p, q)
        a, main, side, sym = fill_band(rep, w, ext, n, p, q)
        b = w.syms('b', n)
        b2 = w.syms('c', n)
        out = w.array('x', [vg.UNDEF] * n)
        def solves(w, xs, name, what, loc=None):
            for i in range(n):
                e = fconst(0)
                for j in range(n):
                    if (i, j) in sym: e = fadd(e, fmul(sym[i, j], xs[j]))
                rep.check(e == fsym('%s%d' % (name, i)), R, '%s %s: equation %d of A x = b is not satisfied' % (tag, what, i), loc)
        def vread(w, v):
            w.one('probe_vread', v, n, out)
            return w.read(out, n)
        for mk in ('lu', 'lul', 'luc', 'lur', 'lucr'):
            v = w.fork()
            if mk in ('lur', 'lucr'):
                r = v.one('probe_' + mk, v.one('probe_copy', a).ret)
                memory_ok(rep, r)
                l = r.ret
            else: l = unchanged(rep, v, 'probe_' + mk, [a], tag + ' factorisation', 'input matrix unchanged')
            vb = v.one('probe_vec', b, n).ret
            if mk == 'lu':
                x = unchanged(rep, v, 'probe_solve', [l, vb], tag + ' solve(vector)', 'right-hand side and solver unchanged')
                solves(v, vread(v, x), 'b', 'solve(vector)')
                x = unchanged(rep, v, 'probe_csolve', [l, vb], tag + ' solve(const vector)', 'right-hand side and solver unchanged')
                solves(v, vread(v, x), 'b', 'second solve')
                v2 = v.one('probe_vec', b2, n).ret
                x = v.one('probe_rsolve', l, v2)
                memory_ok(rep, x)
                solves(v, vread(v, x.ret), 'c', 'solve(rvalue)')
                v2 = v.one('probe_vec', b2, n).ret
                r = v.one('probe_inv', l, v2)
                memory_ok(rep, r)
                solves(v, vread(v, v2), 'c', 'solve_in_place(vector)')
                v2 = v.one('probe_vec', b2, n).ret
                r = v.one('probe_ini', l, v2)
                memory_ok(rep, r)
                solves(v, vread(v, v2), 'c', 'solve_in_place(iterator)')
                for pr in ('inp', 'psolve'):
                    z = v.fork()
                    bb = z.array('bb', [fsym('b%d' % i) for i in range(n)])
                    r = z.one('probe_' + pr, l, bb)
                    memory_ok(rep, r)
                    solves(z, z.read(bb, n), 'b', 'solving through a raw pointer')
                # strided: a column and a row of a mesh
                for d in (0, 1):
                    z = v.fork()
                    rc = (n, 3) if d == 0 else (3, n)
                    me = z.one('probe_mesh', z.syms('m', 3 * n), *rc).ret
                    r = z.one('probe_ins', l, me, d, min(1, n - 1) if d == 0 else 1)
                    memory_ok(rep, r)
                    k = min(1, n - 1) if d == 0 else 1
                    g = lambda i, j: z.fork().one('probe_mget', me, i, j).ret
                    xs = [g(i, k) if d == 0 else g(k, i) for i in range(n)]
                    at = lambda i, j: fsym('m%d' % (i * rc[1] + j))
                    for i in range(n):
                        e = fconst(0)
                        for j in range(n):
                            if (i, j) in sym: e = fadd(e, fmul(sym[i, j], xs[j]))
                        rep.check(e == (at(i, k) if d == 0 else at(k, i)), R, '%s solving a strided line: equation %d is not satisfied' % (tag, i), r.ev.loc)
                    for i in range(rc[0]):
                        for j in range(rc[1]):
                            if (j if d == 0 else i) != k: rep.check(g(i, j) == at(i, j), R, '%s solving a strided line changes another line' % tag, r.ev.loc)
                l2 = v.one('probe_lucopy', l).ret
                memory_ok(rep, v.one('probe_dellu', l))
                x = v.one('probe_solve', l2, vb)
                memory_ok(rep, x)
                solves(v, vread(v, x.ret), 'b', 'solve by a copied solver')
            else:
                x = v.one('probe_solve', l, vb)
                memory_ok(rep, x)
                solves(v, vread(v, x.ret), 'b', 'solve (%s)' % mk)
        rep.steps += w.steps
