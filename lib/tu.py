"""Probe translation units."""
import ir

PRE = '''
#include <%(hdr)s>
#include <new>
using namespace intp;
typedef unsigned long ul;
'''


def lst(fmt, D, sep=', '): return sep.join(fmt % dict(d=d) for d in range(D))


def bspline(D, O, T='double', U='double'):
    """BSpline built from explicit knots and control points"""
    s = PRE % dict(hdr='BSpline.hpp')
    s += 'using S = BSpline<%s, %d, %d, %s>; using CP = S::ControlPointContainer; typedef %s T; typedef %s U;\n' % (T, D, O, U, T, U)
    args = lst('const U* k%(d)d, ul m%(d)d', D) + ', ' + lst('ul n%(d)d', D) + ', ' + lst('bool p%(d)d', D)
    dims = lst('n%(d)d', D)
    fill = '''
static CP mkcp(const T* c, %s) {
  std::array<size_t, %d> a{{%s}}; MeshDimension<%d> md(a); CP cp(md); ul f = 0; std::array<size_t, %d> i{};
  %s
  return cp; }
''' % (lst('ul n%(d)d', D), D, dims, D, D, lst('for (i[%(d)d] = 0; i[%(d)d] < n%(d)d; ++i[%(d)d])', D, ' ') + ' cp(i) = c[f++];')
    s += fill
    s += '''
extern "C" S* probe_mk(const T* c, %s) { CP cp = mkcp(c, %s); return new S(std::array<bool, %d>{{%s}}, cp, %s); }
''' % (args, dims, D, lst('p%(d)d', D), lst('std::make_pair(k%(d)d, k%(d)d + m%(d)d)', D))
    # loading knots and control points afterwards
    s += '''
extern "C" S* probe_load(const T* c, %s) { CP cp = mkcp(c, %s); S* s = new S(std::array<bool, %d>{{%s}}); %s s->load_ctrlPts(cp); return s; }
''' % (args, dims, D, lst('p%(d)d', D), lst('{ S::KnotContainer kc(k%(d)d, k%(d)d + m%(d)d); s->load_knots(%(d)d, kc); }', D, ' '))
    s += 'extern "C" T probe_val(const S& s, %s) { return s(std::array<double, %d>{{%s}}); }\n' % (lst('U x%(d)d', D), D, lst('x%(d)d', D))
    s += 'extern "C" T probe_hint(const S& s, %s, %s) { std::array<std::pair<U, size_t>, %d> a{{%s}}; return s(a); }\n' % (
        lst('U x%(d)d', D), lst('ul h%(d)d', D), D, lst('std::pair<U, size_t>(x%(d)d, h%(d)d)', D))
    s += 'extern "C" T probe_der(const S& s, %s, %s) { std::array<std::pair<U, size_t>, %d> a{{%s}}; return s.derivative_at(a); }\n' % (
        lst('U x%(d)d', D), lst('ul e%(d)d', D), D, lst('std::pair<U, size_t>(x%(d)d, e%(d)d)', D))
    s += 'extern "C" T probe_derh(const S& s, %s, %s, %s) { std::array<std::tuple<U, size_t, size_t>, %d> a{{%s}}; return s.derivative_at(a); }\n' % (
        lst('U x%(d)d', D), lst('ul h%(d)d', D), lst('ul e%(d)d', D), D, lst('std::tuple<U, size_t, size_t>(x%(d)d, h%(d)d, e%(d)d)', D))
    s += '#ifdef INTP_CELL_LAYOUT\nextern "C" T probe_pre(const S& s, %s, %s) { std::array<std::pair<U, size_t>, %d> a{{%s}}; return s.pre_calc_coef(a)(s); }\n#endif\n' % (
        lst('U x%(d)d', D), lst('ul h%(d)d', D), D, lst('std::pair<U, size_t>(x%(d)d, h%(d)d)', D))
    # control points replaced: a smaller mesh loaded first
    s += '''
extern "C" S* probe_reload(const T* c, %s) { CP cp = mkcp(c, %s); CP one = mkcp(c, %s); S* s = new S(std::array<bool, %d>{{%s}}, one, %s); s->load_ctrlPts(cp); return s; }
''' % (args, dims, ", ".join([str(O + 1)] * D), D, lst('p%(d)d', D), lst('std::make_pair(k%(d)d, k%(d)d + m%(d)d)', D))
    s += 'extern "C" void probe_basis(const S& s, ul d, ul seg, U x, ul p, U* out) { auto b = s.base_spline_value(d, s.knots_begin(d) + (long)seg, x, p); for (ul i = 0; i <= %d; ++i) out[i] = b[i]; }\n' % O
    s += 'extern "C" void probe_basis0(const S& s, ul d, ul seg, U x, U* out) { auto b = s.base_spline_value(d, s.knots_begin(d) + (long)seg, x); for (ul i = 0; i <= %d; ++i) out[i] = b[i]; }\n' % O
    s += 'extern "C" long probe_iter(const S& s, ul d, U x, ul h, U* out) { U y = x; auto it = s.get_knot_iter(d, y, h); *out = y; return it - s.knots_begin(d); }\n'
    s += 'extern "C" void probe_del(S* s) { delete s; }\n'
    return s


def bspline_own(D, O, cell):
    """BSpline built from caller-owned containers"""
    s = bspline(D, O)
    nn = lst('ul n%(d)d', D)
    s += 'using KC = S::KnotContainer;\n'
    s += 'extern "C" CP* probe_cp(const T* c, %s) { return new CP(mkcp(c, %s)); }\nextern "C" KC* probe_kc(const U* k, ul m) { return new KC(k, k + m); }\n' % (nn, lst('n%(d)d', D))
    ks, kp = lst('KC& k%(d)d', D), lst('std::make_pair(k%(d)d.begin(), k%(d)d.end())', D)
    ps = lst('bool p%(d)d', D)
    pa = 'std::array<bool, %d>{{%s}}' % (D, lst('p%(d)d', D))
    s += 'extern "C" S* probe_ctor(CP& c, %s, %s) { return new S(%s, c, %s); }\n' % (ks, ps, pa, kp)
    s += 'extern "C" S* probe_ctorc(const CP& c, %s, %s) { return new S(%s, c, %s); }\n' % (lst('const KC& k%(d)d', D), ps, pa, kp)
    s += 'extern "C" S* probe_ctor0(CP& c, %s) { return new S(c, %s); }\nextern "C" S* probe_ctor0c(const CP& c, %s) { return new S(c, %s); }\n' % (ks, kp, lst('const KC& k%(d)d', D), kp)
    s += 'extern "C" S* probe_mt(%s) { return new S(%s); }\n' % (ps, pa)
    s += 'extern "C" void probe_lk(S& s, ul d, KC& k) { s.load_knots(d, k); }\nextern "C" void probe_lc(S& s, CP& c) { s.load_ctrlPts(c); }\n'
    if cell: s += 'extern "C" void probe_lcc(S& s, const CP& c) { s.load_ctrlPts(c); }\n'
    s += 'extern "C" S* probe_copy(const S& s) { return new S(s); }\nextern "C" S* probe_copyn(S& s) { return new S(s); }\nextern "C" void probe_assign(S& a, const S& b) { a = b; }\n'
    return s


def module_bs(D, O, macros=(), std='17', T='double', U='double'):
    return ir.module(bspline(D, O, T, U), std=std, macros=macros, name='bs')


def interp(D, O, kinds, T='double', U='double', features=('eval',), hdr='Interpolation.hpp'):
    """InterpolationFunction / template of dimension D; kinds: per dimension 'u' (range) or 'n' (coordinates); 'i' and 'j' the same given as integers"""
    A = lambda n, f: 'std::array<%s, %d>{{%s}}' % (n, D, lst(f, D))
    s = PRE % dict(hdr=hdr)
    s += 'typedef %s T; typedef %s U; using F = InterpolationFunction<T, %d, %d, U>; using TM = InterpolationFunctionTemplate<T, %d, %d, U>; using M = Mesh<T, %d>;\n' % (T, U, D, O, D, O, D)
    rng = ', '.join({'u': 'U a%d, U b%d', 'n': 'const U* a%d, const U* b%d', 'i': 'int a%d, int b%d', 'j': 'const long* a%d, const long* b%d'}[k] % (d, d) for d, k in enumerate(kinds))
    rp = lst('std::make_pair(a%(d)d, b%(d)d)', D)
    ns, ps, xs = lst('ul n%(d)d', D), lst('bool p%(d)d', D), lst('U x%(d)d', D)
    xn = lst('x%(d)d', D)
    s += 'static void fill(M& m, const T* c, %s) { ul f = 0; std::array<size_t, %d> i{}; %s m(i) = c[f++]; }\n' % (
        ns, D, lst('for (i[%(d)d] = 0; i[%(d)d] < n%(d)d; ++i[%(d)d])', D, ' '))
    s += 'static MeshDimension<%d> mdim(%s) { return MeshDimension<%d>(%s); }\n' % (D, ns, D, A('size_t', 'n%(d)d'))
    nn = lst('n%(d)d', D)
    s += 'extern "C" F* probe_mkf(const T* c, %s, %s, %s) { M m(mdim(%s)); fill(m, c, %s); return new F(%s, m, %s); }\n' % (ns, ps, rng, nn, nn, A('bool', 'p%(d)d'), rp)
    s += 'extern "C" const U* probe_knots(const F& f, ul d) { return &f.spline().knots_begin(d)[0]; }\n'
    s += 'extern "C" ul probe_nk(const F& f, ul d) { return f.spline().knots_num(d); }\n'
    s += 'extern "C" U probe_lo(const F& f, ul d) { return f.range(d).first; }\nextern "C" U probe_hi(const F& f, ul d) { return f.range(d).second; }\n'
    s += 'extern "C" bool probe_uni(const F& f, ul d) { return f.uniform(d); }\nextern "C" bool probe_per(const F& f, ul d) { return f.periodicity(d); }\n'
    s += 'extern "C" const T* probe_cp(const F& f) { return f.spline().control_points().data(); }\n'
    s += 'extern "C" ul probe_cpn(const F& f, ul d) { return f.spline().control_points().dim_size(d); }\n'
    s += 'extern "C" ul probe_cpsize(const F& f) { return f.spline().control_points().size(); }\n'
    s += 'extern "C" T probe_f(const F& f, %s) { return f(%s); }\n' % (xs, xn)
    s += 'extern "C" T probe_fa(const F& f, %s) { std::array<U, %d> c{{%s}}; return f(c); }\n' % (xs, D, xn)
    s += 'extern "C" void probe_delf(F* f) { delete f; }\n'
    es, en = lst('ul e%(d)d', D), lst('e%(d)d', D)
    pr = lst('std::make_pair(x%(d)d, e%(d)d)', D)
    if 'eval' in features:
        s += 'extern "C" T probe_at(const F& f, %s) { return f.at(%s); }\n' % (xs, xn)
        s += 'extern "C" T probe_ata(const F& f, %s) { std::array<U, %d> c{{%s}}; return f.at(c); }\n' % (xs, D, xn)
        s += 'extern "C" T probe_s(const F& f, %s) { std::array<double, %d> c{{%s}}; return f.spline()(c); }\n' % (xs, D, xn)
        for nm in ('derivative', 'derivative_at'):
            q = 'd' if nm == 'derivative' else 'dat'
            s += 'extern "C" T probe_%s(const F& f, %s, %s) { std::array<U, %d> c{{%s}}; std::array<size_t, %d> e{{%s}}; return f.%s(c, e); }\n' % (q, xs, es, D, xn, D, en, nm)
            s += 'extern "C" T probe_%sv(const F& f, %s, %s) { std::array<U, %d> c{{%s}}; return f.%s(c, %s); }\n' % (q, xs, es, D, xn, nm, en)
            s += 'extern "C" T probe_%sp(const F& f, %s, %s) { return f.%s(%s); }\n' % (q, xs, es, nm, pr)
        s += 'extern "C" T probe_at_minus(const F& f, %s) { return f.at(%s) - f(%s); }\n' % (xs, xn, xn)
        s += 'extern "C" T probe_ata_minus(const F& f, %s) { std::array<U, %d> c{{%s}}; return f.at(c) - f(c); }\n' % (xs, D, xn)
        s += 'extern "C" T probe_fa_minus(const F& f, %s) { std::array<U, %d> c{{%s}}; return f(c) - f(%s); }\n' % (xs, D, xn, xn)
        s += 'extern "C" T probe_s_minus(const F& f, %s) { std::array<double, %d> c{{%s}}; return f.spline()(c) - f(%s); }\n' % (xs, D, xn, xn)
        for q in ('dv', 'dp', 'dat', 'datv', 'datp'):
            call = {'dv': 'f.derivative(c, %s)' % en, 'dp': 'f.derivative(%s)' % pr, 'dat': 'f.derivative_at(c, e)',
                    'datv': 'f.derivative_at(c, %s)' % en, 'datp': 'f.derivative_at(%s)' % pr}[q]
            s += 'extern "C" T probe_%s_minus(const F& f, %s, %s) { std::array<U, %d> c{{%s}}; std::array<size_t, %d> e{{%s}}; return %s - f.derivative(c, e); }\n' % (q, xs, es, D, xn, D, en, call)
        s += 'extern "C" T probe_d0_minus(const F& f, %s) { std::array<U, %d> c{{%s}}; return f.derivative(c, std::array<size_t, %d>{}) - f(c); }\n' % (xs, D, xn, D)
    if 'lite' in features:
        s += 'extern "C" T probe_at(const F& f, %s) { return f.at(%s); }\n' % (xs, xn)
        s += 'extern "C" T probe_d(const F& f, %s, %s) { std::array<U, %d> c{{%s}}; std::array<size_t, %d> e{{%s}}; return f.derivative(c, e); }\n' % (xs, es, D, xn, D, en)
        s += '#ifdef INTP_CELL_LAYOUT\nextern "C" T probe_px_f(const TM& t, const F& f, %s) { return t.eval_proxy(%s)(f); }\n#endif\n' % (xs, xn)
    if 'tmpl' in features or 'proxy' in features or 'lite' in features:
        s += 'extern "C" TM* probe_mkt(%s, %s, %s) { return new TM(%s, mdim(%s), %s); }\n' % (ns, ps, rng, A('bool', 'p%(d)d'), nn, rp)
        s += 'extern "C" M* probe_mesh(const T* c, %s) { M* m = new M(mdim(%s)); fill(*m, c, %s); return m; }\n' % (ns, nn, nn)
        s += 'extern "C" F* probe_ti(const TM& t, const M& m) { return new F(t.interpolate(m)); }\n'
        s += 'extern "C" void probe_delt(TM* t) { delete t; }\nextern "C" void probe_delm(M* m) { delete m; }\n'
    if 'tmpl' in features:
        s += 'extern "C" F* probe_ti_lv(const TM& t, M& m) { return new F(t.interpolate(m)); }\n'
        s += 'extern "C" F* probe_ti_rm(const TM& t, M& m) { return new F(t.interpolate(std::move(m))); }\n'
        s += 'extern "C" F* probe_ti_rv(TM& t, const M& m) { return new F(std::move(t).interpolate(m)); }\n'
        s += 'extern "C" void probe_into(const TM& t, F& f, const M& m) { t.interpolate(f, m); }\n'
        s += 'extern "C" F* probe_empty() { return new F(); }\n'
        s += 'extern "C" F* probe_ff(const M& m, %s, %s) { return new F(%s, m, %s); }\n' % (ps, rng, A('bool', 'p%(d)d'), rp)
        s += 'extern "C" F* probe_fnp(const M& m, %s) { return new F(m, %s); }\n' % (rng, rp)
        s += 'extern "C" F* probe_copy(const F& f) { return new F(f); }\nextern "C" F* probe_move(F& f) { return new F(std::move(f)); }\n'
        s += 'extern "C" void probe_assign(F& g, const F& f) { g = f; }\nextern "C" void probe_massign(F& g, F& f) { g = std::move(f); }\n'
        s += 'extern "C" TM* probe_copyt(const TM& t) { return new TM(t); }\n'
        s += 'extern "C" M* probe_copym(const M& m) { return new M(m); }\n'
        s += 'extern "C" T probe_diff(const F& f, const F& g, %s) { return f(%s) - g(%s); }\n' % (xs, xn, xn)
    if '1d' in features:
        s += '#include <iterator>\nusing F1 = InterpolationFunction1D<%d, T, U>; using T1 = InterpolationFunctionTemplate1D<%d, T, U>; typedef std::vector<T> V;\n' % (O, O)
        # a single-pass iterator: its copies share one position
        s += '''template <typename X> struct Once { struct St { const X* p; }; typedef std::input_iterator_tag iterator_category; typedef X value_type; typedef std::ptrdiff_t difference_type; typedef const X* pointer; typedef const X& reference;
  St* s; const X* end; const X& operator*() const { return *s->p; } Once& operator++() { ++s->p; return *this; } struct Px { X v; const X& operator*() const { return v; } }; Px operator++(int) { Px r{*s->p}; ++s->p; return r; }
  bool done() const { return !s || s->p == end; } bool operator==(const Once& o) const { return done() == o.done(); } bool operator!=(const Once& o) const { return !(*this == o); } };
'''
        s += 'extern "C" V* probe_vec(const T* c, ul n) { return new V(c, c + n); }\n'
        if kinds == 'u':
            s += 'extern "C" F* probe_1dr(T* c, ul n, bool p) { return new F(F1(std::make_pair(c, c + n), p)); }\nextern "C" F* probe_1dr0(T* c, ul n) { return new F(F1(std::make_pair(c, c + n))); }\n'
            s += 'extern "C" F* probe_1drv(V& v, bool p) { return new F(F1(std::make_pair(v.begin(), v.end()), p)); }\n'
            s += 'extern "C" F* probe_1tr(T* c, ul n, bool p) { T1 t(n, p); return new F(t.interpolate(std::make_pair(c, c + n))); }\nextern "C" F* probe_1tr0(T* c, ul n) { T1 t(n); return new F(t.interpolate(std::make_pair(c, c + n))); }\n'
            rr, ra = 'U a0, U b0', 'std::make_pair(a0, b0)'
        else: rr, ra = 'U* a0, U* b0', 'std::make_pair(a0, b0)'
        s += 'extern "C" F* probe_1dx(T* c, ul n, bool p, %s) { return new F(F1(%s, std::make_pair(c, c + n), p)); }\nextern "C" F* probe_1dx0(T* c, ul n, %s) { return new F(F1(%s, std::make_pair(c, c + n))); }\n' % (rr, ra, rr, ra)
        s += 'extern "C" F* probe_1b(T* c, ul n, bool p, %s) { return new F(p, std::make_pair(c, c + n), %s); }\nextern "C" F* probe_1b0(T* c, ul n, %s) { return new F(std::make_pair(c, c + n), %s); }\n' % (rr, ra, rr, ra)
        s += 'extern "C" F* probe_1bv(V& v, bool p, %s) { return new F(p, std::make_pair(v.begin(), v.end()), %s); }\nextern "C" F* probe_1bc(const V& v, bool p, %s) { return new F(p, std::make_pair(v.begin(), v.end()), %s); }\n' % (rr, ra, rr, ra)
        s += 'extern "C" F* probe_1bi(const T* c, ul n, bool p, %s) { typename Once<T>::St st{c}; return new F(p, std::make_pair(Once<T>{&st, c + n}, Once<T>{nullptr, c + n}), %s); }\n' % (rr, ra)
        s += 'extern "C" F* probe_1t(T* c, ul n, bool p, %s) { TM t(p, n, %s); return new F(t.interpolate(std::make_pair(c, c + n))); }\nextern "C" F* probe_1t0(T* c, ul n, %s) { TM t(n, %s); return new F(t.interpolate(std::make_pair(c, c + n))); }\n' % (rr, ra, rr, ra)
        s += 'extern "C" F* probe_1tx(T* c, ul n, bool p, %s) { T1 t(%s, n, p); return new F(t.interpolate(std::make_pair(c, c + n))); }\nextern "C" F* probe_1tx0(T* c, ul n, %s) { T1 t(%s, n); return new F(t.interpolate(std::make_pair(c, c + n))); }\n' % (rr, ra, rr, ra)
        if kinds == 'u':   # ends of different types
            s += 'extern "C" F* probe_1mu(T* c, ul n, bool p, int a0, unsigned long b0) { return new F(p, std::make_pair(c, c + n), std::make_pair(a0, b0)); }\n'
            s += 'extern "C" F* probe_1md(T* c, ul n, bool p, unsigned a0, double b0) { return new F(F1(std::make_pair(a0, b0), std::make_pair(c, c + n), p)); }\n'
        if kinds == 'n':
            s += 'extern "C" F* probe_1xv(T* c, ul n, bool p, U* a0, U* b0) { std::vector<U> l(a0, b0); return new F(p, std::make_pair(c, c + n), std::make_pair(l.begin(), l.end())); }\n'
            s += 'extern "C" F* probe_1xi(T* c, ul n, bool p, U* a0, U* b0) { typename Once<U>::St st{a0}; return new F(p, std::make_pair(c, c + n), std::make_pair(Once<U>{&st, b0}, Once<U>{nullptr, b0})); }\n'
    if 'proxy' in features:
        s += 'using PX = TM::eval_proxy_t;\n'
        s += 'extern "C" void* probe_px(const TM& t, %s) { return new PX(t.eval_proxy(%s)); }\n' % (xs, xn)
        s += 'extern "C" void* probe_pxa(const TM& t, %s) { std::array<U, %d> c{{%s}}; return new PX(t.eval_proxy(c)); }\n' % (xs, D, xn)
        s += 'extern "C" T probe_pxcall(void* p, const F& f) { return (*static_cast<PX*>(p))(f); }\n'
        s += 'extern "C" T probe_px_f(const TM& t, const F& f, %s) { return t.eval_proxy(%s)(f); }\n' % (xs, xn)
        s += 'extern "C" T probe_px_minus(const TM& t, const F& f, %s) { return t.eval_proxy(%s)(f) - f(%s); }\n' % (xs, xn, xn)
        s += 'extern "C" T probe_pxa_minus(const TM& t, const F& f, %s) { std::array<U, %d> c{{%s}}; return t.eval_proxy(c)(f) - f(%s); }\n' % (xs, D, xn, xn)
    return s


def module_interp(D, O, kinds, macros=(), std='17', T='double', U='double', features=('eval',), **kw):
    return ir.module(interp(D, O, kinds, T, U, features), std=std, macros=macros, name='in', **kw)
