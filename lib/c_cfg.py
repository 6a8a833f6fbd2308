"""C16: every configuration compiles and links (compile-time witnesses)."""
import os, subprocess, tempfile, re
from itertools import product, combinations
import ir

HDRS = ['BSpline.hpp', 'BandLU.hpp', 'BandMatrix.hpp', 'DedicatedThreadPool.hpp', 'Interpolation.hpp', 'InterpolationTemplate.hpp', 'Mesh.hpp', 'aligned-allocator.hpp', 'util.hpp']
MACROS = ['INTP_CELL_LAYOUT', 'INTP_PERIODIC_NO_DUMMY_POINT', 'INTP_MULTITHREAD', 'INTP_ENABLE_ASSERTION', 'INTP_DEBUG', 'INTP_TRACE', 'INTP_STACK_ALLOCATOR']
SHORT = dict(zip(MACROS, ['cell', 'nodummy', 'mt', 'assert', 'debug', 'trace', 'stack']))

VEC = '''
struct Vec3 { double v[3]; Vec3() : v{0., 0., 0.} {} Vec3(double a, double b, double c) : v{a, b, c} {}
  Vec3& operator+=(const Vec3& o) { for (int i = 0; i < 3; ++i) v[i] += o.v[i]; return *this; }
  Vec3& operator-=(const Vec3& o) { for (int i = 0; i < 3; ++i) v[i] -= o.v[i]; return *this; }
  Vec3& operator*=(double s) { for (int i = 0; i < 3; ++i) v[i] *= s; return *this; }
  Vec3& operator/=(double s) { for (int i = 0; i < 3; ++i) v[i] /= s; return *this; }
  friend Vec3 operator+(Vec3 a, const Vec3& b) { return a += b; }
  friend Vec3 operator-(Vec3 a, const Vec3& b) { return a -= b; }
  friend Vec3 operator*(Vec3 a, double s) { return a *= s; }
  friend Vec3 operator*(double s, Vec3 a) { return a *= s; }
  friend Vec3 operator/(Vec3 a, double s) { return a /= s; }
  template <typename S> friend S& operator<<(S& s, const Vec3& a) { s << a.v[0]; return s; } };
'''


def use(tag, D, O, T, U, cell):
    """a function using every public operation of one instance"""
    L = lambda f, sep=', ': sep.join(f % dict(d=d) for d in range(D))
    s = 'namespace %s {\n' % tag
    s += 'typedef %s T; typedef %s U; const std::size_t D = %d, O = %d;\n' % (T, U, D, O)
    s += 'typedef InterpolationFunction<T, D, O, U> F; typedef InterpolationFunctionTemplate<T, D, O, U> TM; typedef BSpline<T, D, O, U> B; typedef Mesh<T, D> M;\n'
    s += 'inline T use(T* d, T* e, U* x, U* y, std::size_t n) {\n'
    s += '  std::array<std::size_t, D> idx; idx.fill(n); M m{MeshDimension<D>(idx)}; const M& cm = m; T r{};\n'
    s += '  std::array<bool, D> per{}; const std::vector<U> xv(x, y); std::list<U> xl(x, y);\n'
    if D == 1:
        s += '''  M m1(std::make_pair(d, e)); F a(std::make_pair(d, e), std::make_pair(x[0], x[1])); F b(true, std::make_pair(d, e), std::make_pair(x, y)); F fc(m, std::make_pair(x[0], x[1]));
  F a2(true, std::make_pair(d, e), std::make_pair(0, 1.5)); F a3(std::make_pair(d, e), std::make_pair(xv.begin(), xv.end())); F a4(false, std::make_pair(d, e), std::make_pair(xl.begin(), xl.end()));
  InterpolationFunction1D<O, T, U> g(std::make_pair(d, e)), g2(std::make_pair(d, e), true), g3(std::make_pair(x[0], x[1]), std::make_pair(d, e), true), g4(std::make_pair(x, y), std::make_pair(d, e));
  InterpolationFunctionTemplate1D<O, T, U> t1(n), t2(n, true), t3(std::make_pair(x[0], x[1]), n), t4(std::make_pair(x, y), n, true);
  TM t5(n, std::make_pair(x[0], x[1])), t6(true, n, std::make_pair(x, y));
  TM t8(n, std::make_pair(0, 1.5)), t9(true, n, std::make_pair(x[0], n)); InterpolationFunctionTemplate1D<O, T, U> t10(std::make_pair(-1, 2u), n); F a8(std::make_pair(d, e), std::make_pair(0, 4)), a9(true, std::make_pair(d, e), std::make_pair(n, x[0]));
  r += t1.interpolate(std::make_pair(d, e))(x[0]); r += t2.interpolate(m)(x[0]); t3.interpolate(a, std::make_pair(d, e)); r += t5.interpolate(m)(x[0]) + std::move(t6).interpolate(std::make_pair(d, e))(x[0]);
  r += g(x[0]); r += g2(0.5f); r += g3.at(1); r += g4.derivative(std::make_pair(x[0], 1)); r += fc(x[0]) + a2(1) + a3(x[1]) + a4(x[1]);
'''
        if O == 3 and T == 'double' and U == 'double': s += '  InterpolationFunction1D<> g5(std::make_pair(d, e)); r += g5(x[0]); InterpolationFunctionTemplate1D<3> t7(n); r += t7.interpolate(std::make_pair(d, e))(x[0]);\n'
        if T == 'double': s += '  std::vector<double> vd(d, e); F a5(std::make_pair(vd.begin(), vd.end()), std::make_pair(x[0], x[1])), a6(true, std::make_pair(vd.cbegin(), vd.cend()), std::make_pair(x[0], x[1])); std::list<double> ld(d, e); F a7(false, std::make_pair(ld.begin(), ld.end()), std::make_pair(x[0], x[1])); r += a5(x[0]) + a6(x[0]) + a7(x[0]);\n'
    else: s += '  F a(m, %s); F b(per, cm, %s);\n' % (L('std::make_pair(x[0], x[1])'), L('std::make_pair(x, y)'))
    s += '  F mix(per, m, %s);\n' % ', '.join('std::make_pair(x[0], x[1])' if k % 2 else 'std::make_pair(xv.begin(), xv.end())' for k in range(D))
    s += '  TM t(per, MeshDimension<D>(idx), %s), tn(MeshDimension<D>(idx), %s);\n' % (L('std::make_pair(x[0], x[1])'), L('std::make_pair(x, y)'))
    s += '  F f = t.interpolate(m), f2(f), f3(std::move(f2)), z; f2 = f3; z = std::move(f3); tn.interpolate(z, cm); M m9(m); tn.interpolate(f3, std::move(m9)); const TM tc(t); f2 = tc.interpolate(cm); f2 = TM(t).interpolate(m);\n'
    s += '  std::array<U, D> c; c.fill(x[0]); std::array<std::size_t, D> k; k.fill(1);\n'
    s += '  r += f(c); r += f.at(c); r += f.derivative(c, k); r += f.derivative_at(c, k); r += f.derivative(c, %s); r += f.derivative_at(c, %s);\n' % (L('1'), L('std::size_t{2}'))
    s += '  r += f(%s); r += f.at(%s); r += f.derivative(%s); r += f.derivative_at(%s); r += a(%s); r += b(c); r += mix(c);\n' % (L('x[%(d)d]'), L('x[%(d)d]'), L('std::make_pair(x[%(d)d], 1)'), L('std::make_pair(x[%(d)d], std::size_t{0})'), L('1.5'))
    s += '  r += f(%s); r += f.at(%s);\n' % (L('1'), L('1.f'))
    s += '  { int one = 1; float xf = 2.f; double xd = 3.; (void)one; r += f.derivative(%s); r += f.derivative_at(%s); r += f.derivative(%s); r += f(%s); r += f.at(%s); }\n' % (L('std::make_pair(one, 1)'), L('std::make_pair(xd, 1)'), ', '.join('std::make_pair(%s, 1)' % ('one', 'xf', 'xd')[k % 3] for k in range(D)), L('xd'), ', '.join(('one', 'xf', 'xd')[k % 3] for k in range(D)))
    s += '  if (f.periodicity(0) || f.uniform(D - 1) || f.range(0).first < f.range(0).second) r += d[F::get_order()]; const std::size_t& od = F::order; const std::size_t& dd = F::dim; const std::size_t& o2 = TM::order; const std::size_t& d2 = TM::dim; const std::size_t& o3 = B::order; const std::size_t& d3 = B::dim; r += d[od + dd + o2 + d2 + o3 + d3];\n'
    s += '  const B& sp = f.spline(); B sc(sp), sm(std::move(sc)); sc = sp; sm = std::move(sc); B se, sper(per); typename B::ControlPointContainer cp{m}, cp2(cp); std::vector<U> kn(x, y);\n'
    s += '  sm.load_knots(0, kn); sm.load_knots(D - 1, std::move(kn)); sm.load_ctrlPts(cp); sm.load_ctrlPts(std::move(cp)); B s2(per, cp2, %s), s3(cp2, %s);\n' % (L('std::make_pair(x, y)'), L('std::make_pair(xv.begin(), xv.end())'))
    s += '  std::array<std::pair<U, std::size_t>, D> h; h.fill(std::make_pair(x[0], n)); std::array<std::tuple<U, std::size_t, std::size_t>, D> ht; ht.fill(std::make_tuple(x[0], n, n)); std::array<double, D> cd{};\n'
    s += '  r += sp(h); r += sp(cd); r += sp.derivative_at(ht); r += sp.derivative_at(h); r += sp({{%s}});\n' % L('std::pair<U, std::size_t>{x[%(d)d], n}')
    s += '  r += d[sp.knots_num(0)]; r += d[static_cast<std::size_t>(sp.knots_begin(0) - sp.knots_end(0))]; r += d[sp.periodicity(0)]; if (sp.range(0).first < U{1}) r += d[sp.get_order()]; r += *sp.control_points().begin();\n'
    s += '#ifdef INTP_DEBUG\n  sp.debug_output();\n#endif\n'
    if cell: s += '  auto px = tc.eval_proxy(c); r += px(f); typename TM::eval_proxy_t px3 = t.eval_proxy(%s); r += px3(f); auto bp = sp.pre_calc_coef(h); r += bp(sp);\n' % L('x[%(d)d]')
    if cell: s += '  { int one = 1; double xd = 3.; r += tc.eval_proxy(%s)(f); r += tc.eval_proxy(%s)(f); }\n' % (L('one'), L('xd'))
    s += '  return r; }\n}\n'
    return s


REST = """
namespace rest {
template <typename MM, typename V> void mat(V& v) { MM a(6, 2, 1), b(a), z; z = a; b = std::move(z); const MM& c = a; a(1, 1) = c(1, 1); a(1, 1) += static_cast<double>(a.dim() + a.lower_band_width() + a.upper_band_width()); v = c * v;
  BandLU<MM> lu(a), l2(b), l3; l3.compute(std::move(b)); l2.compute(a); const BandLU<MM>& cl = lu; v = cl.solve(v); V w = cl.solve(std::move(v)); cl.solve_in_place(w); cl.solve_in_place(w.begin()); v = w; }
inline void bands(std::vector<double>& v, double* p, Mesh<double, 2>& m) { mat<BandMatrix<double>>(v); mat<ExtendedBandMatrix<double>>(v); BandMatrix<double> b(4, 1, 1); BandLU<BandMatrix<double>> l(b); l.solve_in_place(p); l.solve_in_place(m.begin(0, {{0, 0}}));
  ExtendedBandMatrix<double> e(6, 1, 2); e.main_bands_val(0, 0) = 1; e.side_bands_val(0, 5) = 1; const ExtendedBandMatrix<double>& ce = e; *p = ce.main_bands_val(0, 0) + ce.side_bands_val(0, 5); std::cout << b << e; BandMatrix<float> bf(3, 1, 1); BandLU<BandMatrix<float>> lf(bf); std::vector<float> vf(3); vf = lf.solve(vf); }
template <std::size_t D, typename M> void mesh(M& m) { const M& c = m; typedef std::array<std::size_t, D> I; I i{}; m(i) = c(i); *m.begin(0, i) = *c.begin(D - 1, i); *(m.end(0, i) - 1) = *(c.end(0, i) - 1); I k = c.iter_indices(c.begin()); m(k) = *c.data(); m(k) = *m.begin(); m(k) = *(m.end() - 1); m(k) = *(c.end() - 1);
  auto it = m.begin(0, i), e = m.end(0, i); for (; it != e; ++it) *it = *m.begin(); std::sort(m.begin(0, i), m.end(0, i)); auto ci = c.begin(0, i); ci += 1; ci -= 1; ci++; ci--; if (ci < c.end(0, i) && c.end(0, i) - ci > 0 && ci[0] == *ci) k = c.iter_indices(ci);
  std::vector<typename M::val_type> v(c.begin(0, i), c.end(0, i)); m.resize(i); if (c.size() + c.dim_size(0) + c.dimension().size()) { M x(c), y(std::move(x)); x = y; y = std::move(x); } }
inline void meshes(double* a, double* b) { Mesh<double, 1> m1(5), m1b(std::make_pair(a, b)); Mesh<double, 2> m2(4, 3); Mesh<float, 3> m3(2, 3, 4); Mesh<double, 3> m3c(4); Mesh<double, 2, AlignedAllocator<double, Alignment::AVX>> ma(m2), mb(MeshDimension<2>(2, 2));
  mesh<1>(m1); mesh<1>(m1b); mesh<2>(m2); mesh<3>(m3); mesh<3>(m3c); mesh<2>(ma); m2(1, 2) = m3(0, 1, 2); const Mesh<double, 2>& c2 = m2; m1(0) = c2(1, 1); MeshDimension<2> d(3, 4), d2(std::array<std::size_t, 2>{{1, 2}}), d3(3); d.dim_size(0) = d2.dim_size(1) + d3.dim_acc_size(1) + d.indexing_safe(1, 2) + d.indexing({{1, 1}}) + d.indexing_safe({{1, 1}}); d.resize({{2, 2}}); std::array<std::size_t, 2> q = d; q = d.dimwise_indices(3); (void)q; }
inline void allocs() { std::vector<double, AlignedAllocator<double, Alignment::AVX512>> v(9); v.push_back(1); std::list<int, AlignedAllocator<int, Alignment::SSE>> l(3); std::vector<double, util::default_init_allocator<double, AlignedAllocator<double>>> u(5), w(u); w.push_back(2); u = std::move(w); AlignedAllocator<const double, Alignment::AVX> ca; ca.deallocate(ca.allocate(3), 3); }
}
"""

POOL = """
namespace pool {
inline int use() { auto& p = DedicatedThreadPool<void>::get_instance(2); auto& q = DedicatedThreadPool<int>::get_instance(); auto f = p.queue_task([] {}); f.get(); struct G { std::unique_ptr<int> x; int operator()() { return *x; } }; auto g = q.queue_task([] { return 3; }); if (p.is_main_queue_empty()) return g.get() + static_cast<int>(q.thread_num()); return 0; }
}
"""

PROXY = [(1, 3, 'double', 'double'), (2, 2, 'double', 'double')]
INST = [(1, 0, 'double', 'double'), (1, 3, 'double', 'double'), (1, 2, 'float', 'float'), (1, 1, 'Vec3', 'double'), (2, 3, 'double', 'double'), (3, 2, 'double', 'double'), (2, 2, 'long double', 'double'), (2, 1, 'std::complex<double>', 'double'), (1, 4, 'double', 'float')]


def source(main, macros, insts=INST, hdrs=None):
    hdrs = hdrs or ['Interpolation.hpp']
    s = ''.join('#include <%s>\n' % h for h in hdrs)
    s += '#include <list>\n#include <vector>\n#include <complex>\n#include <iostream>\n#include <tuple>\n#include <algorithm>\n#include <memory>\n'
    s += VEC + 'using namespace intp;\n'
    for i, (D, O, T, U) in enumerate(insts):
        if (D, O, T) == (1, 0, 'double') or T in ('double', 'float', 'Vec3', 'long double', 'std::complex<double>'): s += use('i%d' % i, D, O, T, U, 'INTP_CELL_LAYOUT' in macros)
    s += REST + (POOL if 'INTP_MULTITHREAD' in macros else '')
    calls = ' '.join('i%d::T t%d[99]; i%d::U u%d[99]; i%d::use(t%d, t%d + 5, u%d, u%d + 5, 5);' % (i, i, i, i, i, i, i, i, i) for i in range(len(insts)))
    calls += ' std::vector<double> v(6); double a[9]; Mesh<double, 2> m(4, 4); rest::bands(v, a, m); rest::meshes(a, a + 5); rest::allocs();' + (' pool::use();' if 'INTP_MULTITHREAD' in macros else '')
    return s + '%s { %s }\n' % ('int main()' if main else 'void other()', calls)


CXX = {'clang': 'clang++-18', 'gcc': 'g++'}


def run(cc, std, macros, src, args, d, name):
    p = os.path.join(d, name + '.cpp')
    open(p, 'w').write(src)
    cmd = [CXX[cc], '-std=c++' + std, '-pedantic-errors' if False else '-w', *ir.defs(macros), '-I', ir.INC, p] + args
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode, r.stdout


def first_error(out):
    ls = out.splitlines()
    for i, l in enumerate(ls):
        if 'error' in l or 'undefined reference' in l or 'multiple definition' in l: return l.strip()
    return (ls or ['?'])[0]


def mname(macros, std, cc): return '%s c++%s %s' % (cc, std, '+'.join(SHORT[m] for m in macros) or 'no macros')


def verdict(rep, rc, out, what):
    if rc < 0 or 'internal compiler error' in out or 'No space left' in out or 'Killed' in out:
        rep.undecided('%s: compiler failed: %s' % (what, first_error(out)))
        return False
    e = first_error(out) if rc else ''
    m = re.search(r'(\S+?:\d+):?\d*:? ', e)
    return rep.check(rc == 0, 'every configuration builds', '%s does not build: %s' % (what, e[:300]), m.group(1) if m else None)


def u_header(rep, cc, std, macsets):
    d = tempfile.mkdtemp(dir=ir.scratch())
    for mac in macsets:
        for h in HDRS:
            if not os.path.exists(os.path.join(ir.INC, h)):
                rep.check(False, 'public header exists', '%s is gone' % h)
                continue
            rc, out = run(cc, std, mac, '#include <%s>\n#include <%s>\n' % (h, h), ['-fsyntax-only'], d, 'h')
            verdict(rep, rc, out, '%s alone, %s' % (h, mname(mac, std, cc)))


def u_use(rep, cc, std, mac, insts):
    d = tempfile.mkdtemp(dir=ir.scratch())
    rc, out = run(cc, std, mac, source(True, mac, insts), ['-fsyntax-only'], d, 'u')
    verdict(rep, rc, out, 'a program using all public operations, %s' % mname(mac, std, cc))


def u_link(rep, cc, std, mac, insts, opt='-O0', order=1):
    d = tempfile.mkdtemp(dir=ir.scratch())
    ok = True
    for nm, main in (('a', True), ('b', False)):
        hs = ['Interpolation.hpp'] if main else HDRS[::order]
        rc, out = run(cc, std, mac, source(main, mac, insts, hs), ['-c', opt, '-o', os.path.join(d, nm + '.o')], d, nm)
        ok = verdict(rep, rc, out, 'translation unit including %s, %s' % (hs if main else 'all headers', mname(mac, std, cc))) and ok
    if ok:
        r = subprocess.run([CXX[cc], os.path.join(d, 'a.o'), os.path.join(d, 'b.o'), '-o', os.path.join(d, 'x'), '-pthread'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        verdict(rep, r.returncode, r.stdout, 'linking two translation units, %s %s' % (mname(mac, std, cc), opt))


def units(tier):
    us = []
    T = tier == 'thorough'
    allm = [tuple(m for m, b in zip(MACROS, bits) if b) for bits in product((0, 1), repeat=len(MACROS))]
    pick = [(), tuple(MACROS), ('INTP_CELL_LAYOUT', 'INTP_PERIODIC_NO_DUMMY_POINT', 'INTP_MULTITHREAD')] + [(m,) for m in MACROS]
    some = [INST[i] for i in (1, 4)]
    for cc in CXX:
        for std in ('11', '14', '17', '20'):
            for mac in [(), tuple(MACROS)] + ([(m,) for m in MACROS] if T else [('INTP_CELL_LAYOUT',), ('INTP_MULTITHREAD',), ('INTP_TRACE',), ('INTP_DEBUG',)]):
                us.append(('headers alone %s' % mname(mac, std, cc), u_header, (cc, std, [mac]), 600))
            for k, mac in enumerate(allm if T else pick): us.append(('use %s' % mname(mac, std, cc), u_use, (cc, std, mac, INST if T or mac in pick[:3] else some + [INST[3], INST[2]]), 300))
            for k, mac in enumerate([('INTP_CELL_LAYOUT', 'INTP_MULTITHREAD'), ('INTP_PERIODIC_NO_DUMMY_POINT', 'INTP_TRACE', 'INTP_MULTITHREAD', 'INTP_DEBUG'), ('INTP_ENABLE_ASSERTION',)] if cc == 'gcc' or T else [('INTP_CELL_LAYOUT', 'INTP_MULTITHREAD')]):
                us.append(('link %s' % mname(mac, std, cc), u_link, (cc, std, mac, INST if T else some, '-O0', -1 if k else 1), 300))
    return us


OPAQUE = '''
// an element of a real vector space: no comparison, no product of elements, no conversion to or from scalars
class Opq { double a, b; struct Tag {}; Opq(Tag, double x, double y) : a(x), b(y) {}
 public: Opq() : a(), b() {} Opq(const Opq& o) : a(o.a), b(o.b) {} Opq& operator=(const Opq& o) { a = o.a; b = o.b; return *this; }
  Opq& operator+=(const Opq& o) { a += o.a; b += o.b; return *this; } Opq& operator-=(const Opq& o) { a -= o.a; b -= o.b; return *this; } Opq& operator*=(double s) { a *= s; b *= s; return *this; } Opq& operator/=(double s) { a /= s; b /= s; return *this; }
  friend Opq operator+(Opq x, const Opq& y) { return x += y; } friend Opq operator-(Opq x, const Opq& y) { return x -= y; } Opq operator-() const { return Opq(Tag(), -a, -b); }
  friend Opq operator*(double s, Opq x) { return x *= s; } friend Opq operator*(Opq x, double s) { return x *= s; } friend Opq operator/(Opq x, double s) { return x /= s; } };
'''


def u_opaque(rep, cc, std, mac, insts):
    d = tempfile.mkdtemp(dir=ir.scratch())
    def prog(vt):
        s = '#include <Interpolation.hpp>\n#include <list>\n#include <vector>\n#include <tuple>\n' + OPAQUE + VEC + 'using namespace intp;\n'
        for i, (D, O) in enumerate(insts): s += use('i%d' % i, D, O, vt, 'double', 'INTP_CELL_LAYOUT' in mac)
        return s
    rc, out = run(cc, std, mac, prog('Opq'), ['-fsyntax-only'], d, 'o')
    if rc and run(cc, std, mac, prog('double'), ['-fsyntax-only'], d, 'd')[0]: return rep.undecided('does not compile for double either: ' + first_error(out))   # another property's business
    e = first_error(out)
    m = next((l for l in out.splitlines() if ir.INC in l), e)
    rep.check(rc == 0, 'only vector-space operations are used', 'an element type with vector-space operations only does not compile, %s: %s' % (mname(mac, std, cc), e[:300]), m[:200])
