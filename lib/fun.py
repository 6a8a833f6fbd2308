"""A symbolic InterpolationFunction: grids, data symbols, construction in a World."""
from itertools import product
from fractions import Fraction
import random
import tu, ref, vg
from vg import fsym, fconst, fadd, fmul, fdiv, Undecided, Fl
from probe import World, memory_ok

NOD = 'INTP_PERIODIC_NO_DUMMY_POINT'
CELL = 'INTP_CELL_LAYOUT'


def sub(a, b): return fadd(a, b, -1)


def axis(w, name, kind, per, n, style='generic', seed=1):
    """coordinates of the n+per grid points (periodic: the last is the first plus one period), and constructor arguments.
    kind 'u': uniform, 'i' with integer ends; 'j': integers; 'n' fully symbolic increasing coordinates ('generic') or an affine image of fixed increasing ones"""
    m = n + (1 if per else 0)
    if kind in 'ij':   # integers; the spacing of the range is not one, and its width may not be an int
        def wide(m): return [fconst(-2000000000 + Fraction(i * 4000000001, m - 1)) for i in range(m)], [-2000000000, 2000000001]
        rng = random.Random('%s-%d-%s' % (seed, m, name))
        if kind == 'i':
            a = -rng.randrange(2, 6)
            if m % 3 == 0: return wide(m)
            L = next(v for v in (2 * m - 1, m - 2, 2 * m + 1, m + 1) if v > 0 and (v % (m - 1) or m == 2))
            return [fconst(a + Fraction(i * L, m - 1)) for i in range(m)], [a, a + L]
        c = [-3]
        for i in range(m - 1): c.append(c[-1] + rng.choice([1, 1, 2, 3, 5]))
        p = w.array(name, c)
        return [fconst(v) for v in c], [p, vg.iadd(p, 8 * m)]
    if kind == 'u':
        if style == 'num': a, b = fconst(-2), fconst(m)
        else:
            a, b = fsym(name + '_a'), fsym(name + '_b')
            w.fact(b, a)
        dx = fdiv(sub(b, a), fconst(m - 1))
        xs = [fadd(a, fmul(fconst(i), dx)) for i in range(m)]
        return xs, [a, b]
    if style == 'generic':
        xs = [fsym('%s_%d' % (name, i)) for i in range(m)]
        for i in range(m - 1): w.fact(xs[i + 1], xs[i])
    else:
        rng = random.Random('%s-%d-%s-%s' % (seed, m, name, style))
        t, c = 0, []
        for i in range(m):
            c.append(t)
            t += rng.choice([1, 1, 2, 3, 5, 8, 11])
        if style == 'num': xs = [fconst(v) for v in c]
        else:
            a, h = fsym(name + '_a'), fsym(name + '_h')
            w.fact(h, fconst(0))
            xs = [fadd(a, fmul(fconst(v), h)) for v in c]
    p = w.array(name, xs)
    return xs, [p, vg.iadd(p, 8 * m)]


class IF:
    """InterpolationFunction<T, D, O> over a symbolic grid.  n: control points (= distinct data points) per dimension"""
    def __init__(s, mod, D, O, kinds, per, n, macros, style='generic', seed=1, data='d', maker='probe_mkf', world=None, dummy='dummy', build=True, facts_of=None):
        s.w = w = world or World(mod)
        s.D, s.O, s.kinds, s.per, s.n, s.macros = D, O, kinds, per, n, macros
        s.nod = NOD in macros
        s.cell = CELL in macros
        # shape of the data given by the caller
        s.shape = [n[d] + (1 if per[d] and not s.nod else 0) for d in range(D)]
        s.xs, s.rng = [], []
        for d in range(D):
            xs, rg = axis(w, 'g%d' % d, kinds[d], per[d], n[d], style, seed)
            s.xs.append(xs)
            s.rng += rg
        s.x = [fsym('x%d' % d) for d in range(D)]
        s.dataname = data
        s.dummy = dummy
        s.c = w.array(data, s.values(data))
        if build:
            s.mk = w.one(maker, *([s.c] + s.ns() + s.ps() + s.rng))
            s.f = s.mk.ret

    def ns(s): return list(s.shape)
    def ps(s): return [int(bool(p)) for p in s.per]

    def values(s, data):
        out = []
        for ix in product(*[range(k) for k in s.shape]):
            out.append(s.sym(data, ix))
        return out

    def sym(s, data, ix):
        if any(i >= s.n[d] for d, i in enumerate(ix)): return fsym('%s_%s_%s' % (data, s.dummy, '_'.join(map(str, ix))))
        return fsym('%s_%s' % (data, '_'.join(map(str, ix))))

    def points(s):
        """(coordinates, expected value) of every data point, the closing point of a periodic dimension included"""
        for ix in product(*[range(len(x)) for x in s.xs]):
            yield ix, [s.xs[d][i] for d, i in enumerate(ix)], s.sym(s.dataname, tuple(i % s.n[d] if s.per[d] else i for d, i in enumerate(ix)))

    def tag(s): return 'InterpolationFunction<%d,%d> %s periodic=%s points=%s' % (s.D, s.O, ''.join(s.kinds), s.per, s.n)

    def call(s, fn, *a): return s.w.fork().one(fn, *a)

    def knots(s, f=None):
        f = f or s.f
        w, out = s.w.fork(), []
        for d in range(s.D):
            nk = w.one('probe_nk', f, d).ret
            p = w.one('probe_knots', f, d).ret
            out.append(w.read(p, nk))
        return out

    def range(s, f=None):
        w = s.w.fork()
        return [(w.one('probe_lo', f or s.f, d).ret, w.one('probe_hi', f or s.f, d).ret) for d in range(s.D)]


def grid(w, s): return s
