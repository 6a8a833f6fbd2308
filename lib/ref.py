"""Reference formulas of B-splines, evaluated in the abstract float domain of vg (field residues)."""
from itertools import product
import vg
from vg import fadd, fmul, fdiv, fconst, fsym, UNDEF, Fl

Z, ONE = fconst(0), fconst(1)


def sub(a, b): return fadd(a, b, -1)


# truncated Taylor series in the coordinate
def sadd(a, b): return [fadd(x, y) for x, y in zip(a, b)]


def smul(a, b):
    n = len(a)
    r = [Z] * n
    for i in range(n):
        for j in range(n - i):
            if a[i].c == 0 or b[j].c == 0: continue
            r[i + j] = fadd(r[i + j], fmul(a[i], b[j]))
    return r


def sconst(c, n): return [c] + [Z] * (n - 1)


def basis(t, s, x, p, k=0):
    """k-th derivatives at x of the p+1 basis functions of degree p that live on segment [t[s], t[s+1])
    (control points s-p..s), by the Cox-de Boor recursion"""
    n = k + 1
    X = [x, ONE] + [Z] * (n - 2) if n > 1 else [x]
    B = {s: sconst(ONE, n)}
    for q in range(1, p + 1):
        N = {}
        for i in range(s - q, s + 1):
            v = [Z] * n
            if i in B:
                w = [fadd(X[0], t[i], -1)] + X[1:]
                v = sadd(v, smul(B[i], [fdiv(c, sub(t[i + q], t[i])) for c in w]))
            if i + 1 in B:
                w = [sub(t[i + q + 1], X[0])] + [fmul(fconst(-1), c) for c in X[1:]]
                v = sadd(v, smul(B[i + 1], [fdiv(c, sub(t[i + q + 1], t[i + 1])) for c in w]))
            N[i] = v
        B = N
    f = 1
    for i in range(2, k + 1): f *= i
    return [fmul(fconst(f), B[i][k]) for i in range(s - p, s + 1)]


class Dim:
    """one dimension of a spline under analysis"""
    def __init__(s, knots, periodic, order, n_ctrl, x, deriv=0):
        s.t = knots
        s.per = periodic
        s.p = order
        s.n = n_ctrl
        s.x = x
        s.k = deriv
        s.first, s.last = order, len(knots) - order - 2
        s.lo, s.hi = knots[order], knots[len(knots) - order - 1]
        s.cache = {}

    def b(s, seg, X):
        key = (seg, X.r)
        v = s.cache.get(key)
        if v is None:
            v = s.cache[key] = [Z] * (s.p + 1) if s.k > s.p else basis(s.t, seg, X, s.p, s.k)
        return v

    def idx(s, seg):
        return [(seg - s.p + j) % s.n if s.per else seg - s.p + j for j in range(s.p + 1)]

    def coords(s, ev):
        """coordinates equal to x (modulo the period), known to the row"""
        if not s.per: return [s.x]
        P = sub(s.hi, s.lo)
        out = []
        for k in range(-2, 3): out.append(fadd(s.x, fmul(fconst(k), P)))
        for a, (u, v) in ev.fm.items():
            if v.r == P.r or v.r == fmul(fconst(-1), P).r:
                m = Fl(vg.hres('fn:' + a), None, {a: 1})
                base = fadd(sub(s.x, u), m)
                for k in range(-2, 3): out.append(fadd(base, fmul(fconst(k), P)))
        for a, (nm, w) in ev.rd.items():
            m = Fl(vg.hres('fn:' + a), None, {a: 1})
            for sg in (1, -1):
                base = fadd(s.x, fmul(fconst(sg), fmul(m, P)))
                for k in range(-2, 3): out.append(fadd(base, fmul(fconst(k), P)))
        return out

    def options(s, ev):
        """[(X, entailed, open segments, closed segments)]: coordinates congruent to x that may lie in the base
        range; the segments whose interior the row's facts leave possible, and those of which only a point is"""
        out = []
        for X in s.coords(ev):
            n = len(ev.ffacts)
            ent = True
            if s.per:
                if not (ev.consistent(X, s.lo, False) and ev.consistent(s.hi, X, False)): continue
                ent = ev.entails(X, s.lo, False) and ev.entails(s.hi, X, False)
                if not (ev.addfact(X, s.lo, False) and ev.addfact(s.hi, X, False)):
                    del ev.ffacts[n:]
                    continue
            m = len(ev.ffacts)
            op, cl = [], []
            for seg in range(s.first, s.last + 1):
                for strict, l in ((True, op), (False, cl)):
                    ok = (seg == s.first or ev.addfact(X, s.t[seg], strict)) and \
                         (seg == s.last or ev.addfact(s.t[seg + 1], X, strict))
                    del ev.ffacts[m:]
                    if ok: l.append(seg)
            del ev.ffacts[n:]
            if cl: out.append((X, ent, op, cl))
        return out


def judge(row, dims, ctrl):
    """is row's result the spline value for every coordinate the row covers?  'ok' | 'bad' | 'und'"""
    ev = row.ev
    if row.ret is UNDEF or not isinstance(row.ret, Fl): return 'bad'
    if any(d.k > d.p for d in dims): return 'ok' if row.ret == Z else 'bad'
    opts = [d.options(ev) for d in dims]
    und = False
    for combo in product(*opts):
        if all(o[2] for o in combo):
            ok = all(value(dims, ctrl, [(sg, o[0]) for sg, o in zip(segs, combo)]) == row.ret for segs in product(*[o[2] for o in combo]))
        else:
            ok = any(value(dims, ctrl, [(sg, o[0]) for sg, o in zip(segs, combo)]) == row.ret for segs in product(*[o[2] or o[3] for o in combo]))
        if ok:
            if all(o[1] for o in combo): return 'ok'
            if any(any(x in ev.rd or x.startswith('R*') for x in (o[0].lin or {'R*': 1})) for o in combo): und = True
    return 'und' if und else 'bad'


def value(dims, ctrl, choice):
    """sum of ctrl * products of basis values; choice: [(seg, X)] per dimension; ctrl: function(index tuple)"""
    bs = [d.b(*c) for d, c in zip(dims, choice)]
    ix = [d.idx(c[0]) for d, c in zip(dims, choice)]
    v = Z
    for js in product(*[range(d.p + 1) for d in dims]):
        w = ONE
        for d, j in enumerate(js): w = fmul(w, bs[d][j])
        if w.c == 0: continue
        v = fadd(v, fmul(w, ctrl(tuple(ix[d][j] for d, j in enumerate(js)))))
    return v
