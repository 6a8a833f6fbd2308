"""Linear-inequality (convex polyhedra) reasoning over rational linear forms.

A fact is (form, strict): form > 0 or form >= 0, form a dict {variable: Fraction}, '' the constant term.
entails() decides whether a form's sign follows, by Fourier-Motzkin elimination on the facts that share
variables with it.
"""
from math import gcd


def normal(d):
    """integer-coefficient normal form, as a sorted tuple"""
    l = 1
    for c in d.values():
        q = c.denominator
        l = l * q // gcd(l, q)
    items = [(x, int(c * l)) for x, c in d.items() if c]
    g = 0
    for _, c in items: g = gcd(g, c)
    if g > 1: items = [(x, c // g) for x, c in items]
    items.sort()
    return tuple(items)


_cache = {}


def infeasible(rows, limit=4000):
    """rows: {tuple form: strict}; is the conjunction form >(=) 0 contradictory?"""
    rows = dict(rows)
    while True:
        vs = {}
        for f, st in rows.items():
            for x, c in f:
                if x:
                    p = vs.setdefault(x, [0, 0])
                    p[c > 0] += 1
        if not vs: break
        # variables bounded on one side only: their rows can be dropped
        drop = [x for x, (n, p) in vs.items() if not n or not p]
        if drop:
            ds = set(drop)
            rows = {f: st for f, st in rows.items() if not any(x in ds for x, _ in f)}
            if not rows: return False
            continue
        x = min(vs, key=lambda v: vs[v][0] * vs[v][1] - vs[v][0] - vs[v][1])
        pos, neg, new = [], [], {}
        for f, st in rows.items():
            c = dict(f).get(x, 0)
            if c > 0: pos.append((f, c, st))
            elif c < 0: neg.append((f, -c, st))
            else: new[f] = st
        for f, c, st in pos:
            for g, e, st2 in neg:
                d = {}
                for y, v in f:
                    d[y] = v * e
                for y, v in g:
                    d[y] = d.get(y, 0) + v * c
                items = [(y, v) for y, v in d.items() if v]
                s3 = st or st2
                if not items:
                    if s3: return True
                    continue
                if len(items) == 1 and items[0][0] == '':
                    if items[0][1] < 0: return True
                    continue
                q = 0
                for _, v in items: q = gcd(q, v)
                items.sort()
                k = tuple((y, v // q) for y, v in items)
                if new.get(k) is not True: new[k] = s3 or new.get(k, False)
        if len(new) > limit: return False
        rows = new
    for f, st in rows.items():
        c = f[0][1] if f else 0
        if c < 0 or (c == 0 and st): return True
    return False


def related(facts, form):
    """the facts connected to form through shared variables"""
    vs = {x for x, _ in form if x}
    rest = list(facts)
    out = []
    while True:
        take = [f for f in rest if any(x in vs for x, _ in f[0])]
        if not take: break
        rest = [f for f in rest if f not in take]
        for f in take: vs.update(x for x, _ in f[0] if x)
        out += take
    return out


def positive(facts, form, strict):
    """does form > 0 (>= 0) follow from the facts?  facts: [(tuple form, strict)]"""
    if not form: return not strict
    if len(form) == 1 and form[0][0] == '': return form[0][1] > 0
    rel = related(facts, form)
    key = (frozenset(rel), form, strict)
    v = _cache.get(key)
    if v is None:
        rows = {}
        for f, st in rel: rows[f] = st or rows.get(f, False)
        neg = tuple((x, -c) for x, c in form)
        rows[neg] = (not strict) or rows.get(neg, False)
        v = infeasible(rows)
        _cache[key] = v
    return v
