"""Value-graph analysis of optimised LLVM IR.

A probe function (a few lines of C++ that call the library's public API, compiled together with the
library's headers and fully inlined/unrolled by the compiler) is turned into a decision table:

 * float values live in the abstract domain of rational functions over the probe's symbolic inputs,
   represented by their residues at random points of two prime fields (random interpretation,
   Gulwani & Necula 2003/2004): equal functions always get equal residues, different ones differ
   except with probability ~ degree / 2^61;
 * integers and pointers are polynomials over opaque atoms (sizes, addresses, quotients);
 * every comparison that the ordering facts do not decide becomes an atom; the table has one row per
   consistent truth assignment of the atoms met (a finite set of orderings), each row holding the
   function's result, stores and exceptional outcome.

Nothing is executed and no solver is involved: rows are produced by propagating abstract values over
the (acyclic or constant-trip-count) control-flow graph.
"""
import hashlib
import cone
from fractions import Fraction

P1 = (1 << 61) - 1
P2 = (1 << 89) - 1
PS = (P1, P2)
SEED = b'verif-1'


class Undecided(Exception):
    """The analysis does not understand something; says nothing about the property."""


def _h(s, p):
    return int.from_bytes(hashlib.sha256(SEED + s.encode()).digest(), 'big') % p


_hc = {}


def hres(s):
    v = _hc.get(s)
    if v is None:
        v = (_h('a' + s, P1), _h('b' + s, P2))
        _hc[s] = v
    return v


# ---------------------------------------------------------------- integers
class Poly:
    """Polynomial with integer coefficients over atoms (strings); never constant."""
    __slots__ = ('t', '_k')

    def __init__(s, t):
        s.t = t
        s._k = None

    def key(s):
        if s._k is None:
            s._k = '(' + '+'.join('%d%s' % (c, ''.join('*' + a for a in m)) for m, c in sorted(s.t.items())) + ')'
        return s._k

    def __repr__(s): return s.key()

    def __eq__(s, o): return isinstance(o, Poly) and s.key() == o.key()

    def __hash__(s): return hash(s.key())


def norm64(c):
    c &= (1 << 64) - 1
    return c - (1 << 64) if c >> 63 else c


def mk(t):
    t = {m: norm64(c) for m, c in t.items()}
    t = {m: c for m, c in t.items() if c}
    if not t: return 0
    if len(t) == 1 and () in t: return t[()]
    return Poly(t)


def terms(a):
    if isinstance(a, int): return {(): a} if a else {}
    return a.t


def iadd(a, b, kb=1):
    if isinstance(a, int) and isinstance(b, int): return norm64(a + kb * b)
    t = dict(terms(a))
    for m, c in terms(b).items(): t[m] = t.get(m, 0) + kb * c
    return mk(t)


def isub(a, b): return iadd(a, b, -1)


def imul(a, b):
    if isinstance(a, int) and isinstance(b, int): return norm64(a * b)
    t = {}
    for m, c in terms(a).items():
        for n, d in terms(b).items():
            k = tuple(sorted(m + n))
            t[k] = t.get(k, 0) + c * d
    return mk(t)


def ikey(a): return str(a) if isinstance(a, int) else a.key()


ATOM = {}  # atom name -> info


def iatom(name, **info):
    if name not in ATOM: ATOM[name] = info
    return Poly({(name,): 1})


def ires(a):
    if isinstance(a, int): return (a % P1, a % P2)
    r = [0, 0]
    for m, c in a.t.items():
        v = [c, c]
        for x in m:
            h = hres('int:' + x)
            v[0] = v[0] * h[0] % P1
            v[1] = v[1] * h[1] % P2
        r[0] += v[0]
        r[1] += v[1]
    return (r[0] % P1, r[1] % P2)


# ---------------------------------------------------------------- floats
class Fl:
    __slots__ = ('r', 'c', 'lin', 'd', 'q')

    def __init__(s, r, c=None, lin=None, d=None, q=None):
        s.q = q      # (numerator, denominator) linear forms, for quotients of linear forms
        s.r = r      # residues
        s.c = c      # exact Fraction if constant
        s.lin = lin  # linear form {atom: Fraction} ('' = constant part) if known
        s.d = d      # description

    def __repr__(s): return s.d if s.d else (str(s.c) if s.c is not None else 'F%x' % (s.r[0] & 0xffffff))

    def __eq__(s, o): return isinstance(o, Fl) and s.r == o.r

    def __hash__(s): return hash(s.r)


def fconst(c):
    c = Fraction(c)
    r = (c.numerator * pow(c.denominator, -1, P1) % P1, c.numerator * pow(c.denominator, -1, P2) % P2)
    return Fl(r, c, {'': c} if c else {})


def fsym(name):
    return Fl(hres('f:' + name), None, {name: Fraction(1)}, name)


class _Undef:
    def __repr__(s): return 'UNDEF'


UNDEF = _Undef()


def lincomb(a, b, k):
    if a is None or b is None: return None
    t = dict(a)
    for x, c in b.items():
        v = t.get(x, 0) + k * c
        if v: t[x] = v
        else: t.pop(x, None)
    return t


def qof(a, den=None):
    """a as a quotient of linear forms with denominator den"""
    if a.q is not None: return a.q if den is None or a.q[1] == den else None
    if a.c is not None and den is not None: return ({x: v * a.c for x, v in den.items()} if a.c else {}, den)
    return None


def fadd(a, b, k=1):
    if a.c is not None and b.c is not None: return fconst(a.c + k * b.c)
    if b.c is not None and b.c == 0: return a
    if a.c is not None and a.c == 0 and k == 1: return b
    lin = lincomb(a.lin, b.lin, k)
    if lin is not None and (not lin or set(lin) == {''}): return fconst(lin.get('', 0))
    d = None
    if a.d and b.d and len(a.d) + len(b.d) < 120: d = '(%r%s%r)' % (a, '+' if k > 0 else '-', b)
    q = None
    if a.q is not None or b.q is not None:
        den = (a.q or b.q)[1]
        x, y = qof(a, den), qof(b, den)
        if x is not None and y is not None:
            q = (lincomb(x[0], y[0], k), den)
            if not q[0]: return fconst(0)
    return Fl(((a.r[0] + k * b.r[0]) % P1, (a.r[1] + k * b.r[1]) % P2), None, lin, d, q)


def fmul(a, b):
    if a.c is not None and b.c is not None: return fconst(a.c * b.c)
    if b.c is not None: a, b = b, a
    lin = q = None
    for u, v in ((a, b), (b, a)):
        # (rounded quotient) * its denominator: a linear symbol of its own
        if u.lin is not None and len(u.lin) == 1 and v.lin is not None and v.c is None:
            (x, c), = u.lin.items()
            if x in ROUND and ROUND[x][1].q is not None:
                den = ROUND[x][1].q[1]
                y = next(iter(den))
                k = v.lin.get(y, 0) / den[y]
                if k and {z: k * e for z, e in den.items()} == v.lin: lin = {'R*' + x: c * k}
    if a.c is not None:
        if a.c == 0: return fconst(0)
        if a.c == 1: return b
        if b.lin is not None: lin = {x: a.c * v for x, v in b.lin.items()}
        if b.q is not None: q = ({x: a.c * v for x, v in b.q[0].items()}, b.q[1])
    return Fl((a.r[0] * b.r[0] % P1, a.r[1] * b.r[1] % P2), None, lin, None, q)


def fdiv(a, b):
    if b.c is not None:
        if b.c == 0: return UNDEF
        return fmul(a, fconst(1 / b.c))
    if b.r[0] == 0 or b.r[1] == 0: return UNDEF
    if a.c is not None and a.c == 0: return a
    r = (a.r[0] * pow(b.r[0], -1, P1) % P1, a.r[1] * pow(b.r[1], -1, P2) % P2)
    if a.r == b.r: return fconst(1)
    q = None
    if a.lin is not None and b.lin is not None: q = (a.lin, b.lin)
    return Fl(r, None, None, None, q)


def ffun(name, *args):
    """uninterpreted function of values"""
    k = name + '(' + ','.join(vkey(a) for a in args) + ')'
    return Fl(hres('fn:' + k), None, {k: Fraction(1)}, '%s(%s)' % (name, ','.join(map(repr, args))) if len(k) < 4000 else name + '(..)')


def vkey(v):
    if isinstance(v, Fl): return 'F%x.%x' % v.r
    if isinstance(v, (int, Poly)): return 'I' + ikey(v)
    if isinstance(v, bool): return 'B%d' % v
    if isinstance(v, (list, tuple)): return '[' + ','.join(vkey(x) for x in v) + ']'
    if v is UNDEF: return 'U'
    return repr(v)


# ---------------------------------------------------------------- memory objects
class Obj:
    """A memory object with known identity: an append-only sequence of writes."""
    __slots__ = ('name', 'size', 'layers', 'kind', 'slots', 'big')

    def __init__(s, name, size, kind):
        s.name = name
        s.size = size
        s.kind = kind
        s.layers = []
        s.slots = {}   # 8-byte slot -> indices of the stores touching it
        s.big = []     # indices of fills and copies

    def clone(s):
        o = Obj(s.name, s.size, s.kind)
        o.layers = list(s.layers)
        o.slots = {k: list(v) for k, v in s.slots.items()}
        o.big = list(s.big)
        return o

    def store(s, off, size, val):
        i = len(s.layers)
        s.layers.append(('st', off, size, val))
        for k in range(off >> 3, ((off + size - 1) >> 3) + 1): s.slots.setdefault(k, []).append(i)

    def fill(s, off, n, byte):
        s.big.append(len(s.layers))
        s.layers.append(('fill', off, n, byte))

    def copy(s, off, n, src):
        s.big.append(len(s.layers))
        s.layers.append(('cp', off, n, src))

    def _cand(s, off, size, n):
        """indices (descending) of layers overlapping [off, off+size)"""
        c = set()
        for k in range(off >> 3, ((off + size - 1) >> 3) + 1):
            for i in reversed(s.slots.get(k, ())):
                if i < n:
                    c.add(i)
                    L = s.layers[i]
                    if L[1] <= off and L[1] + L[2] >= off + size: break
        for i in reversed(s.big):
            if i < n:
                L = s.layers[i]
                if L[1] < off + size and off < L[1] + L[2]: c.add(i)
        return sorted(c, reverse=True)

    def load(s, off, size, ty, ev, upto=None):
        n = len(s.layers) if upto is None else upto
        for i in s._cand(off, size, n):
            L = s.layers[i]
            o, ln = L[1], L[2]
            if o + ln <= off or off + size <= o: continue
            if L[0] == 'st':
                if o == off and ln == size: return L[3]
                if o <= off and off + size <= o + ln:
                    v = L[3]
                    if isinstance(v, int):
                        return norm(v >> (8 * (off - o)), 8 * size)
                    if isinstance(v, (list, tuple)) and v and ln % len(v) == 0:
                        e = ln // len(v)
                        if size == e and (off - o) % e == 0: return v[(off - o) // e]
                if off <= o and o + ln <= off + size and size > ln:
                    # wide load assembled from pieces
                    parts = []
                    for k in range(0, size, ln):
                        parts.append(s.load(off + k, ln, ty, ev, upto))
                    if all(isinstance(x, int) for x in parts):
                        r = 0
                        for k, x in enumerate(parts): r |= (x & ((1 << (8 * ln)) - 1)) << (8 * ln * k)
                        return norm(r, 8 * size)
                    return tuple(parts)
                raise Undecided('overlapping access to %s+%d' % (s.name, off))
            if o <= off and off + size <= o + ln:
                if L[0] == 'fill':
                    if L[3] == 0: return 0 if not isf(ty) else fconst(0)
                    if isinstance(L[3], int) and not isf(ty): return norm(int.from_bytes(bytes([L[3] & 255]) * size, 'little'), 8 * size)
                    return UNDEF
                return L[3](off - o, size, ty, ev)
            raise Undecided('partial overlap on %s' % s.name)
        return UNDEF


def norm(v, bits):
    v &= (1 << bits) - 1
    return v - (1 << bits) if bits > 1 and v >> (bits - 1) else v


def isf(ty): return ty in ('double', 'float', 'x86_fp80')


_memo_fc = {}


def fhex(h):
    v = _memo_fc.get(h)
    if v is None:
        try: f = float.fromhex(h)
        except ValueError: raise Exception('fhex %r' % h)
        if f != f or f in (float('inf'), float('-inf')): f = None
        v = fconst(Fraction(f)) if f is not None else Fl(hres('const:' + h), None, None, h)
        _memo_fc[h] = v
    return v


class Throw(Exception):
    def __init__(s, ty, loc=None):
        s.ty = ty
        s.loc = loc


class Terminate(Throw):
    pass


class Row:
    """One line of the decision table."""
    def __init__(s):
        s.atoms = []        # [(atom description, bool)]
        s.outcome = None    # 'ret' | 'throw' | 'undecided' | 'unreachable'
        s.ret = None
        s.thrown = None
        s.why = None
        s.ev = None
        s.loc = None

    def cond(s): return ' & '.join(('' if v else '!') + a for a, v in s.atoms) or 'always'


class Module:
    def __init__(s, lines):
        import json
        s.funcs = {}
        s.globals = {}
        for l in lines:
            if not l.strip(): continue
            d = json.loads(l)
            if 'global' in d: s.globals[d['global']] = d
            else: s.funcs[d['name']] = d


class Analysis:
    """Builds the decision table of one probe function.

    facts: list of float linear forms known to be > 0 or >= 0:  (lin, strict)
    init:  function(addr Poly, size, ty) -> value or None; contents of caller memory
    """
    def __init__(s, mod, fname, args, facts=(), init=None, hooks=None, intfacts=(), assume=None, max_rows=20000,
                 max_steps=4000000, inline=(), ubounds=None, pre=None, opts=None):
        s.pre = pre
        s.opts = opts or {}     # unwind: follow exceptions through landing pads; globals: track mutable globals; log: memory observer
        s.mod = mod
        s.f = mod.funcs[fname]
        s.args = args
        s.facts = [(cone.normal(f) if isinstance(f, dict) else f, st) for f, st in facts]
        s.intfacts = list(intfacts)
        s.init = init
        s.hooks = hooks or {}
        s.assume = assume or {}
        s.max_rows = max_rows
        s.max_steps = max_steps
        s.inline = inline
        s.ubounds = ubounds or {}
        s.total_steps = 0

    def rows(s):
        stack = [[]]
        out = []
        while stack:
            pre = stack.pop()
            ev = Eval(s, pre)
            row = ev.run()
            s.total_steps += ev.steps
            out.append(row)
            # alternatives for atoms decided beyond the prefix
            for i in range(len(pre), len(ev.trace)):
                a, v, alts = ev.trace[i]
                base = [(x[0], x[1]) for x in ev.trace[:i]]
                for alt in alts:
                    stack.append(base + [(a, alt)])
            if len(out) > s.max_rows: raise Undecided('more than %d rows' % s.max_rows)
        return out


class Eval:
    def __init__(s, an, prefix):
        s.an = an
        s.prefix = prefix
        s.trace = []          # [(atom key, value, untried alternatives)]
        s.known = {}
        s.desc = {}
        s.ffacts = list(an.facts)   # (lin, strict): lin > 0 / >= 0
        s.ifacts = list(an.intfacts)  # Poly >= 0
        s.objs = {}
        s.ext = []            # stores to caller memory [(addr, size, val, loc)]
        s.extcopy = []
        s.steps = 0
        s.heapn = 0
        s.events = []
        s.loc = None
        s.bounds = {}         # int atom -> (lo, hi) polys
        s.freed = set()
        s.frames = 0
        s.shared = set()      # objects inherited from an earlier analysis, copied before the first write
        p = an.pre
        if p is not None:
            s.objs = dict(p.objs)
            s.shared = set(p.objs)
            s.heapn = p.heapn
            s.freed = set(p.freed)
            s.bounds = dict(p.bounds)
            s.known = dict(p.known)
            s.desc = dict(p.desc)
            s.ffacts = list(an.facts) + [f for f in p.ffacts if f not in an.facts]
            s.ifacts = list(an.intfacts) + [f for f in p.ifacts if f not in an.intfacts]
            s.ext = list(p.ext)
        s.fmods = set(getattr(p, 'fmods', ()))
        s.fm = dict(getattr(p, 'fm', {}))
        s.rd = dict(getattr(p, 'rd', {}))
        s.next0 = len(s.ext)
        s.guard = 0
        s.unwind, s.globs, s.log = an.opts.get('unwind'), an.opts.get('globals'), an.opts.get('log')
        s.excs, s.caught, s.ended = {}, [], set()

    def wobj(s, b):
        """the object for writing"""
        o = s.objs.get(b)
        if o is not None and b in s.shared:
            o = o.clone()
            s.objs[b] = o
            s.shared.discard(b)
        return o

    # ---- atoms
    def choose(s, key, desc, options=(True, False)):
        if key in s.known: return s.known[key]
        i = len(s.trace)
        if i < len(s.prefix):
            k, v = s.prefix[i]
            if k != key: raise Undecided('non-deterministic atom order')
            s.trace.append((key, v, []))
        else:
            if key in s.an.assume:
                v = s.an.assume[key]
                s.known[key] = v
                return v
            v = options[0]
            s.trace.append((key, v, list(options[1:])))
        s.known[key] = v
        s.desc[key] = desc
        return v

    # ---- float ordering
    def fless(s, a, b):
        """a < b"""
        if a is UNDEF or b is UNDEF: raise Undecided('comparison of undefined value')
        if a.c is not None and b.c is not None: return a.c < b.c
        if a.r == b.r: return False
        d = s.signform(b, a)  # b - a > 0 ?
        if d is not None:
            q = s.lpos(d)
            if q is not None: return q
        key = 'flt:%s<%s' % (vkey(a), vkey(b))
        key2 = 'flt:%s<%s' % (vkey(b), vkey(a))
        if s.known.get(key2) is True: return False
        v = s.choose(key, '%r < %r' % (a, b))
        if d is not None:
            if v: s.push(d, True)
            else: s.push({x: -c for x, c in d.items()}, False)
        return v

    def signform(s, b, a):
        """a linear form with the sign of b - a, or None"""
        d = lincomb(b.lin, a.lin, -1)
        if d is not None: return d
        if a.q is not None or b.q is not None:
            den = (a.q or b.q)[1]
            x, y = qof(a, den), qof(b, den)
            if x is None or y is None: return None
            n = lincomb(y[0], x[0], -1)
            sg = s.lpos(den)
            if sg is True: return n
            if s.lpos({k: -v for k, v in den.items()}) is True: return {k: -v for k, v in n.items()}
        return None

    def addfact(s, b, a, strict):
        """record b > a (>= if not strict); False if it contradicts what is known"""
        d = s.signform(b, a)
        if d is None: return True
        if not d: return not strict
        q = s.lpos(d) if strict else None
        if strict and q is False: return False
        if not strict and s.lpos({x: -c for x, c in d.items()}) is True: return False
        s.push(d, strict)
        return True

    def consistent(s, b, a, strict):
        n = len(s.ffacts)
        ok = s.addfact(b, a, strict)
        del s.ffacts[n:]
        return ok

    def entails(s, b, a, strict):
        d = s.signform(b, a)
        if d is None: return False
        if not d: return not strict
        if set(d) == {''}: return d[''] > 0 or (d[''] == 0 and not strict)
        return cone.positive(s.ffacts, cone.normal(d), strict)

    def feq(s, a, b):
        if a.c is not None and b.c is not None: return a.c == b.c
        if a.r == b.r: return True
        if s.fless(a, b): return False
        if s.fless(b, a): return False
        return True

    def push(s, d, strict):
        n = cone.normal(d)
        if not cone.positive(s.ffacts, n, strict): s.ffacts.append((n, strict))

    def lpos(s, d):
        """decide d > 0 from the facts: True / False / None"""
        if not d: return False
        if set(d) == {''}: return d[''] > 0
        n = cone.normal(d)
        F = s.ffacts
        if cone.positive(F, n, True): return True
        if cone.positive(F, tuple((x, -c) for x, c in n), False): return False
        return None

    # ---- integer ordering
    def lo(s, p, depth=6):
        """a constant lower bound of p, or None"""
        if isinstance(p, int): return p
        tot = 0
        for m, c in p.t.items():
            if m == (): tot += c; continue
            l = h = None
            if c > 0:
                l = s.mlo(m, depth)
                if l is None: return None
                tot += c * l
            else:
                h = s.mhi(m, depth)
                if h is None: return None
                tot += c * h
        return tot

    def mlo(s, m, depth):
        v = 1
        for a in m:
            b = s.bounds.get(a) or ATOM.get(a, {}).get('b')
            l = b[0] if b else (0 if not a.startswith('&') else None)
            if l is None: return None
            if not isinstance(l, int):
                l = s.lo(l, depth - 1) if depth else None
                if l is None: return None
            if l < 0: return None
            v *= l
        return v

    def mhi(s, m, depth):
        v = 1
        for a in m:
            b = s.bounds.get(a) or ATOM.get(a, {}).get('b')
            if not b or b[1] is None: return None
            h = b[1]
            if not isinstance(h, int):
                h = -s.lo(imul(h, -1), depth - 1) if depth and s.lo(imul(h, -1), depth - 1) is not None else None
                if h is None: return None
            v *= h
        return v

    def ige0(s, p, depth=3):
        """is p >= 0 implied?"""
        l = s.lo(p)
        if l is not None and l >= 0: return True
        if depth == 0: return False
        # replace atoms by symbolic bounds
        if isinstance(p, Poly):
            for m, c in p.t.items():
                if len(m) == 1:
                    b = s.bounds.get(m[0]) or ATOM.get(m[0], {}).get('b')
                    if b:
                        q = b[0] if c > 0 else b[1]
                        if isinstance(q, Poly):
                            t = dict(p.t)
                            del t[m]
                            if s.ige0(iadd(mk(t), imul(q, c)), depth - 1): return True
            for f in s.ifacts:
                if isinstance(f, Poly) and any(m in f.t and f.t[m] * c > 0 for m, c in p.t.items() if m):
                    q = isub(p, f)
                    if s.ige0(q, depth - 1): return True
        return False

    def iless(s, a, b):
        if a is UNDEF or b is UNDEF: raise Undecided('comparison of undefined integer')
        if isinstance(a, Fl) or isinstance(b, Fl): raise Undecided('integer comparison of float bits')
        if isinstance(a, int) and isinstance(b, int): return a < b
        d = isub(b, a)  # > 0 ?
        if isinstance(d, int): return d > 0
        if s.ige0(isub(d, 1)): return True
        if s.ige0(imul(d, -1)): return False
        if s.cmpblock(a, b): raise Undecided('ordering of unrelated pointers')
        v = s.choose('ilt:' + ikey(d), '%s < %s' % (ikey(a), ikey(b)))
        s.ifacts.append(isub(d, 1) if v else imul(d, -1))
        return v

    def cmpblock(s, a, b): return False

    def ieq(s, a, b):
        if a is UNDEF or b is UNDEF: raise Undecided('comparison of undefined integer')
        if isinstance(a, Fl) or isinstance(b, Fl): raise Undecided('integer comparison of float bits')
        if isinstance(a, tuple) or isinstance(b, tuple): raise Undecided('comparison of aggregate')
        d = isub(a, b)
        if isinstance(d, int): return d == 0
        bases = [m[0] for m in d.t if len(m) == 1 and m[0].startswith('&')]
        if bases: 
            # pointers into different objects / null
            return False
        if s.ige0(isub(d, 1)) or s.ige0(isub(imul(d, -1), 1)): return False
        dm = imul(d, -1)
        k = min(ikey(d), ikey(dm))
        v = s.choose('ieq:' + k, '%s == %s' % (ikey(a), ikey(b)))
        if v: s.ifacts += [d, dm]
        return v

    # ---- memory
    def base(s, p):
        """(base atom, offset) of an address"""
        if isinstance(p, int):
            return (None, p)
        bs = [m for m, c in p.t.items() if len(m) == 1 and m[0].startswith('&') and c == 1]
        if len(bs) != 1: raise Undecided('address without a unique base: %s' % ikey(p))
        t = dict(p.t)
        del t[bs[0]]
        return (bs[0][0], mk(t))

    def newobj(s, name, size, kind):
        n = '&' + name
        s.objs[n] = Obj(n, size, kind)
        return iatom(n)

    def load(s, p, size, ty):
        if p is UNDEF: raise Undecided('load through undefined pointer')
        if ty.startswith('{') : raise Undecided('aggregate load')
        b, off = s.base(p)
        if b is None:
            if isinstance(p, int) and 0 <= p < 4096: s.events.append(('null-access', 'load', s.loc))
            raise Undecided('load from null')
        o = s.objs.get(b)
        if o is None and b.startswith('&g:'):
            o = s.globobj(b)
        if s.log is not None: s.log(s, 'r', b, off, size)
        if o is not None:
            if b in s.ended: s.events.append(('use-after-scope', b, s.loc))
            if b in s.freed: s.events.append(('use-after-free', b, s.loc))
            if not isinstance(off, int):
                off = s.concretise(off, o, size)
            if o.size is not None and (off < 0 or off + size > o.size):
                s.events.append(('oob-read', '%s+%d of %s' % (b, off, o.size), s.loc))
                return UNDEF
            v = o.load(off, size, ty, s)
            return s.coerce(v, ty, size)
        # caller memory
        pk = ikey(p)
        for (q, qs, v, _) in reversed(s.ext):
            if ikey(q) == pk and qs == size: return v
            d = isub(p, q)
            if isinstance(d, int):
                if d + size <= 0 or d >= qs: continue
                raise Undecided('partial overlap in caller memory')
            qb, _o = s.base(q)
            if qb == b: raise Undecided('possibly aliasing access to caller memory')
        if b.startswith('&g:_ZGV'): return 0   # guard of a function-local static: first use in this history
        if s.an.init:
            v = s.an.init(p, size, ty)
            if v is not None: return v
        if isf(ty): return fsym('[' + pk + ']')
        if ty == 'ptr': return iatom('&[' + pk + ']')
        return iatom('[%s]:%d' % (pk, size))

    def globobj(s, b):
        g = s.an.mod.globals.get(b[3:])
        if not g or not g.get('const') and not (s.globs and 'init' in g and not g.get('tls')): return None
        o = Obj(b, g['size'], 'global')

        def put(off, v, esz):
            if 'agg' in v:
                for i, x in enumerate(v['agg']): put(off + i * esz, x, esz)
            elif 'f' in v: o.store(off, esz or 8, fhex(v['f']))
            elif 'c' in v: o.store(off, v['w'] // 8 or 1, int(v['c']))
            elif 'zero' in v: o.fill(off, g['size'], 0)
        put(0, g['init'], g.get('esz') or 0)
        s.objs[b] = o
        return o

    def concretise(s, off, o, size):
        """a symbolic offset into a tracked object: split over the finite set of values its bounds allow"""
        t = {m: c for m, c in terms(off).items() if m}
        if len(t) == 1:
            (m, c), = t.items()
            if len(m) == 1:
                v = s.split(m[0])
                return iadd(terms(off).get((), 0), c * v)
        # several atoms: split each
        r = terms(off).get((), 0)
        for m, c in t.items():
            p = c
            for a in m: p *= s.split(a)
            r += p
        return r

    def split(s, a):
        k = 'val:' + a
        if k in s.known: return s.known[k]
        b = s.bounds.get(a) or ATOM.get(a, {}).get('b')
        if not b: b = (0, None)
        lo = b[0] if isinstance(b[0], int) or b[0] is None else s.lo(b[0])
        hi = b[1] if isinstance(b[1], int) or b[1] is None else s.mhi((a,), 6)
        A = Poly({(a,): 1})
        if lo is None or not s.ige0(isub(A, lo)): lo = next((k for k in range(0, 65) if s.ige0(isub(A, 64 - k))), lo)
        else:
            lo = next((lo + 64 - k for k in range(0, 64) if s.ige0(isub(A, lo + 64 - k))), lo)
        if lo is not None:
            h2 = next((lo + k for k in range(0, 65) if s.ige0(isub(lo + k, A))), None)
            if h2 is not None and (hi is None or h2 < hi): hi = h2
        if lo is None or hi is None or hi - lo > 64: raise Undecided('symbolic offset %s' % a)
        opts = range(lo, hi + 1)
        fe = ATOM.get(a, {}).get('feasible')
        if fe: opts = [o for o in opts if fe(s, o)]
        if not opts: raise Unreachable()
        v = s.choose(k, a + '==?', tuple(opts))
        s.bounds[a] = (v, v)
        cb = ATOM.get(a, {}).get('onsplit')
        if cb: cb(s, v)
        return v

    def coerce(s, v, ty, size):
        if isf(ty):
            if isinstance(v, int):
                if v == 0: return fconst(0)
                import struct
                if size == 8: return fconst(Fraction(struct.unpack('<d', struct.pack('<q', v))[0]))
                if size == 4: return fconst(Fraction(struct.unpack('<f', struct.pack('<i', norm(v, 32)))[0]))
            if isinstance(v, Poly): raise Undecided('float load of integer bits')
            return v
        if isinstance(v, Fl):
            if v.c == 0: return 0
            return v  # bits of a float carried through integer copies
        return v

    def store(s, p, size, v):
        if p is UNDEF: raise Undecided('store through undefined pointer')
        b, off = s.base(p)
        if b is None:
            if isinstance(p, int) and 0 <= p < 4096: s.events.append(('null-access', 'store', s.loc))
            raise Undecided('store to null')
        o = s.wobj(b)
        if o is None and s.globs and b.startswith('&g:'): o = s.globobj(b)
        if s.log is not None: s.log(s, 'w', b, off, size)
        if o is not None:
            if b in s.ended: s.events.append(('use-after-scope', b, s.loc))
            if b in s.freed: s.events.append(('use-after-free', b, s.loc))
            if not isinstance(off, int): off = s.concretise(off, o, size)
            if o.size is not None and (off < 0 or off + size > o.size):
                s.events.append(('oob-write', '%s+%d of %s' % (b, off, o.size), s.loc))
                return
            o.store(off, size, v)
            return
        s.ext.append((p, size, v, s.loc))
        if not s.guard and not b.startswith('&g:_ZGV'): s.events.append(('ext-write', b, s.loc))

    def memcpy(s, dst, src, n):
        if isinstance(n, Poly):
            raise Undecided('copy of symbolic length')
        if n == 0: return
        db, do = s.base(dst)
        sb, so = s.base(src)
        D = s.wobj(db)
        if s.log is not None:
            s.log(s, 'r', sb, so, n)
            s.log(s, 'w', db, do, n)
        S = s.objs.get(sb) or (s.globobj(sb) if sb and sb.startswith('&g:') else None)
        if S is not None:
            if not isinstance(so, int): so = s.concretise(so, S, n)
            if S.size is not None and (so < 0 or so + n > S.size):
                s.events.append(('oob-read', '%s+%d..%d of %s' % (sb, so, so + n, S.size), s.loc))
                return
            k = len(S.layers)
            fn = lambda o, sz, ty, ev, S=S, so=so, k=k: S.load(so + o, sz, ty, ev, k)
        else:
            snap = list(s.ext)

            def fn(o, sz, ty, ev, src=src):
                return ev.load(iadd(src, o), sz, ty)
        if D is not None:
            if not isinstance(do, int): do = s.concretise(do, D, n)
            if D.size is not None and (do < 0 or do + n > D.size):
                s.events.append(('oob-write', '%s+%d..%d of %s' % (db, do, do + n, D.size), s.loc))
                return
            D.copy(do, n, fn)
        else:
            if S is None: 
                s.extcopy.append((dst, src, n))
                raise Undecided('copy between caller objects')
            # materialise in words
            for k in range(0, n, 8):
                s.ext.append((iadd(dst, k), min(8, n - k), S.load(so + k, min(8, n - k), 'i64', s), s.loc))
            if not s.guard: s.events.append(('ext-write', db, s.loc))

    # ---- operands
    def val(s, o, fr):
        if 'v' in o: 
            try: return fr[o['v']]
            except KeyError: raise Undecided('use of unavailable value')
        if 'c' in o:
            return int(o['c']) if o['w'] > 1 else (int(o['c']) & 1)
        if 'f' in o: return fhex(o['f'])
        if 'null' in o: return 0
        if 'undef' in o: return UNDEF
        if 'g' in o: return iatom('&g:' + o['g'])
        if 'zero' in o: return ('zero',)
        if 'ce' in o:
            c = o['ce']
            if c['op'] == 'gep': return s.gep(c, fr)
            if c['op'] in ('bitcast', 'addrspacecast', 'ptrtoint', 'inttoptr'): return s.val(c['ops'][0], fr)
        if 'agg' in o: return tuple(s.val(x, fr) for x in o['agg'])
        raise Undecided('operand %r' % o)

    def gep(s, I, fr):
        p = s.val(I['base'], fr)
        if p is UNDEF: return UNDEF
        r = iadd(p, I['off'])
        for v, sc in I['vars']:
            x = s.val(v, fr)
            if x is UNDEF: return UNDEF
            if isinstance(x, Fl): raise Undecided('float used as index')
            r = iadd(r, imul(x, sc))
        return r

    # ---- run
    def run(s):
        row = Row()
        row.ev = s
        try:
            row.ret = s.call(s.an.f, s.an.args)
            row.outcome = 'ret'
        except Throw as t:
            row.outcome = 'throw'
            row.thrown = t.ty
            row.loc = t.loc
        except Undecided as u:
            row.outcome = 'undecided'
            row.why = str(u)
            row.loc = s.loc
        except Unreachable:
            row.outcome = 'unreachable'
            row.loc = s.loc
        row.atoms = [(s.desc.get(k, k), v) if isinstance(v, bool) else ('%s=%s' % (k, v), True) for k, v, _ in s.trace]
        return row

    def call(s, f, args):
        at = [0]
        try: return s.call_(f, args, at)
        except Undecided:
            t = mustthrow(f, at[0])
            if t is None: raise
            raise Throw(t, s.loc)

    def call_(s, f, args, at):
        s.frames += 1
        fid = s.frames
        if len(f['params']) != len(args): raise Undecided('argument count of %s' % f['name'])
        fr = {p['id']: a for p, a in zip(f['params'], args)}
        b, prev = 0, None
        blocks = f['blocks']
        allocas = []
        while True:
            ins = blocks[b]
            at[0] = b
            # phis simultaneously
            i = 0
            new = {}
            while i < len(ins) and ins[i]['op'] == 'phi':
                I = ins[i]
                for v, pb in I['in']:
                    if pb == prev:
                        new[I['id']] = s.val(v, fr)
                        break
                else: raise Undecided('phi without incoming edge')
                i += 1
            fr.update(new)
            nb = None
            for I in ins[i:]:
                s.steps += 1
                if s.steps > s.an.max_steps: raise Undecided('too many steps')
                if 'loc' in I: s.loc = I['loc']
                op = I['op']
                h = OPS.get(op)
                if h is not None:
                    fr[I['id']] = h(s, I, fr)
                elif op == 'alloca':
                    s.heapn += 1
                    fr[I['id']] = s.newobj('a%d' % s.heapn, I['size'] if I['size'] >= 0 else None, 'alloca')
                elif op == 'br':
                    if 'cond' in I:
                        c = s.val(I['cond'], fr)
                        c = s.truth(c)
                        nb = I['succ'][0] if c else I['succ'][1]
                    else: nb = I['succ'][0]
                elif op == 'switch':
                    c = s.val(I['cond'], fr)
                    nb = I['default']
                    for cv, t in I['cases']:
                        if s.ieq(c, int(cv['c'])):
                            nb = t
                            break
                elif op == 'ret':
                    return s.val(I['ops'][0], fr) if I['ops'] else None
                elif op in ('call', 'invoke'):
                    try:
                        fr[I['id']] = s.docall(I, fr)
                    except Throw as t:
                        if op == 'invoke' and s.unwind and not isinstance(t, Terminate):
                            s.pad = t
                            nb = I['unwind']
                            continue
                        if op == 'invoke' and s.catches(blocks[I['unwind']]):
                            raise Undecided('exception handled inside')
                        raise
                    if op == 'invoke': nb = I['normal']
                elif op == 'unreachable':
                    raise Unreachable()
                elif op == 'resume':
                    if s.unwind:
                        v = s.val(I['ops'][0], fr)
                        raise s.excs[s.base(v[0])[0]]
                    raise Throw('?', s.loc)
                else:
                    raise Undecided('instruction %s' % op)
            if nb is None: raise Undecided('block without successor')
            prev, b = b, nb

    def catches(s, ins):
        for I in ins:
            if I['op'] == 'landingpad': return I['clauses'] > 0
        return False

    def truth(s, c):
        if isinstance(c, bool): return c
        if isinstance(c, int): return bool(c & 1)
        if c is UNDEF: raise Undecided('branch on undefined value')
        if isinstance(c, Poly): return not s.ieq(c, 0)
        raise Undecided('branch on %r' % (c,))

    def docall(s, I, fr):
        name = I.get('callee')
        if name is None:
            p = s.val(I['fptr'], fr)
            if isinstance(p, Poly):
                b, o = s.base(p)
                if b.startswith('&g:') and o == 0 and b[3:] in s.an.mod.funcs:
                    return s.call(s.an.mod.funcs[b[3:]], [s.val(a, fr) for a in I['args']])
            raise Undecided('indirect call')
        dem = I.get('dem', name)
        args = [s.val(a, fr) for a in I['args']]
        for pat, fn in s.an.hooks.items():
            if callable(pat):
                if pat(name, dem): return fn(s, I, args, dem)
            elif pat == name or (pat.endswith('*') and name.startswith(pat[:-1])) or (pat.startswith('~') and pat[1:] in dem):
                return fn(s, I, args, dem)
        for pre, fn in INTR:
            if name.startswith(pre): return fn(s, I, args)
        if is_ub(dem): return upper_bound(s, I, args, dem)
        if name in s.an.mod.funcs and not s.an.mod.funcs[name].get('cut'):
            if s.frames > 3000: raise Undecided('call depth')
            return s.call(s.an.mod.funcs[name], args)
        if I.get('readnone') and isf(I['ty']): return ffun(dem, *args)
        raise Undecided('call to %s' % dem[:120])


class Unreachable(Exception):
    pass


def mustthrow(f, b):
    """the exception type every path through block b ends in (how its message is put together is of no interest), or None"""
    cache = f.setdefault('mustthrow', {})
    if b in cache: return cache[b]
    seen, work, types, ok = {b}, [b], set(), True
    while work and ok:
        k = work.pop()
        for I in f['blocks'][k]:
            op, nm = I['op'], I.get('callee') or ''
            if op in ('call', 'invoke') and nm == '__cxa_throw':
                types.add(I['args'][1].get('g', '?'))
                break
            if op in ('call', 'invoke') and nm.startswith('_ZSt') and '__throw_' in nm: break
            if op in ('ret', 'resume'): ok = False
            nx = [I['normal']] if op == 'invoke' else I['succ'] if op == 'br' else [I['default']] + [t for _, t in I['cases']] if op == 'switch' else []
            for n in nx:
                if n not in seen:
                    seen.add(n)
                    work.append(n)
    cache[b] = types.pop() if ok and len(types) == 1 else None
    return cache[b]


# ---------------------------------------------------------------- instructions
def _bin(fn):
    def f(s, I, fr):
        a, b = s.val(I['ops'][0], fr), s.val(I['ops'][1], fr)
        if a is UNDEF or b is UNDEF: return UNDEF
        return fn(s, I, a, b)
    return f


def _width(I): 
    t = I['ty']
    return int(t[1:]) if t[0] == 'i' and t[1:].isdigit() else 64


def chkint(*v):
    for x in v:
        if not isinstance(x, (int, Poly)): raise Undecided('integer operation on %r' % (x,))


def _add(s, I, a, b):
    chkint(a, b)
    if isinstance(a, int) and isinstance(b, int): return norm(a + b, _width(I))
    return iadd(a, b)


def _sub(s, I, a, b):
    chkint(a, b)
    if isinstance(a, int) and isinstance(b, int): return norm(a - b, _width(I))
    return isub(a, b)


def _mul(s, I, a, b):
    chkint(a, b)
    if isinstance(a, int) and isinstance(b, int): return norm(a * b, _width(I))
    return imul(a, b)


def u(v, w): return v & ((1 << w) - 1)


def exactdiv(a, k):
    if k and isinstance(a, Poly) and all(c % k == 0 for c in a.t.values()): return mk({m: c // k for m, c in a.t.items()})
    return None


def divlike(name, signed, rem):
    def f(s, I, a, b):
        chkint(a, b)
        w = _width(I)
        if isinstance(b, int) and b == 0: s.events.append(('div-by-zero', name, s.loc)); return UNDEF
        if isinstance(a, int) and isinstance(b, int):
            x, y = (a, b) if signed else (u(a, w), u(b, w))
            q = abs(x) // abs(y)
            if (x < 0) != (y < 0): q = -q
            return norm(x - q * y if rem else q, w)
        if isinstance(b, int):
            q = exactdiv(a, b)
            if q is not None: return 0 if rem else q
        if isinstance(a, Poly) and isinstance(b, Poly):
            # exact monomial quotient
            q = polydiv(a, b)
            if q is not None: return 0 if rem else q
        if isinstance(a, Poly) and len(terms(b)) == 1:
            # a = Q*b + R with 0 <= R < b
            (mb, cb), = terms(b).items()
            Q, R = {}, {}
            for n, d in a.t.items():
                l = list(n)
                ok = d % cb == 0
                for x in mb:
                    if x in l: l.remove(x)
                    else: ok = False
                if ok: Q[tuple(l)] = d // cb
                else: R[n] = d
            if Q:
                Q, R = mk(Q), mk(R)
                if s.ige0(R) and s.ige0(isub(isub(b, R), 1)): return R if rem else Q
        if isinstance(b, int) and isinstance(a, Poly):
            # a finite case split makes quotients and remainders constants
            try:
                x = terms(a).get((), 0)
                for m, c in a.t.items():
                    if not m: continue
                    q = c
                    for at in m: q *= s.split(at)
                    x += q
                x, y = (x, b) if signed else (u(x, w), u(b, w))
                q = abs(x) // abs(y)
                if (x < 0) != (y < 0): q = -q
                return norm(x - q * y if rem else q, w)
            except Undecided: pass
        if rem:
            # a in [0,b)?
            if s.ige0(a) and s.ige0(isub(isub(b, a), 1)): return a
            return iatom('%s(%s,%s)' % (name, ikey(a), ikey(b)), b=(0, isub(b, 1)), kind=name, args=(a, b))
        return iatom('%s(%s,%s)' % (name, ikey(a), ikey(b)), b=(0, None), kind=name, args=(a, b))
    return f


def polydiv(a, b):
    if len(terms(b)) != 1: return None
    (m, c), = b.t.items()
    r = {}
    for n, d in a.t.items():
        n = list(n)
        for x in m:
            if x in n: n.remove(x)
            else: return None
        if d % c: return None
        r[tuple(n)] = d // c
    return mk(r)


def _shl(s, I, a, b):
    chkint(a, b)
    if isinstance(b, int):
        if isinstance(a, int): return norm(a << b, _width(I))
        return imul(a, 1 << b)
    raise Undecided('variable shift')


def _shr(name, signed):
    def f(s, I, a, b):
        chkint(a, b)
        if isinstance(b, int):
            w = _width(I)
            if isinstance(a, int): return norm((a if signed else u(a, w)) >> b, w)
            q = exactdiv(a, 1 << b)
            if q is not None: return q
            return iatom('%s(%s,%d)' % ('shr', ikey(a), b), b=(0, None), kind='shr', args=(a, b))
        raise Undecided('variable shift')
    return f


def _logic(name, fn):
    def f(s, I, fr):
        a, b = s.val(I['ops'][0], fr), s.val(I['ops'][1], fr)
        if I['ty'] == 'i1':
            if name == 'and':
                if a in (0, False) and not isinstance(a, Poly): return 0
                if b in (0, False) and not isinstance(b, Poly): return 0
            if name == 'or':
                if a in (1, True) and not isinstance(a, Poly): return 1
                if b in (1, True) and not isinstance(b, Poly): return 1
            if a is UNDEF or b is UNDEF: return UNDEF
            return int(fn(s.truth(a), s.truth(b)))
        if a is UNDEF or b is UNDEF: return UNDEF
        chkint(a, b)
        if isinstance(a, int) and isinstance(b, int): return norm(fn(a, b), _width(I))
        if isinstance(a, int): a, b = b, a
        if name == 'and' and isinstance(b, int):
            if b == 1: return iatom('and(%s,1)' % ikey(a), b=(0, 1), kind='and', args=(a, b))
            if b == 255 : return a
            if b < 0 and (-b & (-b - 1)) == 0:
                q = exactdiv(a, -b)
                if q is not None: return a
            return iatom('and(%s,%d)' % (ikey(a), b), b=(0, b if b >= 0 else None), kind='and', args=(a, b))
        if name == 'xor' and b == -1: return isub(-1, a)
        if name == 'or' and isinstance(b, int):
            # or with disjoint low bits
            if b >= 0:
                k = 1
                while k <= b: k <<= 1
                if exactdiv(a, k) is not None: return iadd(a, b)
        return iatom('%s(%s,%s)' % (name, ikey(a), ikey(b)), kind=name, args=(a, b))
    return f


def _fb(fn):
    def f(s, I, fr):
        a, b = s.val(I['ops'][0], fr), s.val(I['ops'][1], fr)
        if a is UNDEF or b is UNDEF: return UNDEF
        if not isinstance(a, Fl) or not isinstance(b, Fl): raise Undecided('float operation on %r %r' % (a, b))
        return fn(a, b)
    return f


def _icmp(s, I, fr):
    a, b = s.val(I['ops'][0], fr), s.val(I['ops'][1], fr)
    p = I['pred']
    if a is UNDEF or b is UNDEF: return UNDEF
    if isinstance(a, int) and isinstance(b, int):
        w = _width({'ty': I['oty']})
        if p[0] == 'u': a, b = u(a, w), u(b, w)
        return int({'eq': a == b, 'ne': a != b, 'lt': a < b, 'gt': a > b, 'le': a <= b, 'ge': a >= b}[p if p in ('eq', 'ne') else p[1:]])
    if I['oty'] == 'i1': a, b = int(s.truth(a)), int(s.truth(b))
    if p == 'eq': return int(s.ieq(a, b))
    if p == 'ne': return int(not s.ieq(a, b))
    # unsigned comparison with a huge constant: only "negative" (wrapped) values exceed it
    if p[0] == 'u':
        if isinstance(b, int) and b < 0: return int(p in ('ult', 'ule'))
        if isinstance(a, int) and a < 0: return int(p in ('ugt', 'uge'))
    if p[1:] == 'lt': return int(s.iless(a, b))
    if p[1:] == 'gt': return int(s.iless(b, a))
    if p[1:] == 'le': return int(not s.iless(b, a))
    return int(not s.iless(a, b))


def _fcmp(s, I, fr):
    a, b = s.val(I['ops'][0], fr), s.val(I['ops'][1], fr)
    p = I['pred']
    if p in ('ord',): return 1
    if p in ('uno',): return 0
    if p == 'true': return 1
    if p == 'false': return 0
    if a is UNDEF or b is UNDEF: return UNDEF
    q = p[1:]
    if q == 'eq': return int(s.feq(a, b))
    if q == 'ne': return int(not s.feq(a, b))
    if q == 'lt': return int(s.fless(a, b))
    if q == 'gt': return int(s.fless(b, a))
    if q == 'le': return int(not s.fless(b, a))
    return int(not s.fless(a, b))


def _select(s, I, fr):
    c = s.val(I['ops'][0], fr)
    if c is UNDEF: return UNDEF
    return s.val(I['ops'][1] if s.truth(c) else I['ops'][2], fr)


def _cast(s, I, fr):
    v = s.val(I['ops'][0], fr)
    op = I['op']
    if v is UNDEF: return UNDEF
    if op in ('zext', 'sext', 'trunc'):
        if isinstance(v, Fl): raise Undecided('%s of float bits' % op)
        if I['oty'] == 'i1':
            t = int(s.truth(v))
            return -t if op == 'sext' else t
        w = _width({'ty': I['oty']})
        if isinstance(v, int):
            if op == 'zext': return u(v, w)
            return norm(v, _width(I)) if _width(I) > 1 else v & 1
        if I['ty'] == 'i1': return int(not s.ieq(v, 0)) if op == 'trunc' and w == 8 else iatom('and(%s,1)' % ikey(v), b=(0, 1))
        return v
    if op == 'fptrunc' and I['ty'] in ('float', 'half', 'bfloat') and isinstance(v, Fl):
        import struct
        if v.c is None or Fraction(struct.unpack('f', struct.pack('f', float(v.c)))[0]) != v.c and abs(v.c) > Fraction(1, 10 ** 30): s.events.append(('narrowing', 'a %s is rounded to %s' % (I['oty'], I['ty']), s.loc))
    return v


def _i2f(s, I, fr):
    v = s.val(I['ops'][0], fr)
    if v is UNDEF: return UNDEF
    chkint(v)
    if isinstance(v, int):
        if I['op'] == 'uitofp': v = u(v, _width({'ty': I['oty']}))
        return fconst(v)
    lin = {}
    for m, c in v.t.items(): lin['i:' + '*'.join(m) if m else ''] = Fraction(c)
    return Fl(ires(v), None, lin, 'real' + ikey(v))


def _f2i(s, I, fr):
    v = s.val(I['ops'][0], fr)
    if v is UNDEF: return UNDEF
    if v.c is not None: return int(v.c)
    return f2i_atom(s, v)


def f2i_atom(s, v):
    k = 'int(%s)' % vkey(v)
    lo = 0
    nm, arg = 'trunc', v
    if v.lin is not None and len(v.lin) == 1:
        (x, c), = v.lin.items()
        if c == 1 and x in ROUND: nm, arg = ROUND[x]

    def feasible(ev, n, nm=nm, arg=arg):
        m = len(ev.ffacts)
        ok = all([ev.addfact(*f) for f in roundfacts(nm, arg, n)])
        del ev.ffacts[m:]
        return ok

    def onsplit(ev, n, nm=nm, arg=arg):
        for f in roundfacts(nm, arg, n):
            if not ev.addfact(*f): raise Unreachable()
    return iatom(k, b=(lo, None), kind='f2i', args=(v,), feasible=feasible, onsplit=onsplit)


def _fneg(s, I, fr):
    v = s.val(I['ops'][0], fr)
    return UNDEF if v is UNDEF else fmul(fconst(-1), v)


def _extract(s, I, fr):
    v = s.val(I['ops'][0], fr)
    for i in I['idx']:
        if v is UNDEF: return UNDEF
        if isinstance(v, tuple) and v[:1] == ('zero',): return 0
        if not isinstance(v, (list, tuple)): raise Undecided('extractvalue')
        v = v[i]
    return v


def _insert(s, I, fr):
    v, x = s.val(I['ops'][0], fr), s.val(I['ops'][1], fr)
    if len(I['idx']) != 1: raise Undecided('insertvalue')
    n = I['ty'].count(',') + 1
    l = list(v) if isinstance(v, (tuple, list)) and v[:1] != ('zero',) else [UNDEF] * n
    l[I['idx'][0]] = x
    return tuple(l)


def _load(s, I, fr):
    return s.load(s.val(I['ptr'], fr), I['size'], I['ty'])


def _store(s, I, fr):
    s.store(s.val(I['ptr'], fr), I['size'], s.val(I['val'], fr))


def _pad(s, I):
    if not s.unwind: return UNDEF
    if I['clauses'] and not (I['catchall'] and I['clauses'] == 1): raise Undecided('typed catch')
    n = '&exc%d' % len(s.excs)
    s.excs[n] = s.pad
    return (iatom(n), 1 if I['clauses'] else 0)


def _begin_catch(s, I, a):
    if not s.unwind: raise Undecided('exception handled inside')
    s.caught.append(s.excs[s.base(a[0])[0]])
    return a[0]


def _end_catch(s, I, a):
    if s.caught: s.caught.pop()


def _rethrow(s, I, a):
    if not s.caught: raise Undecided('rethrow without exception')
    raise s.caught[-1]


def _terminate(s, I, a): raise Terminate(I['callee'], s.loc)


def _lifetime(end):
    def f(s, I, a):
        b, off = s.base(a[-1])
        (s.ended.add if end else s.ended.discard)(b)
    return f


OPS = {
    'add': _bin(_add), 'sub': _bin(_sub), 'mul': _bin(_mul),
    'udiv': _bin(divlike('div', False, False)), 'sdiv': _bin(divlike('div', True, False)),
    'urem': _bin(divlike('rem', False, True)), 'srem': _bin(divlike('rem', True, True)),
    'shl': _bin(_shl), 'lshr': _bin(_shr('lshr', False)), 'ashr': _bin(_shr('ashr', True)),
    'and': _logic('and', lambda a, b: a & b), 'or': _logic('or', lambda a, b: a | b), 'xor': _logic('xor', lambda a, b: a ^ b),
    'fadd': _fb(fadd), 'fsub': _fb(lambda a, b: fadd(a, b, -1)), 'fmul': _fb(fmul), 'fdiv': _fb(fdiv),
    'fneg': _fneg, 'icmp': _icmp, 'fcmp': _fcmp, 'select': _select,
    'zext': _cast, 'sext': _cast, 'trunc': _cast, 'bitcast': _cast, 'ptrtoint': _cast, 'inttoptr': _cast, 'freeze': _cast,
    'fpext': _cast, 'fptrunc': _cast, 'uitofp': _i2f, 'sitofp': _i2f, 'fptoui': _f2i, 'fptosi': _f2i,
    'load': _load, 'store': _store, 'gep': lambda s, I, fr: s.gep(I, fr), 'extractvalue': _extract, 'insertvalue': _insert,
    'landingpad': lambda s, I, fr: _pad(s, I),
}


# ---------------------------------------------------------------- calls
def _minmax(mx):
    def f(s, I, a):
        x, y = a
        if x is UNDEF or y is UNDEF: return UNDEF
        if isinstance(x, int) and isinstance(y, int):
            w = _width(I)
            if '.u' in I['callee']:
                return norm(max(u(x, w), u(y, w)) if mx else min(u(x, w), u(y, w)), w)
            return max(x, y) if mx else min(x, y)
        # wrapped constants in unsigned min/max
        if '.u' in I['callee']:
            for p, q in ((x, y), (y, x)):
                if isinstance(p, int) and p < 0: return p if mx else q
        lt = s.iless(x, y)
        return (y if lt else x) if mx else (x if lt else y)
    return f


def _fminmax(mx):
    def f(s, I, a):
        x, y = a
        lt = s.fless(x, y)
        return (y if lt else x) if mx else (x if lt else y)
    return f


def _round(name):
    import math

    def f(s, I, a):
        v = a[0]
        if v is UNDEF: return UNDEF
        if v.c is not None: return fconst({'ceil': math.ceil, 'floor': math.floor, 'trunc': math.trunc}[name](v.c))
        r = ffun(name, v)
        ROUND[next(iter(r.lin))] = (name, v)
        s.rd[next(iter(r.lin))] = (name, v)
        if v.q is not None and s.lpos(v.q[1]) and name in ('floor', 'ceil'):
            num, den = v.q
            R = {'R*' + next(iter(r.lin)): Fraction(1)}
            if name == 'floor':
                s.push(lincomb(num, R, -1), False); s.push(lincomb(lincomb(R, num, -1), den, 1), True)
            else:
                s.push(lincomb(R, num, -1), False); s.push(lincomb(lincomb(num, R, -1), den, 1), True)
        return r
    return f


ROUND = {}


def roundfacts(name, v, k):
    """[(greater, smaller, strict)] that hold when the rounded value is k"""
    k1 = fconst(k)
    if name == 'ceil': return [(k1, v, False), (v, fconst(k - 1), True)]
    if name == 'floor': return [(v, k1, False), (fconst(k + 1), v, True)]
    if k > 0: return [(v, k1, False), (fconst(k + 1), v, True)]
    if k < 0: return [(k1, v, False), (v, fconst(k - 1), True)]
    return [(fconst(1), v, True), (v, fconst(-1), True)]


def _new(s, I, a):
    s.heapn += 1
    if not isinstance(a[0], int): 
        return s.newobj('h%d' % s.heapn, None, 'heap')
    return s.newobj('h%d' % s.heapn, a[0], 'heap')


def _delete(s, I, a):
    if a[0] == 0: return None
    if isinstance(a[0], Poly):
        b, o = s.base(a[0])
        if b in s.objs:
            if b in s.freed: s.events.append(('double-free', b, s.loc))
            if s.log is not None: s.log(s, 'w', b, 0, s.objs[b].size)
            s.freed.add(b)
        else: s.events.append(('free-caller', b, s.loc))
    return None


def _memset(s, I, a):
    p, byte, n = a[:3]
    if isinstance(n, int) and n == 0: return None
    b, off = s.base(p)
    o = s.wobj(b)
    if o is None and s.globs and b.startswith('&g:'): o = s.globobj(b)
    if s.log is not None: s.log(s, 'w', b, off, n)
    if o is None and isinstance(n, int) and n <= 65536 and n % 8 == 0 and byte == 0:
        for k in range(0, n, 8): s.ext.append((iadd(p, k), 8, 0, s.loc))
        if not s.guard: s.events.append(('ext-write', b, s.loc))
        return None
    if o is None or not isinstance(n, int): raise Undecided('memset of caller memory')
    if not isinstance(off, int): off = s.concretise(off, o, n)
    if o.size is not None and (off < 0 or off + n > o.size):
        s.events.append(('oob-write', '%s+%d..%d of %s' % (b, off, off + n, o.size), s.loc))
        return None
    o.fill(off, n, byte if isinstance(byte, int) else None)


def _memcpy(s, I, a): s.memcpy(a[0], a[1], a[2])


def _posix_memalign(s, I, a):
    s.heapn += 1
    p = s.newobj('h%d' % s.heapn, a[2] if isinstance(a[2], int) else None, 'heap')
    s.events.append(('memalign', a[1], a[2]))
    s.store(a[0], 8, p)
    return 0


def _throw(s, I, a):
    t = I['args'][1].get('g', '?')
    raise Throw(t, s.loc)


def _stdthrow(s, I, a): raise Throw(I['callee'], s.loc)


def _gacq(s, I, a):
    s.guard += 1
    return 1


def _grel(s, I, a):
    s.guard -= 1
    if s.globs and I['callee'].endswith('release'): s.store(a[0], 1, 1)
    return None


def _fmod(s, I, a):
    if a[0] is UNDEF or a[1] is UNDEF: return UNDEF
    if a[0].c == 0: return a[0]
    v = ffun('fmod', a[0], a[1])
    # the quotient is known from the facts (unless the remainder was named before they were)
    if next(iter(v.lin)) not in s.fm and s.entails(a[1], fconst(0), True):
        for k in (0, 1, -1, 2, -2, 3, -3):
            kv = fmul(fconst(k), a[1])
            d = fadd(a[0], kv, -1)
            if k >= 0 and s.entails(d, fconst(0), False) and s.entails(a[1], d, True): return d
            if k <= 0 and s.entails(fconst(0), d, False) and s.entails(d, fmul(fconst(-1), a[1]), True): return d
    v = ffun('fmod', a[0], a[1])
    # C standard: result has the sign of the first operand and is smaller in magnitude than the second
    FMOD[next(iter(v.lin))] = (a[0], a[1])
    s.fm[next(iter(v.lin))] = (a[0], a[1])
    z = fconst(0)
    pos = s.lpos(a[1].lin) if a[1].lin is not None else None
    if pos and (v.r not in s.fmods):
        s.fmods.add(v.r)
        if s.fless(a[0], z):
            s.addfact(z, v, False); s.addfact(v, fmul(fconst(-1), a[1]), True)
        else:
            s.addfact(v, z, False); s.addfact(a[1], v, True)
    return v


FMOD = {}


def _fabs(s, I, a):
    v = a[0]
    if v is UNDEF: return UNDEF
    return fmul(fconst(-1), v) if s.fless(v, fconst(0)) else v


def _usubsat(s, I, a):
    return 0 if s.iless(a[0], a[1]) else isub(a[0], a[1])


def _sqrt(s, I, a):
    v = a[0]
    if v is UNDEF: return UNDEF
    if v.c is not None:
        import math
        # constant argument: the exact root if there is one, else the double nearest to it
        return fconst(Fraction(math.sqrt(v.c)))
    return ffun('sqrt', v)


def _overflow(fn, signed):
    def f(s, I, a):
        if isinstance(a[0], int) and isinstance(a[1], int):
            w = 64
            x, y = (a[0], a[1]) if signed else (u(a[0], w), u(a[1], w))
            r = fn(x, y)
            ok = (-(1 << 63) <= r < (1 << 63)) if signed else 0 <= r < (1 << 64)
            return (norm(r, w), int(not ok))
        raise Undecided('overflow intrinsic')
    return f


def _fmuladd(s, I, a):
    if UNDEF in a: return UNDEF
    return fadd(fmul(a[0], a[1]), a[2])


INTR = [
    ('llvm.umin', _minmax(False)), ('llvm.smin', _minmax(False)), ('llvm.umax', _minmax(True)), ('llvm.smax', _minmax(True)),
    ('llvm.minnum', _fminmax(False)), ('llvm.maxnum', _fminmax(True)), ('fmin', _fminmax(False)), ('fmax', _fminmax(True)),
    ('llvm.ceil', _round('ceil')), ('llvm.floor', _round('floor')), ('llvm.trunc', _round('trunc')), ('ceil', _round('ceil')), ('floor', _round('floor')),
    ('llvm.fabs', _fabs), ('fabs', _fabs), ('llvm.fmuladd', _fmuladd), ('llvm.fma', _fmuladd),
    ('llvm.usub.sat', _usubsat), ('llvm.sqrt', _sqrt), ('sqrt', _sqrt),
    ('llvm.umul.with.overflow', _overflow(lambda x, y: x * y, False)), ('llvm.uadd.with.overflow', _overflow(lambda x, y: x + y, False)),
    ('_Znwm', _new), ('_Znam', _new), ('malloc', _new), ('_ZdlPv', _delete), ('_ZdaPv', _delete), ('free', _delete),
    ('llvm.memset', _memset), ('llvm.memcpy', _memcpy), ('llvm.memmove', _memcpy), ('memmove', _memcpy), ('memcpy', _memcpy),
    ('posix_memalign', _posix_memalign), ('__cxa_allocate_exception', _new), ('__cxa_throw', _throw), ('__cxa_free_exception', lambda s, I, a: None),
    ('_ZSt20__throw_length_error', _stdthrow), ('_ZSt24__throw_out_of_range_fmt', _stdthrow), ('_ZSt17__throw_bad_alloc', _stdthrow), ('_ZSt28__throw_bad_array_new_length', _stdthrow),
    ('_ZSt26__throw_bad_variant_access', _stdthrow),
    ('_ZNSt12domain_errorC', lambda s, I, a: None), ('_ZNSt13runtime_errorC', lambda s, I, a: None), ('_ZNSt9bad_allocC', lambda s, I, a: None),
    ('llvm.threadlocal.address', lambda s, I, a: a[0]), ('__cxa_guard_acquire', _gacq), ('__cxa_guard_release', _grel), ('__cxa_guard_abort', _grel),
    ('__cxa_atexit', lambda s, I, a: 0), ('__cxa_thread_atexit', lambda s, I, a: 0),
    ('fmod', _fmod), ('fmodf', _fmod), ('fmodl', _fmod), ('llvm.stacksave', lambda s, I, a: UNDEF), ('llvm.stackrestore', lambda s, I, a: None),
    ('llvm.trap', lambda s, I, a: None), ('__clang_call_terminate', _terminate), ('_ZSt9terminatev', _terminate),
    ('__cxa_begin_catch', _begin_catch), ('__cxa_end_catch', _end_catch), ('__cxa_rethrow', _rethrow), ('llvm.lifetime.start', _lifetime(False)), ('llvm.lifetime.end', _lifetime(True)),
    ('llvm.ubsantrap', lambda s, I, a: None),
]


def is_ub(dem):
    return ' std::upper_bound<' in ' ' + dem or 'std::__upper_bound<' in dem


def upper_bound(s, I, args, dem):
    """std::upper_bound(first, last, value): summary of the standard algorithm on a sorted range of doubles"""
    first, last, vp = args[:3]
    esz = 8 if '<double const*' in dem or 'double' in dem.split('(')[0] else 4 if 'float' in dem else 8
    if 'long double' in dem: esz = 16
    ety = {8: 'double', 4: 'float', 16: 'x86_fp80'}[esz]
    x = s.load(vp, esz if esz != 16 else 10, ety)
    n = isub(last, first)
    cnt = exactdiv(n, esz) if isinstance(n, Poly) else (n // esz if n % esz == 0 else None)
    if cnt is None: raise Undecided('upper_bound over a range of unknown length')
    nm = 'ub#%d(%s,%s,%s)' % (len([e for e in s.events if e[0] == 'ub']), ikey(first), ikey(last), vkey(x))
    idx = iatom(nm, kind='ub', args=(first, last, x), b=(0, cnt))

    def fl(ev, k):
        fs = []
        if k > 0: fs.append((x, ev.load(iadd(first, (k - 1) * esz), esz, ety), False))
        if k < cnt: fs.append((ev.load(iadd(first, k * esz), esz, ety), x, True))
        return [f for f in fs if isinstance(f[0], Fl) and isinstance(f[1], Fl)]

    def feasible(ev, k):
        m = len(ev.ffacts)
        ok = all([ev.addfact(*f) for f in fl(ev, k)])
        del ev.ffacts[m:]
        return ok

    def onsplit(ev, k):
        for f in fl(ev, k):
            if not ev.addfact(*f): raise Unreachable()
    if isinstance(cnt, int): ATOM[nm].update(onsplit=onsplit, feasible=feasible)
    s.events.append(('ub', first, last, x, idx, cnt, s.loc))
    if isinstance(cnt, int): idx = s.split(nm)
    return iadd(first, imul(idx, esz))
