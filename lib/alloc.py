"""C24: exact analysis of allocation for every element count.
Domain: partitions of the count n into intervals on which every 64-bit value is an affine function of n (wrap-around
resolved); a comparison or a wrap-around inside an interval splits it."""
import ir, vg
from vg import Undecided
from probe import World, memory_ok, Rep, fmtloc

W = 1 << 64


class Af:
    """value v with lo(n) <= v <= hi(n); lo, hi = (a, b) meaning a*n + b"""
    def __init__(s, lo, hi=None): s.lo, s.hi = lo, hi or lo
    @property
    def exact(s): return s.lo == s.hi


class Undef: pass


U = Undef()


class Thrown(Exception):
    def __init__(s, ty, loc): s.ty, s.loc = ty, loc


class Run:
    def __init__(s, mod, prefix, calls):
        s.mod, s.prefix, s.calls = mod, prefix, calls
        s.trace = []
        s.n = [0, W - 1]
        s.slots, s.blocks, s.k = {}, {}, 0
        s.failed = False
        s.steps = 0
        s.loc = None

    def decide(s, opts):
        i = len(s.trace)
        v = s.prefix[i] if i < len(s.prefix) else opts[0]
        s.trace.append((v, [] if i < len(s.prefix) else opts[1:]))
        return v

    # ---- arithmetic
    def at(s, f, n): return f[0] * n + f[1]

    def rng(s, f):
        x, y = s.at(f, s.n[0]), s.at(f, s.n[1])
        return min(x, y), max(x, y)

    def split(s, pred):
        """restrict n so that the monotone predicate is constant; returns its value"""
        a, b = pred(s.n[0]), pred(s.n[1])
        if a == b: return a
        lo, hi = s.n
        while hi - lo > 1:
            m = (lo + hi) // 2
            if pred(m) == a: lo = m
            else: hi = m
        v = s.decide([a, b])
        if v == a: s.n[1] = lo
        else: s.n[0] = hi
        return v

    def wrap(s, f):
        """f modulo 2^64"""
        while True:
            a, b = s.rng(f)
            if a // W == b // W: return Af((f[0], f[1] - (a // W) * W))
            k = s.at(f, s.n[0]) // W
            s.split(lambda n: s.at(f, n) // W == k)

    def need(s, v):
        if v is U: raise Undecided('undefined value')
        if not isinstance(v, Af): raise Undecided('integer expected')
        return v

    def ar(s, op, a, b):
        a, b = s.need(a), s.need(b)
        if not a.exact or not b.exact: raise Undecided('%s of an approximate value' % op)
        x, y = a.lo, b.lo
        if op == 'add': return s.wrap((x[0] + y[0], x[1] + y[1]))
        if op == 'sub': return s.wrap((x[0] - y[0], x[1] - y[1]))
        if op == 'shl': op, y = 'mul', (0, 1 << y[1] if not y[0] else None)
        if op == 'mul':
            if x[0] and y[0]: raise Undecided('non-linear')
            if x[0]: x, y = y, x
            return s.wrap((x[1] * y[0], x[1] * y[1]))
        if op == 'lshr': op, y = 'udiv', (0, 1 << y[1] if not y[0] else None)
        if y[0] or not y[1]: raise Undecided('division')
        c = y[1]
        if op == 'udiv':
            if x[0] % c == 0: return Af((x[0] // c, x[1] // c))
            if s.n[0] == s.n[1]: return Af((0, s.at(x, s.n[0]) // c))
            raise Undecided('division')
        if op == 'and':
            m = c
            inv = W - 1 - m
            if inv & (inv + 1) == 0:    # clears the low bits
                a, _ = s.rng(x)
                return Af((x[0], x[1] - inv) if a >= inv else (0, 0), x)
            if m & (m + 1) == 0:
                if s.rng(x)[1] <= m: return Af(x)
                if x[0] == 0: return Af((0, x[1] & m))
                return Af((0, 0), (0, m))
        if op == 'urem':
            if x[0] == 0: return Af((0, x[1] % c))
            return Af((0, 0), (0, c - 1))
        if op == 'or' and x[0] == 0: return Af((0, x[1] | c))
        raise Undecided(op)

    def less(s, a, b, strict=True):
        """a < b (or <=), unsigned"""
        d1 = (b.lo[0] - a.hi[0], b.lo[1] - a.hi[1] - (1 if strict else 0))
        d2 = (b.hi[0] - a.lo[0], b.hi[1] - a.lo[1] - (1 if strict else 0))
        if a.exact and b.exact: return s.split(lambda n: s.at(d1, n) >= 0)
        if s.rng(d1)[0] >= 0: return True
        if s.rng(d2)[1] < 0: return False
        raise Undecided('comparison of approximate values')

    def icmp(s, I, a, b):
        p = I['pred']
        if a is U or b is U: return U
        if isinstance(a, Af) and isinstance(b, Af):
            if p[0] == 's':   # flip the sign bit
                h = 1 << (ibits(I['oty']) - 1)
                if a.exact and b.exact:
                    a, b = [s.wrap((v.lo[0], v.lo[1] + (1 << 63))) for v in (sx(a, I), sx(b, I))]
                else: raise Undecided('signed comparison')
                p = 'u' + p[1:]
            if p in ('eq', 'ne'):
                r = not s.less(a, b) and not s.less(b, a)
                return Af((0, int(r == (p == 'eq'))))
            r = {'ult': lambda: s.less(a, b), 'ugt': lambda: s.less(b, a), 'ule': lambda: s.less(a, b, False), 'uge': lambda: s.less(b, a, False)}[p]()
            return Af((0, int(r)))
        eq = a == b
        if p not in ('eq', 'ne'): raise Undecided('pointer comparison')
        return Af((0, int(eq == (p == 'eq'))))

    def truth(s, v):
        if v is U: raise Undecided('branch on an undefined value')
        return not (not s.less(Af((0, 0)), v))

    # ---- memory and calls
    def block(s, how, align, size):
        if s.decide([True, False]):
            s.k += 1
            s.blocks[s.k] = dict(how=how, align=align, size=size, freed=None, loc=s.loc)
            return ('b', s.k)
        s.failed = True
        return None

    def release(s, p, how):
        if p == 'null': return
        if not (isinstance(p, tuple) and p[0] == 'b'): raise Undecided('release of an unknown pointer')
        s.blocks[p[1]]['freed'] = (s.blocks[p[1]]['freed'] or []) + [how]

    def call(s, f, args):
        if len(f['params']) != len(args): raise Undecided('arguments')
        fr = {p['id']: a for p, a in zip(f['params'], args)}
        b, prev = 0, None
        while True:
            ins = f['blocks'][b]
            new, i = {}, 0
            while ins[i]['op'] == 'phi':
                for v, pb in ins[i]['in']:
                    if pb == prev: new[ins[i]['id']] = s.val(v, fr)
                i += 1
            fr.update(new)
            nb = None
            for I in ins[i:]:
                s.steps += 1
                if s.steps > 20000: raise Undecided('too many steps')
                if 'loc' in I: s.loc = I['loc']
                op = I['op']
                if op in ('add', 'sub', 'mul', 'shl', 'udiv', 'urem', 'lshr', 'and', 'or'):
                    x, y = s.val(I['ops'][0], fr), s.val(I['ops'][1], fr)
                    if op in ('and', 'or') and I['ty'] == 'i1':
                        q = s.truth(x)
                        fr[I['id']] = Af((0, int((q and s.truth(y)) if op == 'and' else (q or s.truth(y)))))
                    else: fr[I['id']] = U if x is U or y is U else s.ar(op, x, y)
                elif op == 'xor' and I['ty'] == 'i1': fr[I['id']] = Af((0, int(s.truth(s.val(I['ops'][0], fr)) != s.truth(s.val(I['ops'][1], fr)))))
                elif op == 'icmp': fr[I['id']] = s.icmp(I, s.val(I['ops'][0], fr), s.val(I['ops'][1], fr))
                elif op == 'select':
                    fr[I['id']] = s.val(I['ops'][1] if s.truth(s.val(I['ops'][0], fr)) else I['ops'][2], fr)
                elif op in ('zext', 'trunc', 'freeze', 'bitcast', 'ptrtoint', 'inttoptr', 'sext'):
                    v = s.val(I['ops'][0], fr)
                    if op == 'trunc' and isinstance(v, Af):
                        w = ibits(I['ty'])
                        if s.rng(v.hi)[1] >= 1 << w: raise Undecided('trunc')
                    if op == 'sext': raise Undecided('sext')
                    fr[I['id']] = v
                elif op == 'alloca':
                    s.k += 1
                    s.slots[s.k] = U
                    fr[I['id']] = ('s', s.k)
                elif op == 'store':
                    p = s.val(I['ptr'], fr)
                    if isinstance(p, tuple) and p[0] == 's': s.slots[p[1]] = s.val(I['val'], fr)
                    elif p != 'exc': raise Undecided('store')
                elif op == 'load':
                    p = s.val(I['ptr'], fr)
                    if not (isinstance(p, tuple) and p[0] == 's'): raise Undecided('load')
                    fr[I['id']] = s.slots[p[1]]
                elif op == 'extractvalue': fr[I['id']] = s.val(I['ops'][0], fr)[I['idx'][0]]
                elif op == 'br':
                    if 'cond' in I: nb = I['succ'][0] if s.truth(s.val(I['cond'], fr)) else I['succ'][1]
                    else: nb = I['succ'][0]
                elif op == 'switch':
                    c = s.val(I['cond'], fr)
                    nb = I['default']
                    for cv, t in I['cases']:
                        k = Af((0, int(cv['c']) % W))
                        if not s.less(c, k) and not s.less(k, c):
                            nb = t
                            break
                elif op == 'ret': return s.val(I['ops'][0], fr) if I['ops'] else None
                elif op in ('call', 'invoke'):
                    fr[I['id']] = s.docall(I, [s.val(x, fr) for x in I['args']])
                    if op == 'invoke': nb = I['normal']
                elif op == 'unreachable': raise Undecided('unreachable')
                else: raise Undecided(op)
            if nb is None: raise Undecided('no successor')
            prev, b = b, nb

    def docall(s, I, a):
        c = I.get('callee') or ''
        if c in s.mod.funcs and s.mod.funcs[c]['blocks']: return s.call(s.mod.funcs[c], a)
        if c == 'posix_memalign':
            r = s.block('posix_memalign', a[1], a[2])
            if r is None: return Af((0, 12))
            s.slots[a[0][1]] = r
            return Af((0, 0))
        if c == 'aligned_alloc': return s.block('aligned_alloc', a[0], a[1]) or 'null'
        if c == 'malloc': return s.block('malloc', Af((0, 16)), a[0]) or 'null'
        if c in ('_Znwm', '_Znam', '_ZnwmSt11align_val_t', '_ZnamSt11align_val_t'):
            al = a[1] if c.endswith('align_val_t') else Af((0, 16))
            r = s.block('new' + ('[]' if c[3] == 'a' else '') + (' aligned' if len(a) > 1 else ''), al, a[0])
            if r is None: raise Thrown('bad_alloc', s.loc)
            return r
        if c == 'free': return s.release(a[0], 'free')
        if c.startswith('_ZdlPv') or c.startswith('_ZdaPv'): return s.release(a[0], 'delete' + ('[]' if c[3] == 'a' else '') + (' aligned' if 'align_val_t' in c else ''))
        if c == '__cxa_allocate_exception': return 'exc'
        if c == '__cxa_throw': raise Thrown(I['args'][1].get('g', '?'), s.loc)
        if 'throw_bad_alloc' in c or 'throw_bad_array_new_length' in c: raise Thrown('bad_alloc', s.loc)
        if 'throw' in c: raise Thrown(c, s.loc)
        if c.startswith('llvm.umul.with.overflow') or c.startswith('llvm.uadd.with.overflow'):
            x, y = s.need(a[0]).lo, s.need(a[1]).lo
            if 'uadd' in c: f = (x[0] + y[0], x[1] + y[1])
            else:
                if x[0]: x, y = y, x
                if x[0]: raise Undecided('non-linear')
                f = (x[1] * y[0], x[1] * y[1])
            ov = not s.split(lambda n: s.at(f, n) < W)
            return (s.wrap(f), Af((0, int(ov))))
        if c.startswith('llvm.lifetime') or c.startswith('llvm.dbg') or c.startswith('llvm.assume'): return None
        raise Undecided('call to ' + c)

    def val(s, o, fr):
        if 'v' in o: return fr[o['v']]
        if 'c' in o:
            w = o['w']
            return Af((0, int(o['c']) % (1 << w)))
        if 'null' in o: return 'null'
        if 'undef' in o or 'poison' in o: return U
        if 'ce' in o or 'g' in o: return 'exc' if 'g' in o else 'glob'
        raise Undecided('operand')

    def go(s):
        try:
            v = None
            for fn, mk in s.calls: v = s.call(s.mod.funcs[fn], mk(v))
            return ('ret', v)
        except Thrown as t: return ('throw', t.ty)
        except Undecided as e: return ('undecided', str(e))


def ibits(t): return int(t[1:]) if t[0] == 'i' else 64
def sx(v, I): return v


def rows(mod, calls):
    stack = [[]]
    while stack:
        pre = stack.pop()
        r = Run(mod, pre, calls)
        out = r.go()
        yield r, out
        for i in range(len(pre), len(r.trace)):
            for alt in r.trace[i][1]: stack.append([t[0] for t in r.trace[:i]] + [alt])


TYPES = [('char', 1, 'char'), ('double', 8, 'double'), ('float', 4, 'float'), ('S3', 3, 'struct S3 { char c[3]; };'), ('S24', 24, 'struct S24 { double a, b, c; };'),
         ('Big', 4096, 'struct Big { char c[4096]; };'), ('const double', 8, ''), ('long double', 16, '')]
ALIGN = [('NORMAL', 8), ('SSE', 16), ('AVX', 32), ('AVX512', 64)]


def alloc_tu(T, al, decl):
    s = '#include <aligned-allocator.hpp>\nusing namespace intp;\ntypedef unsigned long ul;\n' + (decl if decl.startswith('struct') else '') + '\n'
    s += 'typedef %s T; typedef AlignedAllocator<T, Alignment::%s> A; typedef std::remove_const<T>::type V;\n' % (T, al)
    s += 'extern "C" const void* probe_alloc(ul n) { A a; return a.allocate(n); }\n'
    s += 'extern "C" const void* probe_hinted(ul n, const void* h) { A a; return a.allocate(n, h); }\n'
    s += 'extern "C" void probe_dealloc(T* p, ul n) { A a; a.deallocate(p, n); }\n'
    s += 'extern "C" bool probe_eq() { A a, b(a); return a == b; }\nextern "C" bool probe_ne() { A a, b(a); return a != b; }\n'
    s += 'extern "C" bool probe_eqr() { A a; typename A::template rebind<int>::other b(a); A c(b); return c == a && b == a && a == b; }\n'
    s += 'extern "C" bool probe_ner() { A a; typename A::template rebind<int>::other b(a); A c(b); return c != a || b != a || a != b; }\n'
    s += 'extern "C" ul probe_max() { A a; return a.max_size(); }\n'
    return s


def u_alloc(rep, T, size, decl, al, alv, std):
    mod = ir.module(alloc_tu(T, al, decl), std=std, macros=(), name='al')
    tag = 'AlignedAllocator<%s, %s>' % (T, al)
    for fn in ('probe_alloc', 'probe_hinted'):
        calls = [(fn, lambda v: [Af((1, 0))] + (['null'] if fn == 'probe_hinted' else [])), ('probe_dealloc', lambda v: [v, Af((1, 0))])]
        for stage in (1, 2):
            for r, (out, v) in rows(mod, calls[:stage]):
                rep.rows += 1
                rep.steps += r.steps
                where = 'for counts %d..%d' % tuple(r.n)
                if out == 'undecided':
                    rep.undecided('%s %s: %s' % (tag, where, v))
                    continue
                if out == 'throw':
                    rep.check('bad_alloc' in v or 'bad_array' in v, 'allocation fails with bad_alloc', '%s throws %s instead of std::bad_alloc %s' % (tag, v, where), r.loc)
                    rep.check(r.failed or r.n[0] * size > (1 << 62), 'allocation succeeds when possible', '%s refuses a request that could be met %s' % (tag, where), r.loc)
                    continue
                if stage == 1:
                    ok = isinstance(v, tuple) and v[0] == 'b' and r.blocks[v[1]]['freed'] is None
                    if r.n == [0, 0] and v == 'null' and not r.failed: continue
                    if not rep.check(ok, 'allocation returns storage', '%s returns %s %s%s' % (tag, 'no storage' if not ok else '', where, ' although the system allocator failed' if r.failed else ''), r.loc): continue
                    b = r.blocks[v[1]]
                    a = b['align'].lo
                    av = r.at(a, r.n[0])
                    rep.check(a[0] == 0 and av % alv == 0 and av & (av - 1) == 0, 'alignment', '%s requests alignment %d instead of a multiple of %d' % (tag, av, alv), b['loc'])
                    z = b['size'].lo
                    d = (z[0] - size, z[1])
                    rep.check(r.rng(d)[0] >= 0, 'enough storage', '%s requests %d*n%+d bytes for n elements of %d bytes %s' % (tag, z[0], z[1], size, where), b['loc'])
                else:
                    for b in r.blocks.values():
                        want = {'posix_memalign': 'free', 'aligned_alloc': 'free', 'malloc': 'free'}.get(b['how'], b['how'].replace('new', 'delete'))
                        rep.check(b['freed'] == [want], 'deallocation releases what allocation returned', '%s: storage from %s is released by %s' % (tag, b['how'], b['freed']), r.loc)
    w = World(mod)
    for pr, want, msg in (('eq', 1, 'a copy does not compare equal'), ('ne', 0, 'operator!= disagrees with operator=='), ('eqr', 1, 'a rebound copy does not compare equal'), ('ner', 0, 'operator!= disagrees with operator== on a rebound copy')):
        rep.check(w.fork().one('probe_' + pr).ret & 1 == want, 'equality', '%s: %s' % (tag, msg))
    mx = w.fork().one('probe_max').ret % W
    rep.check(mx * size < W, 'max_size', '%s: max_size() elements do not fit the address space' % tag)


STATIC = '''
#include <aligned-allocator.hpp>
#include <vector>
using namespace intp;
struct S24 { double a, b, c; };
template <typename X, typename Y> struct same { static constexpr bool value = std::is_same<X, Y>::value; };
#define CHECK(T, U, AL) CHECKC(T, U, AL) \\
  static_assert(same<typename std::allocator_traits<AlignedAllocator<T, Alignment::AL>>::template rebind_alloc<U>, AlignedAllocator<U, Alignment::AL>>::value, "rebinding keeps the alignment");
#define CHECKC(T, U, AL) \\
  static_assert(same<typename AlignedAllocator<T, Alignment::AL>::template rebind<U>::other, AlignedAllocator<U, Alignment::AL>>::value, "rebinding keeps the alignment"); \\
  static_assert(same<typename AlignedAllocator<void, Alignment::AL>::template rebind<U>::other, AlignedAllocator<U, Alignment::AL>>::value, "rebinding keeps the alignment"); \\
  static_assert(same<typename AlignedAllocator<T, Alignment::AL>::value_type, typename std::remove_const<T>::type>::value, "value type"); \\
  static_assert(std::is_constructible<AlignedAllocator<U, Alignment::AL>, const AlignedAllocator<T, Alignment::AL>&>::value, "rebound copies can be made"); \\
  static_assert(std::is_nothrow_copy_constructible<AlignedAllocator<T, Alignment::AL>>::value, "copies do not throw");
#define ALLAL(T, U) CHECK(T, U, NORMAL) CHECK(T, U, SSE) CHECK(T, U, AVX) CHECK(T, U, AVX512)
ALLAL(double, char) ALLAL(char, S24) ALLAL(S24, double) ALLAL(float, int)
CHECKC(const double, char, NORMAL) CHECKC(const double, char, SSE) CHECKC(const double, char, AVX) CHECKC(const double, char, AVX512)
static_assert(static_cast<std::size_t>(Alignment::SSE) == 16 && static_cast<std::size_t>(Alignment::AVX) == 32 && static_cast<std::size_t>(Alignment::AVX512) == 64 && static_cast<std::size_t>(Alignment::NORMAL) >= alignof(void*), "named alignments");
'''


def u_static(rep, std):
    import subprocess, os, tempfile
    d = tempfile.mkdtemp(dir=ir.scratch())
    p = os.path.join(d, 'a.cpp')
    open(p, 'w').write(STATIC)
    r = subprocess.run([ir.CLANG, '-std=c++' + std, '-fsyntax-only', '-I', ir.INC, p], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    ours = ('rebinding keeps the alignment', 'value type', 'rebound copies can be made', 'copies do not throw', 'named alignments')
    fails = [l for l in r.stdout.splitlines() if 'static assertion failed' in l and any(o in l for o in ours)]
    if r.returncode and not fails: rep.undecided('does not compile: ' + ([l for l in r.stdout.splitlines() if 'error' in l] or ['?'])[0])
    for i in range(max(1, 6 * 20 + 1 - len(fails))): rep.check(True, 'static', '')
    for l in fails[:5]: rep.check(False, 'type-level contract', l.split('error:')[-1].strip(), l.split(': error')[0])
