"""C08, C26: interpolation of the data; knots and ranges."""
from itertools import product
import tu, ref, vg, fun
from fun import IF, sub, NOD, CELL
from vg import fsym, fconst, fadd, fmul, fdiv, Undecided
from probe import World, memory_ok


def mname(macros, std): return '+'.join([m.replace('INTP_', '').replace('PERIODIC_', '') for m in macros] or ['plain']) + ('' if std == '17' else ' c++' + std)


def plan(D, O, kinds, tier, heavy=1):
    """[(periodic, n, style)] grids to analyse"""
    out = []
    lo = max(2, O + 1)
    if D == 1:
        for per in (0, 1):
            # smallest count: O+1 (non-periodic); the cyclic solver needs band widths that do not overlap
            mn = lo if not per else max(2, (O | 1) + 1 if O > 1 else 2)
            if kinds in 'ui':
                ns = list(range(mn, mn + 4)) + [3 * O + 2, 4 * O + 4, 4 * O + 7]
                if tier == 'thorough': ns += list(range(mn + 4, 6 * O + 8))
                for n in sorted(set(ns)):
                    if n >= mn: out.append(([per], [n], 'generic'))
            elif kinds == 'j':
                if O == 0: continue
                for n in range(mn, mn + 5): out.append(([per], [n], 'affine'))
            else:
                if O == 0: continue
                for n in range(mn, mn + (3 if O < 4 else 2)): out.append(([per], [n], 'generic'))
                for n in (mn + 3, mn + 6, mn + 11): out.append(([per], [n], 'affine'))
                if tier == 'thorough':
                    for n in range(mn, mn + 20): out.append(([per], [n], 'affine'))
    else:
        for k, per in enumerate(product((0, 1), repeat=D)):
            if D == 3 and tier == 'quick' and sum(per) == 2: continue
            ns = []
            for d, p in enumerate(per):
                mn = lo if not p else max(2, (O | 1) + 1 if O > 1 else 2)
                ns.append(mn + (d + k) % (3 if D == 2 else 2) + (1 if d == 1 else 0))
            out.append((list(per), ns, 'affine' if 'n' in kinds and O > 2 else 'generic'))
            if D == 2 and tier == 'thorough': out.append((list(per), [ns[1] + 4, ns[0] + 1], 'affine'))
    return out


def at_points(rep, f, probe='probe_f', limit=10 ** 9, rule='passes through the data', fobj=None):
    k = 0
    for ix, x, v in f.points():
        k += 1
        if k > limit: break
        for r in f.w.table(probe, fobj or f.f, *x):
            rep.rows += 1
            if r.outcome == 'undecided':
                rep.undecided('%s at point %s: %s' % (f.tag(), ix, r.why))
                continue
            if not rep.check(r.outcome == 'ret', rule, '%s throws at data point %s' % (f.tag(), list(ix)), r.loc): continue
            if not memory_ok(rep, r): continue
            rep.check(r.ret == v, rule, '%s at data point %s is not the data value given there' % (f.tag(), list(ix)), r.ev.loc)


def makes(rep, f, maker):
    """all rows of the construction (non-uniform grids: one per ordering of coordinates and knots), each as a world"""
    for r in f.w.table(maker, *([f.c] + f.ns() + f.ps() + f.rng)):
        rep.rows += 1
        if r.outcome == 'undecided':
            rep.undecided('%s: %s' % (f.tag(), r.why))
            continue
        if not rep.check(r.outcome == 'ret', 'construction', '%s construction throws %s' % (f.tag(), r.thrown), r.loc): continue
        memory_ok(rep, r)
        g = IF.__new__(IF)
        g.__dict__.update(f.__dict__)
        g.w = f.w.fork()
        g.w.ev = r.ev
        g.w.facts = list(f.w.facts) + [x for x in r.ev.ffacts if x not in f.w.facts]
        g.f, g.mk = r.ret, r
        yield g


def u_interp(rep, D, O, kinds, grids, macros, std):
    mod = tu.module_interp(D, O, kinds, macros, std, features=())
    for per, n, style in grids:
        base = IF(mod, D, O, kinds, per, n, macros, style, build=False)
        for f in makes(rep, base, 'probe_mkf'):
            at_points(rep, f)
            rep.steps += f.w.steps
        rep.steps += base.w.steps
