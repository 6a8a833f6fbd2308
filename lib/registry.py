"""property -> units of its check"""
from itertools import product
import c_eval, c_build, c_fun, c_own, c_mesh, alloc, c_cfg, pool, sect, c_same, c_assert
from explain import EXPLAIN

CELL = ('INTP_CELL_LAYOUT',)


def bs_units(fn, tier, dims=None, stds=('11', '14', '20'), limit=300, top=6):
    us = []
    D1 = list(range(0, top)) if tier == 'quick' else list(range(0, 8))
    D2 = [1, 2, 3] if tier == 'quick' else [0, 1, 2, 3, 4]
    D3 = [1, 2] if tier == 'quick' else [1, 2, 3]
    for D, Os in ((1, D1), (2, D2), (3, D3)):
        if dims and D not in dims: continue
        for O in Os:
            for mac in ((), CELL):
                us.append(('%s %dD order %d %s' % (fn.__name__[2:], D, O, c_eval.mname(mac, '17')), fn, (D, O, mac, '17', tier), limit))
    for std in stds:
        for D, O in ((1, 3), (2, 2)):
            if dims and D not in dims: continue
            for mac in ((), CELL):
                us.append(('%s %dD order %d %s' % (fn.__name__[2:], D, O, c_eval.mname(mac, std)), fn, (D, O, mac, std, tier), limit))
    return us


C, N = 'INTP_CELL_LAYOUT', 'INTP_PERIODIC_NO_DUMMY_POINT'


def interp_units(fn, tier, confs=None, label='', full=True, limit=400):
    """grids over dimension, order, grid kind, layout and standard"""
    us = []
    def add(D, O, kinds, mac, std):
        us.append(('%s %dD order %d %s %s' % (fn.__name__[2:], D, O, kinds, c_build.mname(mac, std)), fn, (D, O, kinds, c_build.plan(D, O, kinds, tier), mac, std), limit))
    T = tier == 'thorough'
    for O in range(0, 8 if T else 6):
        for mac in (((), (C, N), (C,), (N,)) if T or O in (2, 3) else ((N,), (C,)) if O % 2 else ((), (C, N))):
            if O: add(1, O, 'n', mac, '17')
            add(1, O, 'u', mac, '17')
    for std in ('11', '14', '20'):
        for O in (2, 3):
            for k in 'un': add(1, O, k, (C, N) if std == '20' else ((N,) if O == 2 else ()), std)
    for O in ((1, 2, 3, 4) if T else (1, 2, 3)):
        for i, kinds in enumerate(('uu', 'un', 'nu', 'nn')):
            for mac in (((), (C, N), (C,), (N,)) if T else (((), (C, N), (C,), (N,))[(i + O) % 4],)): add(2, O, kinds, mac, '17')
    for std, O, kinds, mac in (('11', 2, 'un', (C,)), ('14', 3, 'nu', ()), ('20', 3, 'uu', (C, N)), ('11', 3, 'uu', ())): add(2, O, kinds, mac, std)
    for O in ((1, 2, 3) if T else (1, 2)):
        for i, kinds in enumerate(('uuu', 'unu', 'nun')):
            for mac in (((), (C, N)) if T else (((), (C, N), (C,))[(i + O) % 3],)): add(3, O, kinds, mac, '17')
    add(3, 1, 'uuu', (C, N), '11')
    for O in (0, 1, 2, 3, 4):   # ranges and coordinates given as integers
        add(1, O, 'i', ((), (C, N), (N,))[O % 3], ('17', '11')[O == 3])
        if O: add(1, O, 'j', ((N,), (), (C, N))[O % 3], '17')
    add(2, 2, 'ij', (C, N), '17')
    add(2, 1, 'ni', (), '17')
    return us


def fun_units(fn, tier, confs, limit=500, per=None, ngrids=None):
    us = []
    for D, O, kinds, mac, std in confs:
        g = c_fun.fplan(D, O, kinds, tier, per=per(D) if per else None)
        if ngrids and D in ngrids: g = g[:ngrids[D]] if isinstance(ngrids[D], int) else [g[i] for i in ngrids[D]]
        if D > 1 and tier == 'quick' and len(g) > 1:   # one unit per grid: parallelism
            for q in g: us.append(('%s %dD order %d %s %s periodic=%s' % (fn.__name__[2:], D, O, kinds, c_build.mname(mac, std), q[0]), fn, (D, O, kinds, [q], mac, std), limit))
        else: us.append(('%s %dD order %d %s %s' % (fn.__name__[2:], D, O, kinds, c_build.mname(mac, std)), fn, (D, O, kinds, g, mac, std), limit))
    return us


S, L = (1, 2, 3), (0, 1, 2, 3, 4, 5)


def confs1(orders, kinds='un', macs=((C, N), ()), std='17'):
    return [(1, O, k, m, std) for O in orders for k in kinds for m in macs if not (O == 0 and k == 'n')]


EXTRA1 = [(1, 3, 'u', (N,), '11'), (1, 2, 'n', (C,), '14'), (1, 3, 'n', (C, N), '20'), (1, 2, 'u', (C, N), '11')]


def cell_units(tier):
    us = []
    T = tier == 'thorough'
    def shp(D, O):
        out = []
        for k, per in enumerate(product((0, 1), repeat=D)):
            if D == 3 and not T and k in (3, 5): continue
            if D == 4 and not T and sum(per) not in (0, 1, 4): continue
            base = O + 1
            out.append((list(per), [base + ((d * 2 + k) % 3 if D < 3 else (d + k) % 2) for d in range(D)]))
            if any(per) and O and (D < 3 or T or k in (1, 4)):   # fewer control points than a segment needs: they repeat
                out.append((list(per), [max(1, (O + 1) // 2 - (k + d) % 2) if p else base + d % 2 for d, p in enumerate(per)]))
                if D == 1 and O > 2: out.append((list(per), [O // 3 + 1]))
        return out
    for D, Os in ((1, range(0, 6)), (2, (0, 1, 2, 3, 4)), (3, (1, 2) if not T else (0, 1, 2, 3)), (4, (1,))):
        for O in Os: us.append(('cells %dD order %d' % (D, O), c_fun.u_cell, (D, O, shp(D, O), (C,), '17'), 400))
    for std in ('11', '14', '20'): us.append(('cells 2D order 2 c++' + std, c_fun.u_cell, (2, 2, shp(2, 2), (C, N), std), 400))
    return us


def mesh_units(tier):
    us = []
    T = tier == 'thorough'
    hi = {1: 5, 2: 4, 3: 3, 4: 2}
    al = ', AlignedAllocator<double, Alignment::AVX>'
    for D in (1, 2, 3, 4):
        sh = list(product(range(1, hi[D] + (2 if T else 1)), repeat=D))
        if D == 3: sh = [x for x in sh if T or len(set(x)) > 1 or x[0] == 1] + ([(2, 4, 3)] if not T else [])
        if D == 4: sh = [x for i, x in enumerate(sh) if T or i % 3 == 1] + [(2, 3, 1, 4)]
        k = max(1, {1: 99, 2: 99, 3: 8, 4: 3}[D])
        for i in range(0, len(sh), k): us.append(('mesh %dD shapes %s..' % (D, sh[i]), c_mesh.u_mesh, (D, sh[i:i + k], (), '17'), 400))
        for std in ('11', '14', '20'): us.append(('mesh %dD c++%s' % (D, std), c_mesh.u_mesh, (D, [sh[-1]], (), std), 400))
        us.append(('mesh %dD aligned' % D, c_mesh.u_mesh, (D, [sh[-1]], (), '17', al), 400))
        for std in ('11', '17', '20'): us.append(('mesh %dD symbolic sizes c++%s' % (D, std), c_mesh.u_meshsym, (D, (), std), 400))
    return us


def band_units(fn, tier, stds=('11', '14', '20')):
    us = []
    for ext in (False, True):
        z = c_mesh.band_sizes(ext, tier)
        k = 8 if tier == 'quick' else 5
        for i in range(0, len(z), k): us.append(('%s %s %s..' % (fn.__name__[2:], 'extended' if ext else 'plain', z[i]), fn, (ext, z[i:i + k], (), '17'), 600))
        for std in stds: us.append(('%s %s c++%s' % (fn.__name__[2:], 'extended' if ext else 'plain', std), fn, (ext, [(1, 0, 0), (4, 2, 1), (6, 1, 2), (5, 2, 2)], (), std), 600))
    return us


def conv_units(pid, tier):
    us = []
    for O, k, mac, std in [(1, 'u', (C, N), '17'), (2, 'u', (), '17'), (3, 'u', (N,), '17'), (3, 'n', (C,), '17'), (2, 'n', (C, N), '17'), (0, 'u', (C, N), '17'), (3, 'u', (), '11'), (2, 'n', (N,), '11'), (3, 'u', (C, N), '14'), (3, 'n', (C, N), '20')]:
        us.append(('1D constructors order %d %s %s' % (O, k, c_build.mname(mac, std)), c_own.u_conv, (O, k, c_fun.fplan(1, O, k, tier), mac, std, pid), 300))
    return us


def get(pid, tier):
    T = tier == 'thorough'
    m = {'level': 'other', 'explanation': EXPLAIN.get(pid, '')}
    one = lambda D: None if D == 1 else [[0, 1], [1, 0]] if D == 2 else [[0, 1, 0]]
    both = [(2, 2, 'un', (C, N), '17'), (2, 3, 'nu', (), '17')]
    if pid == 'C01':
        us = fun_units(c_fun.u_checked, tier, confs1(S if not T else L) + EXTRA1 + [(2, 1, 'un', (C, N), '17'), (2, 2, 'nu', (), '17')] + ([(2, 3, 'uu', (C,), '17')] if T else []))
    elif pid == 'C02':
        us = bs_units(c_eval.u_value, tier) + fun_units(c_fun.u_fvalue, tier, confs1((0, 1, 3) if not T else L, macs=((C, N),)) + confs1((2, 4), macs=((),)) + EXTRA1[:2] + [(2, 2, 'un', (C, N), '17'), (2, 1, 'nu', (N,), '17')], per=one)
    elif pid == 'C03':
        us = bs_units(c_eval.u_deriv, tier) + fun_units(c_fun.u_fderiv, tier, confs1((1, 3) if not T else L, macs=((C, N),)) + confs1((2,), macs=((),)) + EXTRA1[:2] + [(2, 1, 'un', (C, N), '17'), (2, 2, 'nu', (N,), '17')], per=one)
    elif pid == 'C04': us = bs_units(c_eval.u_basis, tier, stds=('11',))
    elif pid == 'C05':
        us = bs_units(c_eval.u_hint, tier, top=5) + fun_units(c_fun.u_fvalue, tier, confs1((0, 1, 2, 3, 5) if not T else range(8), kinds='u', macs=((N,),)), per=one)
    elif pid == 'C06':
        us = bs_units(c_eval.u_periodic, tier) + fun_units(c_fun.u_fperiodic, tier, confs1(S, macs=((C, N),)) + confs1((2,), macs=((), (C,))) + EXTRA1[2:] + [(2, 2, 'un', (C, N), '17'), (2, 1, 'uu', (C,), '14')] + ([(2, 3, 'nu', (C,), '17')] if T else []), per=lambda D: [[1]] if D == 1 else [[0, 1], [1, 0], [1, 1]])
    elif pid == 'C07':
        us = fun_units(c_own.u_linear, tier, confs1((1, 2, 3), macs=((C, N),)) + confs1((2, 4), macs=((),)) + EXTRA1[:2] + [(2, 2, 'un', (C, N), '17'), (2, 1, 'uu', (), '11')], per=one)
        us += [('opaque value type %s' % c_cfg.mname(mac, std, cc), c_cfg.u_opaque, (cc, std, mac, [(1, 0), (1, 3), (2, 2), (3, 1)]), 300) for cc, std in (('clang', '11'), ('gcc', '14'), ('clang', '17'), ('gcc', '20')) for mac in ((), (C, N), ('INTP_MULTITHREAD', 'INTP_ENABLE_ASSERTION'))]
    elif pid == 'C08': us = interp_units(c_build.u_interp, tier) + conv_units(pid, tier)
    elif pid == 'C09':
        us = fun_units(c_own.u_pure, tier, confs1((0, 1, 2, 3)) + EXTRA1 + [(2, 2, 'un', (C, N), '17'), (2, 2, 'uu', (), '17')], per=one)
    elif pid == 'C10':
        us = fun_units(c_own.u_owns, tier, confs1((1, 2, 3), macs=((C, N),)) + confs1((2,), macs=((),)) + EXTRA1 + [(2, 2, 'un', (C, N), '17'), (2, 1, 'nu', (), '11')], per=one)
    elif pid == 'C11':
        us = fun_units(c_own.u_reuse, tier, confs1((0, 1, 2, 3), macs=((C, N),)) + confs1((3,), macs=((), (N,))) + EXTRA1 + [(2, 2, 'un', (C, N), '17'), (2, 2, 'uu', (), '11')], per=one)
    elif pid == 'C12':
        us = fun_units(c_own.u_inputs, tier, confs1((1, 2, 3)) + EXTRA1 + [(2, 2, 'un', (C, N), '17'), (2, 3, 'nu', (), '17'), (3, 1, 'uuu', (C, N), '17')], per=one)
        us += conv_units(pid, tier)
        us += [('BSpline inputs %dD order %d %s' % (D, O, c_build.mname(mac, std)), c_own.u_bsinputs, (D, O, mac, std), 300) for D, O in ((1, 3), (2, 2), (1, 0), (3, 1)) for mac in ((), (C,)) for std in (('17', '11') if D < 3 else ('17',))]
        us += [('matrices %s c++%s' % ('extended' if e else 'plain', std), c_mesh.u_lu, (e, [(1, 0, 0), (5, 1, 2), (5, 2, 2)], (), std), 400) for e in (False, True) for std in ('11', '17')]
    elif pid == 'C13': us = mesh_units(tier)
    elif pid == 'C14': us = band_units(c_mesh.u_band, tier)
    elif pid == 'C15': us = band_units(c_mesh.u_lu, tier)
    elif pid == 'C16': us = c_cfg.units(tier)
    elif pid == 'C17': us = c_same.units(tier)
    elif pid == 'C18': us = c_assert.units(tier)
    elif pid in ('C19', 'C20', 'C21'): us = pool.units(pid, tier)
    elif pid in ('C22', 'C23'): us = sect.units(pid, tier)
    elif pid == 'C24':
        us = [('allocate %s align %s c++17' % (t[0], a), alloc.u_alloc, t + (a, v, '17'), 200) for t in alloc.TYPES for a, v in alloc.ALIGN]
        us += [('allocate %s align %s c++%s' % (t[0], a, std), alloc.u_alloc, t + (a, v, std), 200) for t in (alloc.TYPES if T else [alloc.TYPES[i] for i in (1, 4, 6)]) for a, v in alloc.ALIGN for std in ('11', '14', '20')]
        us += [('types c++' + std, alloc.u_static, (std,), 100) for std in ('11', '14', '17', '20')]
    elif pid == 'C25': us = cell_units(tier)
    elif pid == 'C26': us = interp_units(c_fun.u_knots, tier) + conv_units(pid, tier)
    elif pid == 'C27':
        us = fun_units(c_fun.u_proxy, tier, confs1((0, 1, 2, 3, 4), macs=((C, N),)) + confs1((2, 3), macs=((C,),)) + [(1, 3, 'u', (C, N), '11'), (1, 2, 'n', (C, N), '14'), (1, 3, 'u', (C,), '20')]
                       + [(2, 2, 'un', (C, N), '17'), (2, 3, 'uu', (C,), '14'), (2, 1, 'nn', (C, N), '11'), (3, 1, 'uuu', (C, N), '17')], per=lambda D: None if D < 3 else [[0, 1, 0], [1, 0, 0]])
    else: return None, m
    return us, m

