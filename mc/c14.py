"""C14 mode shape plot: every configuration of a lattice of plates, grids, mode numbers and preceding
calls; the drawn surface is the deflection of the requested mode over the plate."""
import itertools

import numpy as np

from mc import ref
from mc.c10 import AB2, BCS2, LAMS2 as LAMS
from mc.core import Fail
from mc.cover import cover
from mc.plates import jsonc, plate
from mc.real import laminate, model, need

ID = 'C14'
E = ref._EDGES
AB = [(1., 1.), (2., 0.5), (300., 1000.)]
BCS = ['PINNED', 'CLAMPED', dict(zip(E, ('clamped', 'free', 'pinned', 'pinned'))), dict(zip(E, ('pinned', 'clamped', 'free', 'pinned')))]
LOADS = [(-1., 0., 0.), (0., -2., 0.5), (0., 0., 1.), (-300., 50., -80.), (-1e-3, -2e-3, 0.)]
NTH = [0, 1, 2, 3, 4, 6, 9]
SIZES2 = {'quick': [(1, 1), (2, 2), (3, 2), (2, 4), (5, 1), (1, 6)], 'thorough': [(1, 1), (2, 2), (3, 2), (2, 4), (5, 1), (1, 6), (4, 4), (6, 3), (3, 7)]}
DEPTH = {'quick': 3, 'thorough': 4}
BLOCKS = 48
GRIDS = [(20, 20), (3, 3), (4, 7), (9, 5), (2, 6), (1, 4), (5, 1), (6, 6)]
OPS = ['K_D', 'an1', 'K_ABD', 'an2', 'an6', 'plot0', 'other']
SIZES = {'quick': [(2, 2), (3, 2), (2, 4)], 'thorough': [(2, 2), (3, 2), (2, 4), (4, 4), (6, 3), (3, 7)]}
LARGE = {'quick': [((8, 8), 'CLAMPED'), ((9, 7), 'PINNED'), ((7, 9), 'PINNED'), ((2, 20), 'CLAMPED'), ((20, 2), 'PINNED')],
         'thorough': [((10, 10), 'CLAMPED'), ((14, 13), 'PINNED'), ((2, 26), 'CLAMPED'), ((26, 2), 'CLAMPED'), ((3, 24), 'PINNED'), ((24, 3), 'PINNED'), ((1, 26), 'CLAMPED')]}
HIST = {'quick': 2, 'thorough': 3}


def prepare(tier):
    ref.integrals()
    cover(dims(tier), DEPTH[tier])


def dims(tier):
    return [len(x) for x in (SIZES2[tier], AB2, BCS2, LOADS, LAMS, GRIDS, NTH)]


def BOUNDS(tier):
    return {'grids': GRIDS, 'sizes': SIZES[tier], 'a_b': AB, 'edge_conditions': len(BCS), 'loads': LOADS,
            'preceding_calls': OPS, 'history_length': HIST[tier], 'large_bases': [m for m, _ in LARGE[tier]],
            'every_%d_of' % DEPTH[tier]: {'sizes': SIZES2[tier], 'a_b': AB2, 'edge_conditions': len(BCS2), 'loads': LOADS,
                                          'laminates': len(LAMS), 'grids': GRIDS, 'modes': NTH}}


def draw(p, **kw):
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    from mpl_toolkits.mplot3d import axes3d
    got = []
    old, show = axes3d.Axes3D.plot_surface, plt.show

    def spy(self, X, Y, Z, *a, **k):
        got.append(tuple(np.array(v, float) for v in (X, Y, Z)))
    axes3d.Axes3D.plot_surface = spy
    plt.show = lambda *a, **k: None
    try:
        p.plot_eigenvalue(**kw)
    finally:
        axes3d.Axes3D.plot_surface, plt.show = old, show
        plt.close('all')
    if len(got) != 1:
        raise Fail('%d surfaces drawn' % len(got))
    return got[0]


def mode_at(idx, c, a, b, X, Y):
    fx, fy = {}, {}
    out = np.zeros(X.shape)
    for p in np.ndindex(X.shape):
        xi, eta = 2 * X[p] / a - 1, 2 * Y[p] / b - 1
        key = round(xi, 12)
        if key not in fx:
            fx[key] = {i: float(ref.fval(i, xi)) for i in idx[0]}
        ke = round(eta, 12)
        if ke not in fy:
            fy[ke] = {j: float(ref.fval(j, eta)) for j in idx[1]}
        out[p] = sum(cc * fx[key][i] * fy[ke][j] for cc, (i, j) in zip(c, itertools.product(*idx)))
    return out


def idle(mn, ab, bc, N, lam):
    """the loads do no work on this basis: there is no factor and no mode"""
    D = model([tuple(x) for x in LAMS[lam]]).ABD()[3:, 3:]
    adm = ref.admissible(bc, *mn)[2]
    K, _ = ref.K_bend(D, *ab, adm)
    N = np.array(N) / np.abs(N).max()
    return np.abs(ref.factors(K, ref.KG_bend(*N, *ab, adm)[0])).max() < 1e-6 * ref.factors(K, ref.KG_bend(-1, -1, 0, *ab, adm)[0])[0]


def one(mn, ab, bc, load, lam, grid, nth, ops):
    if idle(mn, ab, bc, LOADS[load], lam):
        return None
    p = plate(laminate([tuple(x) for x in LAMS[lam]]), *ab, bc, LOADS[load], *mn)
    k = None
    for op in ops:
        if op == 'K_D':
            p.calc_K_KG_D()
        elif op == 'K_ABD':
            p.calc_K_KG_ABD()
        elif op == 'other':
            # another plate is analysed and plotted while this one is in use
            q = plate(laminate([(0, 'alu'), (30, 'cfrp')]), 1., 1.7, 'PINNED' if bc == 'CLAMPED' else 'CLAMPED', (-1., -.5, 0.), *mn[::-1])
            q.buckling_analysis(num_eigvalues=2)
            q.calc_K_KG_ABD()
            draw(q, ngridx=2, ngridy=3)
        elif op == 'plot0':
            draw(p, ngridx=3, ngridy=2)
            k = k or 5
        else:
            k = int(op[2:])
            vals, vecs = p.buckling_analysis(num_eigvalues=k)
    gx, gy = grid
    kw = {} if grid == (20, 20) else {'ngridx': gx, 'ngridy': gy}
    if nth or gx == 4:
        kw['nth'] = nth
    size = mn[0] * mn[1]
    nth = kw.get('nth', 0)
    if nth >= size:
        return None
    X, Y, Z = draw(p, **kw)
    vec = np.array(p.eigenvector, float)
    if k and nth < min(k, size) and 'plot0' not in ops and not np.allclose(vec, vecs):
        raise Fail('plotting replaced the analysis that was asked for')
    if vec.shape[0] != size or vec.shape[1] <= nth or nth < min(k or 5, size) and vec.shape[1] != min(k or 5, size):
        raise Fail('eigenvectors have shape %s' % (vec.shape,))
    if not (X.shape == Y.shape == Z.shape and X.size == gx * gy):
        raise Fail('surface of shape %s, %s, %s for a %d x %d grid' % (X.shape, Y.shape, Z.shape, gx, gy))
    a, b = ab
    for V, g, s, nm in ((X, gx, a, 'x'), (Y, gy, b, 'y')):
        u = np.unique(np.round(V / s, 9))
        if len(u) != g or (g > 1 and (abs(u[0]) > 1e-9 or abs(u[-1] - 1) > 1e-9)):
            raise Fail('%s coordinates of the surface are %s' % (nm, u * s))
    # one mode of the stated boundary conditions, drawn at the stated points
    adm = ref.admissible(bc, *mn)[2]
    W = mode_at(adm, vec[:, nth], a, b, X, Y)
    sc = np.abs(vec[:, nth]).max()
    nz, nw = np.abs(Z).max(), np.abs(W).max()
    if nw > 1e-6 * sc:
        f = (Z * W).sum() / (W * W).sum()
        if f == 0 or np.abs(Z - f * W).max() > 1e-5 * abs(f) * max(nw, sc):
            raise Fail('surface is not the deflection of mode %d' % nth)


def cases(tier):
    i = 0
    for mn, ab, bc, load in itertools.product(SIZES[tier], AB, BCS, range(3)):
        for grid in (GRIDS[i % 8], GRIDS[(i + 3) % 8]):
            yield mn, ab, bc, load, i % 6, grid, (0, 1, 2, 4)[i % 4], []
            i += 1
    for h in range(1, HIST[tier] + 1):
        for ops in itertools.product(OPS, repeat=h):
            # every history with an informative grid and several modes; the index moves on unevenly so that
            # the last operation is not tied to a grid, a load or an edge condition
            for nth in (0, 1, 5):
                yield (2, 3), AB[i % 3], BCS[i % 4], i % 3, i % 6, (4, 7) if nth else (9, 5), nth, list(ops)
                i += 1
            yield (2, 3), AB[i % 3], BCS[(i // 3) % 4], i % 3, i % 6, GRIDS[1 + (i + i // 7) % 7], (0, 1, 2, 5)[(i // 5) % 4], list(ops)
            i += 1
    # high modes of large bases: every tabulated product function takes part
    for mn, bc in LARGE[tier]:
        n = mn[0] * mn[1]
        for nth in (0, n // 2, n - 1):
            yield mn, AB[i % 3], bc, 2, 2, (9, 5), nth, ['an%d' % n]
            i += 1

    for z, ab, bc, load, lam, grid, nth in cover(dims(tier), DEPTH[tier]):
        yield SIZES2[tier][z], AB2[ab], BCS2[bc], load, lam, GRIDS[grid], NTH[nth], []


def shards(tier):
    return [{'tier': tier, 'block': b} for b in range(BLOCKS)]


def explore(shard, rec):
    for i, c in enumerate(cases(shard['tier'])):
        if i % BLOCKS != shard['block']:
            continue
        if rec.full:
            return
        rec.state()
        rec.step(1 + len(c[-1]))
        rec.run({'c': [list(c[0]), c[1], jsonc(c[2])] + list(c[3:])}, lambda: one(*c))


def replay(case, rec):
    c = case['c']
    rec.run(case, lambda: one(tuple(c[0]), c[1], c[2], c[3], c[4], tuple(c[5]), c[6], c[7]))
