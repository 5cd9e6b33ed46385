"""C22 the plot of the buckling optimisation: every panel, load, edge condition, region and number of
points of a lattice; what is drawn is read off the figure and compared, grid point by grid point, with the
reference critical load, and the result with the one obtained without a plot."""
import contextlib
import io
import itertools
import warnings

import numpy as np

from mc import ref
from mc.core import Fail
from mc.optim import MATS, REGION, Problem
from mc.cover import cover
from mc.plates import jsonc

ID = 'C22'
E = ref._EDGES
AB = [(1., 1.), (2., 0.8), (300., 450.)]
LOADS = [(-1., 0., 0.), (0., -1., 0.), (-.5, -1., 0.), (0., 0., 1.), (-1., .5, .3), (-250., 0., 40.)]
BCS = ['PINNED', 'CLAMPED', dict(zip(E, ('clamped', 'pinned', 'free', 'pinned')))]
POINTS = {'quick': [4, 7, 9], 'thorough': [3, 4, 5, 8, 11, 12, 21]}
MN = [(2, 3), (3, 2)]


DEPTH = {'quick': 3, 'thorough': 4}
BCS2 = BCS + [{'x0': ['TZ', 'RZ'], 'xa': ['TZ'], 'y0': ['TX', 'TZ'], 'yb': ['TZ', 'RZ', 'RX']}, dict(zip(E, ('pinned', 'free', 'Clamped', 'clamped')))]
MN2 = [(3, 2), (2, 3), (3, 3), (4, 2)]
THICK2 = [0.01, 2.5, 30.]
POINTS2 = [4, 5, 7, 8]


def dims():
    return [len(AB), len(LOADS), len(BCS2), 2, 3, len(MN2), len(THICK2), len(POINTS2)]


def prepare(tier):
    ref.integrals()
    cover(dims(), DEPTH[tier])


def BOUNDS(tier):
    return {'a_b': AB, 'loads': LOADS, 'edge_conditions': len(BCS), 'regions': ['triangle', 'parabola'],
            'points': POINTS[tier], 'materials': list(MATS), 'basis': MN,
            'every_%d_of' % DEPTH[tier]: {'a_b': AB, 'loads': LOADS, 'edge_conditions': len(BCS2), 'regions': 2, 'materials': 3, 'basis': MN2, 'thickness': THICK2, 'points': POINTS2}}


def cases(tier):
    i = 0
    for ab, N, bc, pen in itertools.product(AB, LOADS, BCS, (True, False)):
        for pts in (POINTS[tier] if tier != 'quick' else [POINTS[tier][(i + i // 3) % 3]]):
            yield ab, N, bc, pen, list(MATS)[i % 3], MN[i % 2], (0.01, 2.5)[i % 2], pts
            i += 1
    for ab, N, bc, pen, k, mn, t, pts in cover(dims(), DEPTH[tier]):
        yield AB[ab], LOADS[N], BCS2[bc], not pen, list(MATS)[k], MN2[mn], THICK2[t], POINTS2[pts]


def shards(tier):
    return [{'tier': tier, 'block': b} for b in range(36)]


def solve(ab, N, bc, pen, mat, mn, T, **kw):
    from composipy.optimize import maximize_buckling_load
    m = MATS[mat]
    if not pen:
        kw['penalty'] = False
    if bc != 'PINNED':
        kw['panel_constraint'] = bc
    with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter('ignore')
        return maximize_buckling_load(ab[0], ab[1], T, m.e1, m.e2, m.v12, m.g12, Nxx=N[0], Nyy=N[1], Nxy=N[2],
                                      m=mn[0], n=mn[1], **kw)


@contextlib.contextmanager
def watched():
    """what is given to the contour functions of matplotlib"""
    from matplotlib.axes import Axes
    seen = []
    keep = {}
    for name in ('contour', 'contourf'):
        keep[name] = getattr(Axes, name)

        def spy(self, *a, _f=keep[name], **kw):
            if len(a) >= 3:
                seen.append([np.ma.filled(np.ma.asarray(x, float), np.nan) for x in a[:3]])
            return _f(self, *a, **kw)
        setattr(Axes, name, spy)
    try:
        yield seen
    finally:
        for name, f in keep.items():
            setattr(Axes, name, f)


def one(ab, N, bc, pen, mat, mn, T, pts):
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    plt.close('all')
    r0 = solve(ab, N, bc, pen, mat, mn, T)
    if plt.get_fignums():
        raise Fail('a figure is made though no plot is asked for')
    with watched() as seen:
        r = solve(ab, N, bc, pen, mat, mn, T, plot=True, points_to_plot=pts)
    if not (np.allclose(r.x, r0.x, rtol=0, atol=1e-9) and abs(r.fun - r0.fun) <= 1e-9 * abs(r0.fun)):
        raise Fail('result with a plot %s %r, without %s %r' % (list(r.x), r.fun, list(r0.x), r0.fun))
    figs = [plt.figure(k) for k in plt.get_fignums()]
    axes = [a for f in figs for a in f.axes]
    if not axes or not seen:
        raise Fail('nothing is plotted')
    X, Y, Z = seen[0]
    if X.ndim == 1:
        X, Y = np.meshgrid(X, Y)
    if not X.shape == Y.shape == Z.shape == (pts, pts):
        raise Fail('grid of %s for %d points' % (Z.shape, pts))
    line = np.linspace(-1, 1, pts)
    have = sorted((round(float(x), 9) + 0., round(float(y), 9) + 0.) for x, y in zip(X.flat, Y.flat))
    if have != sorted((round(float(x), 9) + 0., round(float(y), 9) + 0.) for x in line for y in line):
        raise Fail('the grid does not cover the parameters from -1 to 1')
    p = Problem(ab, mat, N, bc, mn)
    inside = 0
    for x, y, z in zip(X.flat, Y.flat, Z.flat):
        g = REGION[pen](x, y)
        if g < -1e-9:
            if not np.isnan(z):
                raise Fail('value %r at (%g, %g), outside the region' % (z, x, y))
        elif g > 1e-9 or g == 0 and (pts - 1) & (pts - 2) == 0:  # on the boundary, where the grid hits it exactly
            want = p.unit(x, y) * T ** 3
            if not abs(z - want / p.norm) <= 1e-4 * abs(want / p.norm):
                raise Fail('value %r at (%g, %g), critical factor there is %r' % (z, x, y, want / p.norm))
            inside += 1
    lines = [np.array(l.get_xydata(), float) for a in axes for l in a.get_lines()]
    opt = [d for d in lines if len(d) == 1]
    if not any(np.allclose(d[0], r.x, atol=1e-9) for d in opt):
        raise Fail('optimum %s is not marked (marks at %s)' % (list(r.x), [list(d[0]) for d in opt]))
    edge = [d for d in lines if len(d) > 1]
    for d in edge:
        for x, y in d:
            if abs(REGION[pen](x, y)) > 1e-9:
                raise Fail('the boundary drawn passes (%g, %g), which is not on the boundary of the region' % (x, y))
    if edge:
        xs = np.concatenate(edge)[:, 0]
        if xs.min() > -1 + 1e-9 or xs.max() < 1 - 1e-9:
            raise Fail('the boundary is drawn from %g to %g only' % (xs.min(), xs.max()))
    plt.close('all')
    return inside


def explore(shard, rec):
    for i, c in enumerate(cases(shard['tier'])):
        if i % 36 != shard['block']:
            continue
        if rec.full:
            return
        rec.state()
        rec.step(c[-1] ** 2)
        box = []
        if rec.run({'c': [c[0], c[1], jsonc(c[2])] + list(c[3:])}, lambda: box.append(one(*c))):
            rec.count('values_compared', box[0])
            rec.outcome((c[-1], box[0]))


def replay(case, rec):
    c = case['c']
    rec.run(case, lambda: one(tuple(c[0]), tuple(c[1]), *c[2:5], tuple(c[5]), *c[6:]) and None)
