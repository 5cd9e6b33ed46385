"""C08 the displacement basis: every pair of shape functions (all 30) in x and in y through every
energy term of the plate (one stiffness component at a time), and the product functions evaluated on
a grid, the functions one by one and the published integrals pair by pair; oracle: exact rational integration of the published hierarchical polynomials."""
import itertools

import numpy as np

from mc import ref
from mc.core import Fail
from mc.plates import COMPONENTS, Given, KTOL, check_bend, check_full, plate
from mc.real import need

ID = 'C08'
FREE = {e: 'free' for e in ref._EDGES}
# constraint patterns for the short direction, so its factors are different functions too
ENDS = {'quick': ['free'], 'thorough': ['free', 'pinned', 'clamped']}
TERMS = ['A11', 'A12', 'A16', 'A26', 'A66', 'A22', 'B11', 'B12', 'B16', 'B22', 'B26', 'B66', 'D11', 'D12', 'D16', 'D22', 'D26', 'D66']


def BOUNDS(tier):
    return {'functions': 30, 'terms': TERMS, 'short_direction': ENDS[tier], 'surface_points': 5}


def prepare(tier):
    ref.integrals()


def shards(tier):
    out = [{'kind': 'gram', 'comp': c, 'dir': d, 'end': e} for e in ENDS[tier] for c in TERMS for d in 'xy']
    out += [{'kind': 'surface', 'rows': [i, i + 5]} for i in range(0, 30, 5)]
    out += [{'kind': 'single', 'i': i} for i in range(30)]
    out += [{'kind': 'lookup', 'p': p, 'q': q} for p in range(3) for q in range(3)]
    out += [{'kind': 'load', 'comp': c, 'dir': d} for c in range(3) for d in 'xy']
    return out


def gram(comp, d, end):
    c = dict(FREE)
    short = ('y0', 'yb') if d == 'x' else ('x0', 'xa')
    for e in short:
        c[e] = end
    m, n = (30, 1) if d == 'x' else (1, 30)
    check_full(COMPONENTS[comp], 1., 1., c, (0, 0, 0), m, n, kg=False)


def load(comp, d):
    N = [0., 0., 0.]
    N[comp] = 1.
    m, n = (30, 1) if d == 'x' else (1, 30)
    check_bend(COMPONENTS['D11'][3:, 3:], 1., 1., FREE, N, m, n)


PTS = [-1.0, -0.45, 0.0, 0.3, 1.0]


def surface(i):
    try:
        from composipy.pre_integrated_component.functions import sxieta
    except ImportError:
        return None
    idx = [(i, j) for j in range(30)]
    for x in PTS:
        for y in PTS:
            got = np.asarray(sxieta(idx, x, y), float)
            fx = float(ref.fval(i, x))
            want = np.array([fx * float(ref.fval(j, y)) for j in range(30)])
            need(ref.close(got, want, np.full(30, 1.0), 1e-6), 'product functions (%d, j) at (%g, %g)' % (i, x, y))


def single(i):
    """the functions one by one"""
    try:
        from composipy.pre_integrated_component.functions import fxi
    except ImportError:
        return None
    for k in range(-10, 11):
        x = k / 10
        got = float(fxi(i, x))
        need(ref.close(got, float(ref.fval(i, x)), 1.0, 1e-6), 'function %d at %g' % (i, x))


LOOKUP = [['ii_ff', 'ii_f_fxi', 'ii_f_fxixi'], ['ii_fxi_f', 'ii_fxi_fxi', 'ii_fxi_fxixi'],
          ['ii_fxixi_f', 'ii_fxixi_fxi', 'ii_fxixi_fxixi']]


def lookup(p, q):
    """the published integrals of the products of derivatives p and q, pair by pair"""
    from composipy.pre_integrated_component import functions
    f = getattr(functions, LOOKUP[p][q], None)
    if f is None:
        return None
    I = ref.integrals()
    nf = I.shape[2]
    scale = np.sqrt(np.outer(np.diag(I[p, p]), np.diag(I[q, q]))) + 1e-300
    got = np.array([[float(f((i, k))) for k in range(nf)] for i in range(nf)])
    need(ref.close(got, I[p, q], scale, KTOL), '%s over all pairs' % LOOKUP[p][q])


def explore(shard, rec):
    if shard['kind'] == 'gram':
        if rec.run(shard, lambda: gram(shard['comp'], shard['dir'], shard['end'])):
            rec.state(30 * 30)
            rec.step(9 * 30 * 30)
            rec.count('entries_compared', 90 * 90)
    elif shard['kind'] == 'lookup':
        if rec.run(shard, lambda: lookup(shard['p'], shard['q'])):
            rec.state(30 * 30)
            rec.step(30 * 30)
    elif shard['kind'] == 'single':
        if rec.run(shard, lambda: single(shard['i'])):
            rec.state()
            rec.step(21)
    elif shard['kind'] == 'load':
        if rec.run(shard, lambda: load(shard['comp'], shard['dir'])):
            rec.state(30 * 30)
            rec.step(30 * 30)
    else:
        for i in range(*shard['rows']):
            if rec.run({'kind': 'one_surface', 'i': i}, lambda: surface(i)):
                rec.state(30)
                rec.step(30 * len(PTS) ** 2)


def replay(case, rec):
    if case['kind'] == 'one_surface':
        rec.run(case, lambda: surface(case['i']))
    else:
        explore(case, rec)
