"""C17 maximize_buckling_load: every configuration of a lattice of plates, loads, edge conditions,
materials and regions; result is in the feasible region, its value is the critical load there, and no
point of an exhaustive lattice of the region is better; scaling the loads changes nothing."""
import copy
import itertools
import math
import warnings

import numpy as np

from mc import ref
from mc.core import Fail
from mc.optim import MATS, REGION, Problem
from mc.cover import cover
from mc.plates import jsonc

ID = 'C17'
E = ref._EDGES
AB = [(1., 1.), (2., 1.), (300., 450.), (1., 5.), (5., 1.), (900., 140.), (140., 900.), (1000., 1000.)]
LOADS = [(-1., 0., 0.), (0., -1., 0.), (-.5, -1., 0.), (0., 0., 1.), (-1., .5, .3), (-0.4, 0., -0.7), (-.5, 1., .2), (1., -.4, .9)]
BCS = ['PINNED', 'CLAMPED', dict(zip(E, ('clamped', 'pinned', 'free', 'pinned')))]
SCALES = [1., 250., 0.01]
MN = {'quick': [(3, 2), (2, 3)], 'thorough': [(3, 2), (2, 3), (3, 3), (4, 3), (4, 4), (1, 1), (1, 3)]}
BLOCKS = 90
DEPTH = {'quick': 3, 'thorough': 4}
SLACK = 0.02  # where two modes are critical nearly at once the solver may stall
SIMPLE = 0.002


BCS2 = BCS + [{'x0': ['TZ', 'RZ'], 'xa': ['TZ'], 'y0': ['TX', 'TZ'], 'yb': ['TZ', 'RZ', 'RX']}, dict(zip(E, ('pinned', 'free', 'Clamped', 'clamped')))]
MN2 = [(3, 2), (2, 3), (3, 3), (4, 2)]
SCALES2 = SCALES + [1e5]
THICK2 = [0.01, 2.5, 30.]


def dims():
    return [len(AB), len(LOADS), len(BCS2), 2, 3, len(MN2), len(SCALES2), len(THICK2)]


def prepare(tier):
    ref.integrals()
    cover(dims(), DEPTH[tier])


def BOUNDS(tier):
    return {'a_b': AB, 'loads': LOADS, 'edge_conditions': len(BCS), 'regions': ['triangle', 'parabola'],
            'load_scales': SCALES, 'materials': list(MATS), 'basis': MN[tier], 'region_lattice_step': 0.1,
            'every_%d_of' % DEPTH[tier]: {'a_b': AB, 'loads': LOADS, 'edge_conditions': len(BCS2), 'regions': 2, 'materials': 3, 'basis': MN2, 'load_scales': SCALES2, 'thickness': THICK2},
            'accepted_shortfall': SLACK, 'accepted_shortfall_of_a_simple_mode': SIMPLE,
            'solver_limits': LIMITS, 'problems_per_limit': len(list(limits(tier))) // len(LIMITS)}


def cases(tier):
    i = 0
    for ab, N, bc, pen in itertools.product(AB, LOADS, BCS, (True, False)):
        for mn in (MN[tier] if tier != 'quick' else [MN[tier][i % 2]]):
            yield ab, N, bc, pen, list(MATS)[i % 3], mn, SCALES[i % 3], (0.01, 2.5)[i % 2]
            i += 1
    for ab, N, bc, pen, k, mn, sc, t in cover(dims(), DEPTH[tier]):
        yield AB[ab], LOADS[N], BCS2[bc], not pen, list(MATS)[k], MN2[mn], SCALES2[sc], THICK2[t]
    for sc in SCALES + [1e6, -1.]:
        yield AB[1], tuple(x for x in LOADS[2 if sc > 0 else 3]), BCS[0], True, 'cfrp', (3, 3), sc, 1.0


def shards(tier):
    return [{'tier': tier, 'block': b} for b in range(BLOCKS)]


LIMITS = [{'options': {'maxiter': k}} for k in (1, 2, 3, 4, 6)] + [{'tol': 1e9}, {'options': {'ftol': 1e9}}, {'tol': 1e-2}, {'options': {'ftol': 1e-10}},
                                                                  {'tol': 1e-4, 'options': {'maxiter': 2}}, {'options': {}}]


def limits(tier):
    for i, (ab, N, bc, pen, l) in enumerate(itertools.product(AB[:5] if tier == 'quick' else AB, LOADS[::2] if tier == 'quick' else LOADS,
                                                              BCS[:2] if tier == 'quick' else BCS, (True, False), range(len(LIMITS)))):
        yield ab, N, bc, pen, list(MATS)[i % 3], (3, 2), SCALES[i % 3], (0.01, 2.5)[i % 2], l


def limited(nit, limit):
    """the solver kept to the limits it was given"""
    k = limit.get('options', {}).get('maxiter')
    if k is not None and nit > k:
        return '%d iterations, %d were allowed' % (nit, k)
    if max(limit.get('tol', 0), limit.get('options', {}).get('ftol', 0)) > 1e8 and nit > 2:
        return '%d iterations, any point was good enough' % nit


def stopped(ab, N, bc, pen, mat, mn, scale, T, l):
    p = Problem(ab, mat, [v * scale for v in N], bc, mn)
    if p.unit(0, 0) == math.inf or p.best(pen) == math.inf:
        return
    r = solve(ab, N, bc, pen, mat, mn, scale, T, **copy.deepcopy(LIMITS[l]))
    x, y = map(float, r.x)
    if REGION[pen](x, y) > -1e-3 and max(abs(x), abs(y)) <= 1 + 1e-6:
        want = p.unit(x, y) * T ** 3
        if not abs(-r.fun - want) <= 1e-4 * abs(want):
            return 'value %r at the point returned, critical normalised load there is %r' % (-r.fun, want)
    return limited(r.nit, LIMITS[l])


def solve(ab, N, bc, pen, mat, mn, scale, T, **kw):
    from composipy.optimize import maximize_buckling_load
    m = MATS[mat]
    if not pen:
        kw['penalty'] = False
    if bc != 'PINNED':
        kw['panel_constraint'] = bc
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return maximize_buckling_load(ab[0], ab[1], T, m.e1, m.e2, m.v12, m.g12, Nxx=N[0] * scale, Nyy=N[1] * scale,
                                      Nxy=N[2] * scale, m=mn[0], n=mn[1], **kw)


def one(ab, N, bc, pen, mat, mn, scale, T):
    p = Problem(ab, mat, [v * scale for v in N], bc, mn)
    best = p.best(pen) * T ** 3
    if best == math.inf:
        return  # tension keeps some laminate from buckling at any load
    r = solve(ab, N, bc, pen, mat, mn, scale, T)
    x, y = map(float, r.x)
    if max(abs(x), abs(y)) > 1 + 1e-6 or REGION[pen](x, y) < -1e-3:
        raise Fail('optimum (%g, %g) is outside the %s' % (x, y, 'triangle' if pen else 'parabola'))
    want = p.unit(x, y) * T ** 3
    if not abs(-r.fun - want) <= 1e-4 * abs(want):
        raise Fail('value %r at the optimum, critical normalised load there is %r' % (-r.fun, want))
    x, y = min(1, max(-1, x)), min(1, max(-1, y))
    slack = SIMPLE if min(p.gap(x, y), p.gap(*p.at)) > 0.02 else SLACK
    if -r.fun < (1 - slack) * best:
        raise Fail('optimum %r, but the region holds a laminate with %r' % (-r.fun, best))


def explore(shard, rec):
    if shard['block'] == 0:
        for s in itertools.product((-1., 0., 0.5), repeat=3):
            rec.state()
            rec.run({'warn': s}, lambda: warn(s))
    explore_limits(shard, rec)
    for i, c in enumerate(cases(shard['tier'])):
        if i % BLOCKS != shard['block']:
            continue
        if rec.full:
            return
        rec.state()
        rec.step(442)
        rec.run({'c': [c[0], c[1], jsonc(c[2])] + list(c[3:])}, lambda: one(*c))


def explore_limits(shard, rec):
    for i, c in enumerate(limits(shard['tier'])):
        if i % BLOCKS == shard['block'] and not rec.full:
            rec.state()
            rec.step(LIMITS[c[-1]].get('options', {}).get('maxiter', 1))
            rec.run({'limit': [c[0], c[1], jsonc(c[2])] + list(c[3:])}, lambda: stopped(*c))


def warn(N):
    """a load that cannot make the plate buckle is announced before optimising"""
    if not any(N):
        return None
    from composipy.optimize import maximize_buckling_load
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        try:
            maximize_buckling_load(1., 1., 1., 1000., 900., 0.1, 300., *N, m=1, n=1)
        except Exception:
            pass
    said = any('negative' in str(x.message) for x in w)
    if said != (N[0] >= 0 and N[1] >= 0 and N[2] == 0):
        return 'loads %s: %s warning about loads without compression' % (N, 'a' if said else 'no')


def replay(case, rec):
    if 'warn' in case:
        rec.run(case, lambda: warn(tuple(case['warn'])))
    elif 'limit' in case:
        c = case['limit']
        rec.run(case, lambda: stopped(tuple(c[0]), tuple(c[1]), *c[2:5], tuple(c[5]), *c[6:]))
    else:
        c = case['c']
        rec.run(case, lambda: one(tuple(c[0]), tuple(c[1]), *c[2:5], tuple(c[5]), *c[6:]))
