"""C18 minimize_panel_weight: every configuration of a lattice of plates, loads, edge conditions,
materials and starting points; the panel returned carries the load, its parameters are feasible, and no
laminate of an exhaustive lattice of the region carries it with less thickness."""
import copy
import itertools
import math
import warnings

from mc import ref
from mc.core import Fail
from mc.optim import MATS, REGION, Problem
from mc.cover import cover
from mc.plates import jsonc

ID = 'C18'
E = ref._EDGES
CASES_ = [((360., 360.), 'si'), ((1., 1.), 'cfrp'), ((500., 250.), 'cfrp'), ((1., 5.), 'cfrp'), ((5., 1.), 'gfrp'), ((900., 140.), 'gfrp'),
          ((140., 900.), 'si'), ((1000., 1000.), 'cfrp'), ((.3, .5), 'gfrp'), ((300., 450.), 'si'), ((.3, .2), 'si'), ((.05, .1), 'gfrp')]
LOADS = [(-100., 0., 0.), (-50., -100., 0.), (0., 0., 60.), (-30., 10., 20.), (0., -1e4, 0.), (-0.5, -0.2, 0.), (-2e3, 0., 900.)]
BCS = ['PINNED', 'CLAMPED', dict(zip(E, ('clamped', 'pinned', 'pinned', 'clamped')))]
START = [None, [1.0, 0., 0.], [0.1, 0.2, 0.1], [0.001, -0.1, 0.3], [20., 0., 0.]]
MN = {'quick': [(3, 2), (2, 3), (3, 3)], 'thorough': [(3, 2), (2, 3), (3, 3), (4, 2), (4, 4), (1, 1)]}
BLOCKS = 90
SLACK = 0.02  # where two modes are critical nearly at once the solver may stall
SIMPLE = 0.004


DEPTH = {'quick': 2, 'thorough': 3}
BCS2 = BCS + [{'x0': ['TZ', 'RZ'], 'xa': ['TZ'], 'y0': ['TX', 'TZ'], 'yb': ['TZ', 'RZ', 'RX']}, dict(zip(E, ('pinned', 'free', 'Clamped', 'clamped')))]
MN2 = [(3, 2), (2, 3), (3, 3), (4, 2)]


def dims():
    return [len(CASES_), len(LOADS), len(BCS2), len(START), len(MN2)]


def prepare(tier):
    ref.integrals()
    cover(dims(), DEPTH[tier])


def BOUNDS(tier):
    return {'plates': CASES_, 'loads': LOADS, 'edge_conditions': len(BCS), 'starting_points': START, 'per_combination': len(START) if tier != 'quick' else 2,
            'every_%d_of' % DEPTH[tier]: {'plates': len(CASES_), 'loads': LOADS, 'edge_conditions': len(BCS2), 'starting_points': len(START), 'basis': MN2},
            'basis': MN[tier], 'region_lattice_step': 0.1, 'accepted_excess_thickness': SLACK, 'accepted_excess_of_a_simple_mode': SIMPLE,
            'problems_stopped_early': len(list(limits(tier)))}


def cases(tier):
    i = 0
    for (ab, mat), N, bc, s in itertools.product(CASES_, LOADS, BCS, range(len(START) if tier != 'quick' else 2)):
        x0 = START[s if tier != 'quick' else (i + i // 10) % 5]
        for mn in (MN[tier] if tier != 'quick' else [MN[tier][i % 2 + (i % 7 == 0)]]):
            yield ab, mat, N, bc, x0, mn
        i += 1
    for p, N, bc, s, mn in cover(dims(), DEPTH[tier]):
        yield CASES_[p][0], CASES_[p][1], LOADS[N], BCS2[bc], START[s], MN2[mn]


def limits(tier):
    from mc.c17 import LIMITS
    for i, ((ab, mat), N, bc, x0, l) in enumerate(itertools.product(CASES_[:6] if tier == 'quick' else CASES_, LOADS[::3] if tier == 'quick' else LOADS, BCS[:2],
                                                                    START[:3], range(len(LIMITS)))):
        yield ab, mat, N, bc, x0, (3, 2), l


def stopped(ab, mat, N, bc, x0, mn, l):
    from mc.c17 import LIMITS, limited
    p = Problem(ab, mat, N, bc, mn)
    if p.unit(0, 0) == math.inf:
        return
    r = solve(ab, mat, N, bc, x0, mn, **copy.deepcopy(LIMITS[l]))
    T = float(r.x[0])
    if not abs(r.fun - T ** 3) <= 1e-9 * abs(T) ** 3:
        return 'objective %r for thickness %r' % (r.fun, T)
    return limited(r.nit, LIMITS[l])


def solve(ab, mat, N, bc, x0, mn, **kw):
    from composipy.optimize import minimize_panel_weight
    m = MATS[mat]
    if x0 is not None:
        kw['x0'] = list(x0)
    if bc != 'PINNED':
        kw['panel_constraint'] = bc
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return minimize_panel_weight(ab[0], ab[1], m.e1, m.e2, m.v12, m.g12, *N, m=mn[0], n=mn[1], **kw)


def shards(tier):
    return [{'tier': tier, 'block': b} for b in range(BLOCKS)]


def one(ab, mat, N, bc, x0, mn):
    p = Problem(ab, mat, N, bc, mn)
    if p.unit(0, 0) == math.inf:
        return  # the load does not destabilise this basis
    r = solve(ab, mat, N, bc, x0, mn)
    T, x, y = map(float, r.x)
    if not abs(r.fun - T ** 3) <= 1e-9 * T ** 3:
        raise Fail('objective %r for thickness %r' % (r.fun, T))
    least = (p.norm / p.best(True)) ** (1 / 3)
    if max(abs(x), abs(y)) > 1 + 1e-6 or REGION[True](x, y) < -1e-3:
        raise Fail('optimum (%g, %g) is outside the region' % (x, y))
    if max(abs(x), abs(y)) > 1:
        x, y = min(1, max(-1, x)), min(1, max(-1, y))
    cap = p.unit(x, y) * T ** 3 / p.norm
    # (where two modes are critical at once the solver may stop 0.2% short)
    simple = min(p.gap(x, y), p.gap(*p.at)) > 0.02
    if cap < (0.999 if simple else 0.99):
        raise Fail('panel of thickness %r buckles at %.4f of the load' % (T, cap))
    if T > least * (1 + (SIMPLE if simple else SLACK)):
        raise Fail('thickness %r, but %r carries the load' % (T, least))


def explore(shard, rec):
    for i, c in enumerate(limits(shard['tier'])):
        if i % BLOCKS == shard['block'] and not rec.full:
            rec.state()
            rec.step()
            rec.run({'limit': [c[0], c[1], c[2], jsonc(c[3])] + list(c[4:])}, lambda: stopped(*c))
    for i, c in enumerate(cases(shard['tier'])):
        if i % BLOCKS != shard['block']:
            continue
        if rec.full:
            return
        rec.state()
        rec.step(442)
        rec.run({'c': [c[0], c[1], c[2], jsonc(c[3])] + list(c[4:])}, lambda: one(*c))


def replay(case, rec):
    if 'limit' in case:
        c = case['limit']
        return rec.run(case, lambda: stopped(tuple(c[0]), c[1], tuple(c[2]), c[3], c[4], tuple(c[5]), c[6]))
    c = case['c']
    rec.run(case, lambda: one(tuple(c[0]), c[1], tuple(c[2]), c[3], c[4], tuple(c[5])))
