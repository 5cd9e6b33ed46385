"""C10 bending and geometric stiffness: every configuration of a lattice of plate size, basis size,
edge condition, laminate and load; oracle: strain energy and work of the loads, integrated exactly."""
import itertools

from mc import ref
from mc.cover import cover
from mc.core import Fail
from mc.plates import COMPONENTS, check_bend, jsonc
from mc.real import UNITS, both_in_units

ID = 'C10'
E = ref._EDGES
AB = [(1., 1.), (2., 0.5), (300, 1000.), (0.02, 7.), (45., 1.5)]
AB2 = AB + [(360, 360), (1000., 900.)]
BCS = ['PINNED', 'CLAMPED', dict(zip(E, ('clamped', 'free', 'pinned', 'free'))),
       dict(zip(E, ('pinned', 'clamped', 'free', 'clamped'))), dict(zip(E, ('free', 'pinned', 'pinned', 'clamped')))]
BCS2 = BCS + [None, {'x0': ['TZ'], 'xa': ['RX'], 'y0': ['RY', 'TX'], 'yb': ['TZ', 'RY']},
              {'x0': ['RX', 'TZ'], 'xa': ['TZ'], 'y0': ['TZ', 'RY', 'RX'], 'yb': []},
              {'x0': 'Free', 'xa': 'FIXED', 'y0': ['TZ', 'RX'], 'yb': 'Simply_Supported'}]
LAMS = [[(0, 'cfrp'), (90, 'cfrp'), (0, 'cfrp')], [(30, 'cfrp'), (-50, 'cfrp_thin'), (75, 'gfrp_thick')],
        [(45, 'e2_stiffer')], [(20, 'alu'), (-45, 'si')], [(15, 'cfrp'), (15, 'cfrp')], [(60, 'auxetic'), (0, 'nu_max')], [(45, 'cfrp'), (-45, 'cfrp'), (-45, 'cfrp'), (45, 'cfrp')],
        [(-20, 'gfrp_thick'), (20, 'gfrp_thick'), (70, 'gfrp_thick'), (-70, 'gfrp_thick')]]
SIGNS = [s for s in itertools.product((-1., 0., 1.), repeat=3)]
LAMS2 = LAMS + [[(a, 'gfrp_thick') for a in (10, -80, 33, 55, -20, 5, 71, -40, 12, 90, 44, -66)], [(70, 'soft'), (-10, 'soft'), (30, 'alu_g')]]
MAG = [(1., 1., 1.), (1e-3, 2e-3, 5e-4), (1e6, 3e5, 2e6), (7., 1., 300.), (1e-10, 4e-9, 2e-10), (3e9, 1e8, 2e10)]
SIZES = {'quick': [(1, 1), (1, 3), (4, 1), (2, 2), (2, 5), (3, 3), (5, 2), (3, 6), (6, 3)],
         'thorough': list(itertools.product(range(1, 7), repeat=2)) + [(8, 5), (5, 9), (10, 10), (12, 7)]}
SIZES2 = {'quick': SIZES['quick'] + [(1, 12), (13, 1), (26, 1), (1, 26), (4, 7), (9, 3)],
          'thorough': SIZES['thorough'] + [(1, 12), (13, 1), (26, 1), (1, 26), (3, 20), (20, 3)]}
SMALL = [(2, 2), (1, 3), (4, 1), (3, 2)]
BLOCKS = 64


def prepare(tier):
    ref.integrals()
    rows(tier)


def BOUNDS(tier):
    return {'a_b': AB, 'edge_conditions': len(BCS), 'laminates': len(LAMS), 'load_signs': 27, 'load_magnitudes': MAG,
            'sizes': SIZES[tier], 'every_three_of': {'a_b': AB2, 'edge_conditions': len(BCS2), 'laminates': len(LAMS2),
                                                     'load_signs': 27, 'load_magnitudes': MAG, 'sizes': SIZES2[tier], 'units': UNITS},
            'every_four_of': None if tier == 'quick' else {'the_same_with_sizes': SMALL}}


def dims(tier):
    return [len(SIZES2[tier]), len(AB2), len(BCS2), len(LAMS2), 27, len(MAG), len(UNITS)]


def rows(tier):
    out = [(SIZES2[tier][r[0]],) + r[1:] for r in cover(dims(tier), 3)]
    if tier != 'quick':
        out += [(SMALL[r[0]],) + r[1:] for r in cover([len(SMALL)] + dims(tier)[1:], 4)]
    return out


def cases(tier):
    i = 0
    for mn, ab, bc in itertools.product(SIZES[tier], AB, BCS):
        for lam in ((i % len(LAMS),), range(len(LAMS)))[mn == (2, 2)]:
            sg, mg = SIGNS[(7 * i + 5) % 27], MAG[i % 6]
            yield mn, ab, bc, lam, [s * x for s, x in zip(sg, mg)]
            i += 1
    for sg, mg in itertools.product(SIGNS, MAG):
        for mn, ab in (((2, 2), AB[1]), ((3, 1), AB[2])):
            yield mn, ab, BCS[i % 5], i % len(LAMS), [s * x for s, x in zip(sg, mg)]
            i += 1
    for c in ('D11', 'D12', 'D16', 'D22', 'D26', 'D66'):
        for ab, bc in itertools.product(AB, BCS):
            yield (2, 3), ab, bc, c, [0., 0., -1.]
            yield (3, 2), ab, bc, c, [-1., 0., 0.]
    for z, ab, bc, lam, sg, mg, unit in rows(tier):
        yield z, AB2[ab], BCS2[bc], lam, [x * y for x, y in zip(SIGNS[sg], MAG[mg])], unit


def shards(tier):
    return [{'tier': tier, 'block': b} for b in range(BLOCKS)]


def one(mn, ab, bc, lam, N, unit=0):
    if isinstance(lam, str):
        check_bend(COMPONENTS[lam][3:, 3:], *ab, bc, N, *mn)
    else:
        w = [tuple(x) for x in LAMS2[lam]]
        prop, st = both_in_units(w, unit)
        check_bend(st.ABD()[3:, 3:], *ab, bc, N, *mn, prop=prop)


def explore(shard, rec):
    for i, c in enumerate(cases(shard['tier'])):
        if i % BLOCKS != shard['block']:
            continue
        if rec.full:
            return
        rec.state()
        rec.step(2)
        rec.run({'mn': c[0], 'ab': c[1], 'bc': jsonc(c[2]), 'lam': c[3], 'N': c[4], 'unit': (list(c) + [0])[5]}, lambda: one(*c))


def replay(case, rec):
    rec.run(case, lambda: one(tuple(case['mn']), case['ab'], case['bc'], case['lam'], case['N'], case.get('unit', 0)))
