"""C11 stiffness of the fully coupled plate: every configuration of a lattice of plate size, basis
size, edge condition and (unsymmetric) laminate; oracle: strain energy integrated exactly; the matrix
is also symmetric, positive and blind to rigid motions."""
import itertools

import numpy as np

from mc import ref
from mc.cover import cover
from mc.core import Fail
from mc.plates import COMPONENTS, GENERIC, Given, check_full, jsonc, plate, KTOL
from mc.real import UNITS, both_in_units, laminate, need

ID = 'C11'
E = ref._EDGES
AB = [(1., 1.), (2., 0.5), (300, 1000.), (0.02, 7.), (45., 1.5)]
BCS = ['PINNED', 'CLAMPED', dict(zip(E, ('clamped', 'free', 'pinned', 'free'))),
       dict(zip(E, ('free', 'clamped', 'free', 'pinned'))),
       {'x0': ['TX', 'RY', 'TZ'], 'xa': ['TY', 'RZ'], 'y0': ['TX', 'TY', 'RX', 'RZ'], 'yb': ['RY', 'TZ']},
       dict(zip(E, ('free',) * 4))]
BCS2 = BCS + [None, {'x0': 'Simply_Supported', 'xa': ['TX', 'RZ'], 'y0': 'FREE', 'yb': ['TZ', 'TY', 'RX']},
              {'x0': ['TX'], 'xa': [], 'y0': ['TY'], 'yb': ['TZ']}]
AB2 = AB + [(360, 360), (1000., 900.)]
LAMS = [[(30, 'cfrp'), (-50, 'cfrp_thin'), (75, 'gfrp_thick')], [(0, 'cfrp'), (90, 'cfrp')],
        [(20, 'alu'), (-45, 'si')], [(0, 'cfrp'), (45, 'cfrp'), (-45, 'cfrp'), (-45, 'cfrp'), (45, 'cfrp'), (0, 'cfrp')],
        [(60, 'e2_stiffer')], [(10, 'auxetic'), (100, 'nu_max'), (45, 'alu_g')]]
LAMS2 = LAMS + [None, [(a, 'gfrp_thick') for a in (10, -80, 33, 55, -20, 5, 71, -40, 12, 90, 44, -66)], [(70, 'soft'), (-10, 'soft'), (30, 'alu_g')]]
SIGNS = list(itertools.product((-1., 0., 1.), repeat=3))
SIZES = {'quick': [(1, 1), (2, 1), (1, 3), (2, 2), (3, 2)],
         'thorough': list(itertools.product(range(1, 5), repeat=2)) + [(5, 3), (3, 5), (6, 6)]}
SIZES2 = {'quick': SIZES['quick'] + [(1, 6), (7, 1), (4, 3)], 'thorough': SIZES['thorough'] + [(1, 12), (13, 1), (26, 1), (1, 26)]}
SMALL = [(2, 2), (1, 3), (3, 1)]
BLOCKS = 64
LOAD = (-1., 2., -3.)


def prepare(tier):
    ref.integrals()
    rows(tier)


def dims(tier):
    return [len(SIZES2[tier]), len(AB2), len(BCS2), len(LAMS2), len(SIGNS), len(UNITS)]


def rows(tier):
    out = [(SIZES2[tier][r[0]],) + r[1:] for r in cover(dims(tier), 3)]
    if tier != 'quick':
        out += [(SMALL[r[0]],) + r[1:] for r in cover([len(SMALL)] + dims(tier)[1:], 4)]
    return out


def BOUNDS(tier):
    return {'a_b': AB, 'edge_conditions': len(BCS), 'laminates': len(LAMS) + 1, 'sizes': SIZES[tier],
            'single_components': len(COMPONENTS), 'pairs_of_components_far_apart': GRADES,
            'every_four_of': None if tier == 'quick' else {'the_same_with_sizes': SMALL},
            'every_three_of': {'sizes': SIZES2[tier], 'a_b': AB2, 'edge_conditions': len(BCS2), 'laminates': len(LAMS2), 'load_signs': 27, 'units': UNITS}}


def cases(tier):
    i = 0
    for mn, ab, bc in itertools.product(SIZES[tier], AB, BCS):
        for lam in ((i % 7,), range(7))[mn == (2, 1) or (tier != 'quick' and mn == (2, 2))]:
            yield mn, ab, bc, lam, LOAD
            i += 1
    for c, ab in itertools.product(COMPONENTS, AB):
        yield (2, 2), ab, BCS[i % 6], c, LOAD
        i += 1
        if tier != 'quick':
            for bc in BCS:
                yield (3, 3), ab, bc, c, LOAD

    for z, ab, bc, lam, sg, unit in rows(tier):
        yield z, AB2[ab], BCS2[bc], lam, tuple(x * y for x, y in zip(SIGNS[sg], (3., 0.4, 1.1))), unit


def shards(tier):
    return [{'tier': tier, 'block': b} for b in range(BLOCKS)]


def one(mn, ab, bc, lam, N, unit=0):
    if isinstance(lam, str):
        ABD, prop = COMPONENTS[lam], None
    elif lam == 6:
        ABD, prop = GENERIC * UNITS[unit][0], None
    else:
        w = [tuple(x) for x in LAMS2[lam]]
        prop, st = both_in_units(w, unit)
        ABD = st.ABD()
    K, Kr, S = check_full(ABD, *ab, bc, N, *mn, prop=prop)
    need(ref.close(K, K.T, S, 2 * KTOL), 'symmetry of the stiffness matrix')
    # the bending block must not depend on whether the membrane is modelled
    p = plate(prop or Given(ABD), *ab, bc, N, *mn)
    Kb = np.asarray(p.calc_K_KG_D()[0], float)
    k = len(Kb)
    need(ref.close(K[-k:, -k:], Kb, S[-k:, -k:], 2 * KTOL), 'bending block of the coupled stiffness')


def rigid():
    """a free plate stores no energy in translations and in-plane rotation"""
    m = n = 4
    p = plate(laminate([tuple(x) for x in LAMS[0]]), 2., 3., BCS[5], (0, 0, 0), m, n)
    K = np.asarray(p.calc_K_KG_ABD()[0], float)
    one_ = np.array([1., 0, 1, 0])
    lin = np.array([-1., 2, 1, 2]) # xi itself: values -1, 1, slopes 1 at both ends (basis slope is 1/2)
    for f in range(3):
        q = np.zeros(3 * m * n)
        q[f * m * n:(f + 1) * m * n] = np.kron(one_, one_)
        if abs(q @ K @ q) > 1e-5 * np.abs(K).max():
            raise Fail('rigid translation %d stores energy' % f)
    for v in (np.kron(lin, one_), np.kron(one_, lin)):
        q = np.zeros(3 * m * n)
        q[2 * m * n:] = v
        if abs(q @ K @ q) > 1e-5 * np.abs(K).max():
            raise Fail('rigid tilt stores energy')


GRADES = [1e-3, 1e-6, 1e-8]


def graded(x, y, eps, bc):
    """a laminate with one component far smaller than another: the matrix is the sum of both"""
    adm = ref.admissible(bc, 2, 2)
    X, Y = COMPONENTS[x], eps * COMPONENTS[y]
    K = np.asarray(plate(Given(X + Y), 1.3, 0.7, bc, LOAD, 2, 2).calc_K_KG_ABD()[0], float)
    K0 = np.asarray(plate(Given(X), 1.3, 0.7, bc, LOAD, 2, 2).calc_K_KG_ABD()[0], float)
    Kr, S = ref.K_full(Y, 1.3, 0.7, adm)
    SX = ref.K_full(X, 1.3, 0.7, adm)[1]
    bad = np.abs(K - K0 - Kr) > KTOL * S + 1e-13 * SX
    if bad.any():
        p = tuple(int(v) for v in np.argwhere(bad)[0])
        raise Fail('%s of 1 with %s of %g: the small one adds %r to entry %s, expected %r' % (x, y, eps, K[p] - K0[p], p, Kr[p]))


def explore(shard, rec):
    if shard['block'] == 0:
        rec.run({'rigid': 1}, rigid)
    for i, (x, y) in enumerate(itertools.permutations(COMPONENTS, 2)):
        if i % BLOCKS == shard['block']:
            for j, eps in enumerate(GRADES):
                bc = BCS[(i + i // 6 + j) % 6]
                rec.state()
                rec.step(2)
                rec.run({'graded': [x, y, eps, jsonc(bc)]}, lambda: graded(x, y, eps, bc))
    for i, c in enumerate(cases(shard['tier'])):
        if i % BLOCKS != shard['block']:
            continue
        if rec.full:
            return
        rec.state()
        rec.step(3)
        rec.run({'mn': c[0], 'ab': c[1], 'bc': jsonc(c[2]), 'lam': c[3], 'N': c[4], 'unit': (c + (0,))[5]}, lambda: one(*c))


def replay(case, rec):
    if 'rigid' in case:
        rec.run(case, rigid)
    elif 'graded' in case:
        rec.run(case, lambda: graded(*case['graded']))
    else:
        rec.run(case, lambda: one(tuple(case['mn']), case['ab'], case['bc'], case['lam'], tuple(case['N']), case.get('unit', 0)))
