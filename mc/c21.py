"""C21 the computed critical load is an upper bound that converges: walk over the lattice of basis sizes
(one more function in x or in y per step), factor never rises; plates with a closed-form solution are
approached from above."""
import itertools
import math

import numpy as np

from mc import ref
from mc.c10 import AB2, BCS2, LAMS2, MAG, SIGNS
from mc.core import Fail
from mc.cover import cover
from mc.plates import plate
from mc.real import laminate, model

ID = 'C21'
E = ('x0', 'xa', 'y0', 'yb')
LAYS = [[(0, 'cfrp'), (90, 'cfrp'), (0, 'cfrp')], [(90, 'gfrp_thick'), (0, 'cfrp_thin'), (90, 'gfrp_thick')],
        [(0, 'alu')], [(0, 'fabric'), (90, 'cfrp'), (90, 'cfrp'), (0, 'fabric')], [(90, 'e2_stiffer')]]
AB = [(1., 1.), (1.8, 1.), (400., 1000.), (3., 1.), (1., 5.), (900., 140.)]
LOADS = [(-1., 0., 0.), (0., -1., 0.), (-1., -0.6, 0.), (-1., 0.4, 0.), (0.3, -2., 0.)]
WALK = {'quick': (6, 6), 'thorough': (8, 8)}
MONO = [('PINNED', 0, AB[1], (-1., 0., 0.)), ('CLAMPED', 1, AB[0], (0., -1., 0.5)),
        (('clamped', 'free', 'pinned', 'clamped'), 3, AB[2], (-1., 0.5, 0.)), ('PINNED', 2, AB[3], (0., 0., 1.)),
        (('pinned', 'pinned', 'free', 'pinned'), 4, AB[0], (-1., 0., 0.2)), (('free', 'clamped', 'clamped', 'free'), 5, AB[1], (-1., -1., 0.))]
SMALL = {'quick': (3, 3), 'thorough': (5, 5)}
DEPTH = {'quick': 2, 'thorough': 3}
# plates that buckle in many half waves: the last functions of large bases matter
CHAIN = {'quick': [(11, 11), (16, 15)], 'thorough': [(11, 11), (15, 15), (15, 16), (16, 16), (20, 16), (20, 18), (20, 20)]}
LONG = [((12., 1.), 0, (-1., 0., 0.)), ((1., 12.), 1, (0., -1., 0.)), ((9., 1.), 5, (0., 0., 1.)), ((1., 9.), 5, (-.2, -1., .3))]
EXTRA = [(45, 'cfrp'), (-30, 'cfrp'), (10, 'gfrp_thick')]


def prepare(tier):
    ref.integrals()
    cover(DIMS, DEPTH[tier])


DIMS = [len(x) for x in (AB2, BCS2, LAMS2, SIGNS, MAG)]


def config(i, depth):
    """walk number i: edge conditions, stack, size, loads"""
    if i < len(MONO):
        bc, lay, ab, N = MONO[i]
        return bc if isinstance(bc, str) else dict(zip(E, bc)), (LAYS + [EXTRA])[lay], ab, N
    ab, bc, lam, sg, mg = cover(DIMS, depth)[i - len(MONO)]
    return BCS2[bc], LAMS2[lam], AB2[ab], tuple(x * y for x, y in zip(SIGNS[sg], MAG[mg]))


def BOUNDS(tier):
    return {'closed_form_cases': len(LAYS) * len(AB) * len(LOADS), 'basis_walk_to': WALK[tier], 'walks': len(MONO),
            'chains_of_large_bases': [len(LONG), CHAIN[tier]],
            'every_%d_of' % DEPTH[tier]: {'walk_to': SMALL[tier], 'a_b': AB2, 'edge_conditions': len(BCS2), 'laminates': len(LAMS2),
                                          'load_signs': 27, 'load_magnitudes': MAG}}


def shards(tier):
    out = [{'kind': 'closed', 'lay': i, 'ab': j} for i in range(len(LAYS)) for j in range(len(AB))]
    out += [{'kind': 'walk', 'i': i, 'to': WALK[tier], 'depth': 0} for i in range(len(MONO))]
    out = [{'kind': 'chain', 'i': i, 'tier': tier} for i in range(len(LONG))] + out
    n = len(cover(DIMS, DEPTH[tier]))
    out += [{'kind': 'walks', 'block': b, 'of': 40, 'n': n, 'to': SMALL[tier], 'depth': DEPTH[tier]} for b in range(40)]
    return out


def factor(w, ab, bc, N, m, n):
    return float(plate(laminate(w), *ab, bc, N, m, n).buckling_analysis(num_eigvalues=1)[0][0])


def chain(i, tier):
    ab, lay, N = LONG[i]
    before = None
    for mn in CHAIN[tier]:
        vals, vecs = plate(laminate((LAYS + [EXTRA])[lay]), *ab, 'PINNED', N, *mn).buckling_analysis(num_eigvalues=1)
        f = float(vals[0])
        if not f > 0 or np.shape(vecs)[0] != mn[0] * mn[1]:
            raise Fail('factor %r, mode of shape %s for %s functions' % (f, np.shape(vecs), mn))
        if before and f > before[1] * (1 + 1e-4):
            raise Fail('critical factor rises from %r at %s to %r at %s' % (before[1], before[0], f, mn))
        before = mn, f


def closed(i, j, k):
    D = model(LAYS[i]).ABD()[3:, 3:]
    a, b = AB[j]
    nx, ny, _ = LOADS[k]
    best = math.inf
    for p in range(1, 12):
        for q in range(1, 12):
            up = math.pi ** 2 * (D[0, 0] * (p / a) ** 4 + 2 * (D[0, 1] + 2 * D[2, 2]) * (p * q / a / b) ** 2 + D[1, 1] * (q / b) ** 4)
            dn = -(nx * (p / a) ** 2 + ny * (q / b) ** 2)
            if dn > 0 and up / dn < best:
                best, arg = up / dn, (p, q)
    f = factor(LAYS[i], (a, b), 'PINNED', LOADS[k], *((13, 5) if a > 3 * b else (5, 13) if b > 3 * a else (7, 7)))
    lim = {1: 1e-3, 2: 1e-3, 3: 5e-3, 4: 0.05}.get(max(arg), 0.5 if max(arg) < 8 else math.inf)
    if not (1 - 1e-6) * best <= f <= (1 + lim) * best:
        raise Fail('critical factor %r, closed form %r (half waves %s)' % (f, best, arg))


def explore(shard, rec):
    if shard['kind'] == 'closed':
        for k in range(len(LOADS)):
            rec.state()
            rec.step()
            rec.run({'closed': [shard['lay'], shard['ab'], k]}, lambda: closed(shard['lay'], shard['ab'], k))
        return
    if shard['kind'] == 'chain':
        rec.state(len(CHAIN[shard['tier']]))
        rec.step(len(CHAIN[shard['tier']]))
        rec.run({'chain': shard['i'], 'tier': shard['tier']}, lambda: chain(shard['i'], shard['tier']))
        return
    if shard['kind'] == 'walks':
        for i in range(shard['block'], shard['n'], shard['of']):
            if not rec.full and any(config(len(MONO) + i, shard['depth'])[3]):
                walk(len(MONO) + i, shard['to'], rec, shard['depth'])
        return
    walk(shard['i'], shard['to'], rec)


def walk(i, to, rec, depth=0):
    bc, w, ab, N = config(i, depth)
    got = {}
    for m, n in itertools.product(range(1, to[0] + 1), range(1, to[1] + 1)):
        def body():
            f = factor(w, ab, bc, N, m, n)
            got[m, n] = f
            if m * n > 1 and not f > 0:
                # no positive factor with few functions is possible; then there must be none before
                f = math.inf
                got[m, n] = math.inf
            elif not f > 0:
                got[m, n] = f = math.inf
            for prev in ((m - 1, n), (m, n - 1)):
                if prev in got and f > got[prev] * (1 + 1e-5):
                    raise Fail('critical factor rises from %r at %s to %r at %s' % (got[prev], prev, f, (m, n)))
        rec.state()
        rec.step(2)
        rec.run({'walk': [i, m, n], 'depth': depth}, body)


def replay(case, rec):
    if 'chain' in case:
        rec.run(case, lambda: chain(case['chain'], case['tier']))
    elif 'closed' in case:
        rec.run(case, lambda: closed(*case['closed']))
    else:
        walk(case['walk'][0], case['walk'][1:], rec, case.get('depth', 0))
