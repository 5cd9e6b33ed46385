"""C12 buckling factors: every configuration of a lattice of loads (all sign patterns, magnitudes that
put the critical factor far below, at and above 1), edge conditions, laminates, basis sizes and
requested numbers of factors; oracle: eigenvalues of the reference matrices, and the buckling
equation on the real matrices for each returned pair."""
import contextlib
import io
import itertools

import numpy as np

from mc import ref
from mc.c10 import LAMS2 as LAMS
from mc.core import Fail
from mc.cover import cover
from mc.plates import jsonc, plate
from mc.real import laminate, model, need

ID = 'C12'
E = ref._EDGES
AB = [(1., 1.), (250., 400.), (3., 0.8), (0.2, 1.1)]
BCS = ['PINNED', 'CLAMPED', dict(zip(E, ('clamped', 'free', 'pinned', 'pinned'))),
       dict(zip(E, ('pinned', 'clamped', 'free', 'simply_supported'))), dict(zip(E, ('pinned',) * 2 + ('clamped',) * 2)), None]
BCS2 = BCS + [{'x0': ['TZ'], 'xa': ['TZ', 'RZ'], 'y0': 'Clamped', 'yb': ['RX', 'TZ']},
              {'x0': ['TZ', 'RZ'], 'xa': [], 'y0': ['TZ', 'TX'], 'yb': []}]
AB2 = AB + [(360, 360), (6., 1.), (1., 7.), (45., 1.5), (0.05, 2.)]
SIGNS = [s for s in itertools.product((-1., 0., 1.), repeat=3) if any(s)]
RATIO = [(1., 1., 1.), (1., 0.3, 0.6), (0.2, 1., 0.5), (0.4, 0.3, 1.)]
# the load is scaled so that the critical factor takes these values
TARGET = [1.0, 0.004, 37.5, 0.8, 2.0, 1e5, 1e-6]
SIZES = {'quick': [(1, 1), (2, 1), (1, 3), (2, 2), (3, 2), (4, 4), (5, 3)],
         'thorough': [(1, 1), (2, 1), (1, 2), (1, 3), (3, 1), (2, 2), (3, 2), (2, 4), (4, 4), (5, 3), (3, 6), (6, 6), (8, 5)]}
SIZES2 = {'quick': SIZES['quick'] + [(1, 9), (8, 1), (7, 4)], 'thorough': SIZES['thorough'] + [(1, 12), (13, 1), (4, 9), (26, 1), (1, 26)]}
SMALL = [(2, 2), (1, 3), (4, 1), (3, 3)]
BLOCKS = 64
ALIKE = {'fabric': [(0, 'fabric')], 'square': [(45, 'fabric'), (-45, 'fabric'), (-45, 'fabric'), (45, 'fabric')]}
KS = [5, 1, 2, 3, 40]


def prepare(tier):
    ref.integrals()
    rows(tier)


def dims(tier):
    return [len(SIZES2[tier]), len(BCS2), len(LAMS), len(SIGNS), len(RATIO), len(TARGET), len(KS), len(AB2)]


def rows(tier):
    out = [(SIZES2[tier][r[0]],) + r[1:] for r in cover(dims(tier), 3)]
    if tier != 'quick':
        out += [(SMALL[r[0]],) + r[1:] for r in cover([len(SMALL)] + dims(tier)[1:], 4)]
    return out


def BOUNDS(tier):
    return {'load_signs': 26, 'load_ratios': RATIO, 'target_factor': TARGET, 'edge_conditions': len(BCS),
            'laminates': len(LAMS), 'alike_in_x_and_y': list(ALIKE), 'sizes': SIZES[tier], 'num_eigvalues': KS, 'a_b': AB,
            'every_four_of': None if tier == 'quick' else {'the_same_with_sizes': SMALL},
            'every_three_of': {'sizes': SIZES2[tier], 'edge_conditions': len(BCS2), 'laminates': len(LAMS), 'load_signs': 26,
                                          'load_ratios': RATIO, 'target_factor': TARGET, 'num_eigvalues': KS, 'a_b': AB2}}


def cases(tier):
    i = 0
    for mn, sg in itertools.product(SIZES[tier], SIGNS):
        for bc in (BCS if mn[0] * mn[1] <= 4 else [BCS[i % 6], BCS[(i + 3) % 6]]):
            yield mn, bc, i % 6, sg, RATIO[i % 4], TARGET[i % 7], KS[i % 5], AB[i % 4]
            i += 1
    for sg, t, k in itertools.product(((-1., 0., 0.), (0., -1., 0.), (0., 0., 1.), (-1., 1., 1.), (1., -1., 0.), (-1., -1., -1.)), TARGET, KS):
        yield (3, 3), BCS[i % 6], (i // 2) % 6, sg, RATIO[i % 4], t, k, AB[i % 4]
        i += 1

    # plates that look alike in x and y: pairs of modes with the same factor
    for mn, bc, sg, (ab, lam), k in itertools.product([(2, 2), (3, 3), (4, 4), (5, 5)], ('PINNED', 'CLAMPED', None), [(-1., -1., 0.), (-1., -1., 1.), (-1., -1., -1.)],
                                                [((1., 1.), 'fabric'), ((360, 360), 'square'), ((1., 1.), 'square')], (1, 2, 3, 5, 40)):
        yield mn, bc, lam, sg, RATIO[0], TARGET[i % 7], k, ab
        i += 1
    # (10, 10) is the default
    for sg in SIGNS:
        yield [(10, 10), (11, 12), (10, 11), (13, 9)][i % 4] if tier == 'quick' else [(10, 10), (14, 14), (15, 13)][i % 3], BCS2[i % 8], i % len(LAMS), sg, RATIO[i % 4], TARGET[i % 7], KS[i % 5], AB2[i % len(AB2)]
        i += 1
    for sg in ((-1., 1., 0.), (1., -1., 0.), (1., 1., 1.), (0., 1., -1.), (-1., 1., 1.), (0., 0., 1.)):
        yield (11, 11), BCS2[i % 8], i % len(LAMS), sg, RATIO[i % 4], TARGET[i % 7], 1 + i % 2, AB2[i % len(AB2)]
        i += 1
    # shear does no work on some of the functions: repeated eigenvalues at zero
    for bc in itertools.product(('clamped', 'pinned', 'free'), repeat=4):
        if tier != 'quick':
            for mn, lam, ab, s in itertools.product([(2, 3), (3, 2), (6, 1), (1, 5)], range(len(LAMS)), AB2, (1., -1.)):
                yield mn, dict(zip(E, bc)), lam, (0., 0., s), RATIO[0], 0, 5, ab
            continue
        for lam, ab, s in [(0, AB2[7], -1.), (0, AB2[7], 1.), (7, AB2[5], 1.), (7, AB2[5], -1.)] + ([(0, ab, 1.) for ab in AB2] if 'free' not in bc else []):
            yield (2, 3), dict(zip(E, bc)), lam, (0., 0., s), RATIO[0], 0, 5, ab
    for z, bc, lam, sg, r, t, k, ab in rows(tier):
        yield z, BCS2[bc], lam, SIGNS[sg], RATIO[r], TARGET[t], KS[k], AB2[ab]


def shards(tier):
    return [{'tier': tier, 'block': b} for b in range(BLOCKS)]


def one(mn, bc, lam, sg, ratio, target, k, ab):
    w = [tuple(x) for x in (ALIKE[lam] if lam in ALIKE else LAMS[lam])]
    D = model(w).ABD()[3:, 3:]
    adm = ref.admissible(bc, *mn)[2]
    K, _ = ref.K_bend(D, *ab, adm)
    N = np.array(sg) * np.array(ratio)
    mu = ref.factors(K, ref.KG_bend(*N, *ab, adm)[0])
    big = np.abs(mu).max()
    if big < 1e-6 * ref.factors(K, ref.KG_bend(-1, -1, 0, *ab, adm)[0])[0]:
        return None  # the loads do no work on this basis: there is no factor to find
    ref0 = mu[0] if mu[0] > 1e-9 * big else big
    scale = 1 / (ref0 * target) if target else 1.  # 0: the load as it is
    N = N * scale
    mu = mu * scale
    pos = 1 / mu[mu > 1e-7 * np.abs(mu).max()]
    p = plate(laminate(w), *ab, bc, N, *mn)
    quiet = k != 3
    with contextlib.redirect_stdout(io.StringIO()):
        vals, vecs = p.buckling_analysis(silent=quiet, num_eigvalues=k)
    vals, vecs = np.asarray(vals, float), np.asarray(vecs, float)
    size = mn[0] * mn[1]
    if vals.shape != (min(k, size),) or vecs.shape != (size, min(k, size)):
        raise Fail('%d factors asked, %s and %s returned' % (k, vals.shape, vecs.shape))
    if not (np.array_equal(p.eigenvalue, vals) and np.array_equal(p.eigenvector, vecs)):
        raise Fail('factors returned are not the ones kept by the plate')
    c = min(len(pos), len(vals))
    # the rounding of the tabulated integrals (2e-7) is enlarged in some factors of the longest bases
    need(ref.close(vals[:c], pos[:c], pos[:c], 5e-3 if max(mn) > 20 else 1e-5), 'lowest positive factors')
    # the same equation on the matrices of the package itself
    Kr, KG = p.calc_K_KG_D()
    Kr, KG = np.asarray(Kr, float), np.asarray(KG, float)
    if max(mn) > 20:
        own = ref.factors((Kr + Kr.T) / 2, (KG + KG.T) / 2)[:c]
        need(ref.close(vals[:c] * own, np.ones(c), np.ones(c), 1e-5 + np.minimum(5e-3, 1e-9 * np.abs(mu).max() * pos[:c])), 'lowest positive factors of its own matrices')
    for j in range(c):
        x = vecs[:, j]
        if not np.linalg.norm(x) > 0:
            raise Fail('mode %d is null' % j)
        en = x @ Kr @ x
        d = np.sqrt(np.abs(np.diag(Kr)))
        r = (Kr @ x + vals[j] * (KG @ x)) / d
        if np.abs(r).max() > 1e-6 * max(np.abs(d * x).max(), np.sqrt(abs(en))) * max(1, vals[j] / pos[0]) ** 2:
            raise Fail('mode %d does not satisfy the buckling equation (residual %.3g)' % (j, np.abs(r).max()))
    # asking again gives the same
    again = p.buckling_analysis(num_eigvalues=k)[0]
    need(ref.close(again[:c], vals[:c], np.abs(vals[:c]), 1e-8), 'second analysis of the same plate')


def explore(shard, rec):
    for i, c in enumerate(cases(shard['tier'])):
        if i % BLOCKS != shard['block']:
            continue
        if rec.full:
            return
        rec.state()
        rec.step(2)
        rec.run({'c': [list(c[0]), jsonc(c[1])] + list(c[2:])}, lambda: one(*c))


def replay(case, rec):
    c = case['c']
    rec.run(case, lambda: one(tuple(c[0]), *c[1:]))
