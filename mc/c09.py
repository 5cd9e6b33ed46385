"""C09 boundary conditions: every assignment of named edge conditions, every pattern of suppressed
freedoms per displacement, every subset of freedoms on each edge; the basis actually used is read off
the stiffness matrices of a generic coupled laminate and compared with the documented meaning."""
import itertools

import numpy as np

from mc import ref
from mc.core import Fail
from mc.plates import GENERIC, Given, check_bend, check_full, jsonc, plate
from mc.real import need

ID = 'C09'
E = ref._EDGES
NAMES = ['free', 'pinned', 'simply_supported', 'fixed', 'clamped']
CASES = [str.lower, str.upper, str.capitalize, str.title]
DOFS = ['TX', 'TY', 'TZ', 'RX', 'RY', 'RZ']
N = (-1.5, 0.75, 0.5)
AB = (1.3, 0.7)
PERM = {'quick': [1], 'thorough': [1, 7, 29, 101]}
SIZES = {'quick': [(2, 3), (3, 2)], 'thorough': [(2, 3), (3, 2), (1, 4), (5, 1)]}


def prepare(tier):
    ref.integrals()


def BOUNDS(tier):
    return {'named_assignments': 625, 'mixed_assignments': 6 ** 4, 'patterns_per_displacement': 256, 'lists_with_repetitions': 4 * 63 * 3, 'subsets_per_edge': 64,
            'pattern_permutations': PERM[tier], 'sizes': SIZES[tier],
            'whole_plate_strings': ['PINNED', 'CLAMPED', 'default'], 'basis_sizes': '1..6 x 1..6'}


def pattern(u, v, w):
    """8-bit pattern per displacement: bit 2e translation, bit 2e+1 rotation of edge e"""
    out = {}
    for e, name in enumerate(E):
        out[name] = [k + ax for ax, p in zip('XYZ', (u, v, w)) for b, k in enumerate('TR') if p >> (2 * e + b) & 1]
    return out


def cases(kind, tier):
    if kind == 'named':
        for i, names in enumerate(itertools.product(NAMES, repeat=4)):
            c = {e: CASES[(i + j) % 4](x) for j, (e, x) in enumerate(zip(E, names))}
            yield ('bend', c, SIZES[tier][i % len(SIZES[tier])])
    elif kind == 'named_full':
        for i, names in enumerate(itertools.product(NAMES, repeat=4)):
            c = {e: CASES[(i + 3 * j) % 4](x) for j, (e, x) in enumerate(zip(E, names))}
            yield ('full', c, (2, 2))
    elif kind == 'patterns':
        for k in PERM[tier]:
            for p in range(256):
                c = pattern(p, (p * 37 + 11 * k) % 256, (p * 101 + 57 * k) % 256)
                yield ('full', c, (2, 2))
                yield ('bend', pattern((p * 29 + k) % 256, (p * 53) % 256, p), (3, 2) if p % 2 else (2, 3))
    elif kind == 'subsets':
        for i, (e, r) in enumerate(itertools.product(range(4), range(64))):
            for rest in ([], DOFS):
                c = {x: list(rest) for x in E}
                c[E[e]] = [d for j, d in enumerate(DOFS) if r >> j & 1]
                if i % 3 == 1:
                    c = {k: tuple(v) for k, v in c.items()}
                if i % 3 == 2:
                    c = {k: v[::-1] for k, v in c.items()}
                yield ('full', c, (2, 2) if rest else ((2, 1) if i % 2 else (1, 2)))
    elif kind == 'mixed':
        # names next to lists of freedoms
        forms = ['clamped', 'Pinned', 'free', ['TZ'], ('RZ', 'TX', 'RY'), ['RX', 'TY', 'RZ', 'TZ']]
        for i, f in enumerate(itertools.product(forms, repeat=4)):
            if len({isinstance(x, str) for x in f}) == 2:
                for r in range(4):
                    g = [CASES[(r + r * j + j // 2) % 4](x) if isinstance(x, str) else x for j, x in enumerate(f)]
                    yield (('full', 'bend')[(i + r) % 5 > 0], dict(zip(E, g)), ((2, 2), (3, 2), (2, 3))[i % 3] if (i + r) % 5 else (2, 2))
    elif kind == 'repeated':
        # a freedom listed twice, freedoms as a set, edges in another order
        for i, (e, r) in enumerate(itertools.product(range(4), range(1, 64))):
            v = [d for j, d in enumerate(DOFS) if r >> j & 1]
            for rest in ([], DOFS + ['TZ'], ['TZ', 'TX']):
                c = {x: list(rest) for x in E}
                c[E[e]] = [v + v[::-1], v[:1] + v, v + DOFS[:r % 6] + v[1:]][i % 3]
                c = dict(list(c.items())[::-1])
                yield ('bend', c, ((2, 3), (3, 2), (4, 1), (1, 4))[i % 4])
                if rest == ['TZ', 'TX']:
                    yield ('full', {k: frozenset(x) for k, x in c.items()}, (2, 1))
    elif kind == 'sizes':
        pats = ['PINNED', 'CLAMPED', None, {e: x for e, x in zip(E, ('clamped', 'free', 'pinned', 'free'))},
                pattern(0b10010110, 0b01101100, 0b11100001)]
        for m, n in itertools.product(range(1, 7), repeat=2):
            for c in pats:
                yield ('bend', c, (m, n))
                if m * n <= (4 if tier == 'quick' else 12):
                    yield ('full', c, (m, n))


def BLOCKS(kind, tier):
    return {'named': 8, 'named_full': 8, 'patterns': 12, 'subsets': 12, 'sizes': 8, 'mixed': 8, 'repeated': 8}[kind]


def shards(tier):
    return [{'kind': k, 'block': b, 'tier': tier}
            for k in ('patterns', 'subsets', 'named', 'named_full', 'sizes', 'mixed', 'repeated') for b in range(BLOCKS(k, tier))]


def one(how, c, mn):
    if how == 'full':
        check_full(GENERIC, *AB, c, N, *mn)
    else:
        check_bend(GENERIC[3:, 3:], *AB, c, N, *mn, prop=Given(GENERIC))


def explore(shard, rec):
    nb = BLOCKS(shard['kind'], shard['tier'])
    for i, (how, c, mn) in enumerate(cases(shard['kind'], shard['tier'])):
        if i % nb != shard['block']:
            continue
        if rec.full:
            return
        rec.state()
        rec.step(2)
        rec.outcome(str(ref.admissible(c, *mn)))
        rec.run({'how': how, 'constraints': jsonc(c), 'mn': mn}, lambda: one(how, c, mn))


def replay(case, rec):
    rec.run(case, lambda: one(case['how'], case['constraints'], tuple(case['mn'])))
