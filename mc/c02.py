"""C02 laminate stiffness is the through-thickness integral: every ply sequence (bottom first) of a
finite alphabet up to a length, each reached by laying one ply on a shorter stack; the incremental
model follows the same trace."""
import itertools

from mc import ref
from mc.core import Fail
from mc.real import MATS, UNITS, both_in_units, check_laminate, laminate, mat, model, words

ID = 'C02'
ALPHABETS = {
    'quad': ([(a, 'cfrp') for a in (0, 45, -45, 90)], {'quick': 5, 'thorough': 7}),
    'odd2': ([(a, k) for a in (17, -63.5, 120, 90) for k in ('cfrp', 'gfrp_thick')], {'quick': 3, 'thorough': 5}),
    'mixed': ([(30, 'cfrp_thin'), (0, 'alu'), (-75, 'e2_stiffer')], {'quick': 6, 'thorough': 9}),
    'units': ([(10, 'si'), (-100, 'si_odd')], {'quick': 8, 'thorough': 12}),
    'nano': ([(a, k) for a in (10, -100) for k in ('nano', 'nano_thick')], {'quick': 3, 'thorough': 5}),
    'kinds': ([(25, k) for k in MATS if 'nano' not in k], {'quick': 2, 'thorough': 4}),
    'signs': ([(a, 'nu_max') for a in (-90, 180, 135, -135, 270)], {'quick': 3, 'thorough': 5}),
}
LONG = {'quick': (8, 9, 15, 16, 24, 33, 64), 'thorough': tuple(range(8, 65)) + (100, 128, 200)}
FORMS = [('list', False), ('tuple', False), ('ndarray', False), ('list', True), ('tuple', True), ('ndarray', True)]


def BOUNDS(tier):
    return {'alphabets': {k: [len(v[0]), v[1][tier]] for k, v in ALPHABETS.items()},
            'periodic_and_symmetric_lengths': LONG[tier], 'input_forms': FORMS, 'units_of_force_and_length': UNITS}


def shards(tier):
    out = []
    for name, (letters, depth) in ALPHABETS.items():
        for first in range(len(letters)):
            out.append({'kind': 'words', 'alphabet': name, 'first': first, 'depth': depth[tier]})
    for n in LONG[tier]:
        out.append({'kind': 'long', 'n': n})
    for n in sorted({4, 5, 6, 7} | set(LONG[tier])):
        out.append({'kind': 'different', 'n': n})
    for unit in range(len(UNITS)):
        out.append({'kind': 'units', 'unit': unit})
    out.append({'kind': 'forms'})
    return out


def one(word, forms=(('list', False),), pool=None):
    st = model(word)
    for form, single in forms:
        check_laminate(laminate(word, one_material=single, form=form, pool=pool), st,
                       '%s%s %s: ' % (form, ', one material' if single else '', str(list(word))[:200]))


def run(rec, word, forms=(('list', False),), pool=None):
    rec.state()
    rec.step(len(forms))
    rec.run({'word': list(word), 'forms': list(forms)}, lambda: one(word, forms, pool))


def explore(shard, rec):
    if shard['kind'] == 'words':
        letters = ALPHABETS[shard['alphabet']][0]
        pool = {}
        head = letters[shard['first']]
        run(rec, (head,), pool=pool)
        for w in words(letters, shard['depth'] - 1):
            if rec.full:
                return
            run(rec, (head,) + w, pool=pool)
    elif shard['kind'] == 'long':
        n = shard['n']
        letters = [(0, 'cfrp'), (45, 'cfrp_thin'), (-60, 'gfrp_thick'), (90, 'alu')]
        for k in (1, 2, 3):
            for base in itertools.product(letters, repeat=k):
                w = [base[i % k] for i in range(n)]
                run(rec, tuple(w))
                half = w[:n // 2]
                mid = w[n // 2:n // 2 + n % 2]
                run(rec, tuple(half + mid + half[::-1]))
                run(rec, tuple(half + mid + [(-a, m) for a, m in half[::-1]]))
                if rec.full:
                    return
    elif shard['kind'] == 'units':
        letters = [(a, k) for a in (0, 45, -60) for k in ('cfrp', 'gfrp_thick', 'alu')]
        for w in words(letters, 3):
            rec.state()
            rec.step()
            rec.run({'unit': shard['unit'], 'word': list(w)}, lambda: in_unit(shard['unit'], w))
            if rec.full:
                return
    elif shard['kind'] == 'different':
        n = shard['n']
        for skip in (1, 2):
            kinds = [k for k in MATS if 'nano' not in k and k not in ('si', 'si_odd')][::skip]
            for r in range(len(kinds)):
                w = [(15. * i - 80, kinds[(i + r) % len(kinds)]) for i in range(n)]
                for x in (w, w[::-1], w[:(n + 1) // 2] + w[:n // 2][::-1]):
                    run(rec, tuple(x))
                if rec.full:
                    return
    else:
        for w in words([(a, 'cfrp') for a in (0., 30, -45.5, 90)], 3):
            run(rec, w, forms=FORMS)


def in_unit(unit, word):
    lam, st = both_in_units(word, unit)
    check_laminate(lam, st, 'forces and lengths times %s, %s: ' % (UNITS[unit], list(word)))


def replay(case, rec):
    word = [tuple(x) for x in case['word']]
    if 'unit' in case:
        rec.run(case, lambda: in_unit(case['unit'], word))
        return
    rec.run(case, lambda: one(word, [tuple(f) for f in case['forms']]))
