"""C03 lamination parameters: definition over every stack of a finite alphabet, and the stiffness
rebuilt from parameters on a lattice of parameter vectors and on the parameters of every stack."""
import itertools

import numpy as np

from composipy import LaminateProperty, LaminateStrength

from mc import ref
from mc.c05 import long_words
from mc.core import Fail
from mc.real import ALL_MATS, MATS, TOL, laminate, mat, model, need, words

ID = 'C03'
ALPHABETS = {
    'quad': ([(a, 'cfrp') for a in (0, 45, -45, 90)], {'quick': 5, 'thorough': 7}),
    'odd': ([(a, 'cfrp') for a in (17, -63.5, 120, 22.5, -100)], {'quick': 4, 'thorough': 5}),
    'close': ([(a, k) for a in (10, -70) for k in ('cfrp', 'cfrp_near', 'cfrp_next')], {'quick': 3, 'thorough': 5}),
    'thick': ([(a, k) for a in (10, -70) for k in ('cfrp', 'gfrp_thick', 'alu')], {'quick': 3, 'thorough': 5}),
}
AXIS = {'quick': (-1., -0.35, 0., 0.6), 'thorough': (-1., -0.5, -0.2, 0., 0.35, 0.7, 1.)}
LONG = {'quick': (7, 8, 11, 24), 'thorough': tuple(range(6, 33)) + (40, 64)}
THICK = (1.0, 0.37, 25, 1.2345678e-4, 2345.67891)


def BOUNDS(tier):
    return {'alphabets': {k: [len(v[0]), v[1][tier]] for k, v in ALPHABETS.items()},
            'long_stacks': LONG[tier], 'parameter_axis': AXIS[tier], 'thickness': THICK, 'materials': ALL_MATS}


def shards(tier):
    out = []
    for name, (letters, depth) in ALPHABETS.items():
        for first in range(len(letters)):
            out.append({'kind': 'words', 'alphabet': name, 'first': first, 'depth': depth[tier]})
    for n in LONG[tier]:
        out.append({'kind': 'long', 'n': n})
    for k in ALL_MATS:
        out.append({'kind': 'lattice', 'mat': k, 'axis': AXIS[tier]})
    return out


def check_lp(k, xiA, xiD, T, r=None, form=list, extra=None):
    m = MATS[k]
    r = r or mat(m)
    d = {'xiD': form(xiD), 'T': T}
    if xiA is not None:
        d['xiA'] = form(xiA)
    if extra:
        d.update(extra)
    lam = LaminateProperty(d, r)
    q = np.abs(m.Q0()).max()
    need(ref.close(lam.D, ref.from_xi(m, xiD, T ** 3 / 12), q * T ** 3, TOL), 'D from parameters %s' % (list(xiD),))
    if xiA is not None:
        A = ref.from_xi(m, xiA, T)
        need(ref.close(lam.A, A, q * T, TOL), 'A from parameters %s' % (list(xiA),))
        need(ref.close(lam.B, np.zeros((3, 3)), q * T * T, TOL), 'B of a laminate given by parameters')
        need(ref.close(lam.A, A, q * T, TOL), 'A read after B')
        need(ref.close(lam.ABD[:3, :3], A, q * T, TOL), 'A part of ABD')
        need(ref.close(lam.ABD[:3, 3:], np.zeros((3, 3)), q * T * T, TOL), 'B part of ABD')
        need(ref.close(lam.xiA, np.array(xiA, float), 1, TOL), 'xiA given and read back')
    need(ref.close(lam.ABD[3:, 3:], ref.from_xi(m, xiD, T ** 3 / 12), q * T ** 3, TOL), 'D part of ABD')
    need(ref.close(lam.xiD, np.array(xiD, float), 1, TOL), 'xiD given and read back')
    return lam


def one_word(word, pool=None):
    st = model(word)
    lam = laminate(word, pool=pool)
    xA, xD = st.xi()
    need(ref.close(lam.xiA, xA, 1, TOL), 'xiA of %s' % (word,))
    need(ref.close(lam.xiD, xD, 1, TOL), 'xiD of %s' % (word,))
    if len({k for _, k in word}) == 1:
        k = word[0][1]
        nA, _, nD = st.norms()
        back = check_lp(k, lam.xiA, lam.xiD, st.h, r=lam.plies[0] if isinstance(lam.plies, (list, tuple)) else None)
        need(ref.close(back.A, lam.A, nA, TOL), 'A through parameters of %s' % (word,))
        need(ref.close(back.D, lam.D, nD, TOL), 'D through parameters of %s' % (word,))


def one_lattice(k, xi, T, form, with_A, extra):
    xiA = [xi[(i + 1) % 4] * 0.9 for i in range(4)] if with_A else None
    check_lp(k, xiA, list(xi), T, form={'list': list, 'tuple': tuple, 'ndarray': np.array}[form],
             extra={'xiB': [0., 0., 0., 0.]} if extra else None)


def explore(shard, rec):
    if shard['kind'] in ('words', 'long'):
        pool = {}
        if shard['kind'] == 'long':
            it = long_words(shard['n'])
        else:
            letters = ALPHABETS[shard['alphabet']][0]
            head = letters[shard['first']]
            it = ((head,) + w for w in itertools.chain([()], words(letters, shard['depth'] - 1)))
        for word in it:
            if rec.full:
                return
            rec.state()
            rec.step()
            rec.run({'word': list(word)}, lambda: one_word(word, pool))
    else:
        forms = ['list', 'tuple', 'ndarray']
        for i, xi in enumerate(itertools.product(shard['axis'], repeat=4)):
            for with_A in (False, True):
                if rec.full:
                    return
                a = (shard['mat'], list(xi), THICK[i % 5], forms[(i // 5) % 3], with_A, i % 2 == 0)
                rec.state()
                rec.step(6)
                rec.run({'lattice': a}, lambda: one_lattice(*a))


def replay(case, rec):
    if 'word' in case:
        rec.run(case, lambda: one_word([tuple(x) for x in case['word']]))
    else:
        rec.run(case, lambda: one_lattice(*case['lattice']))
