"""C05 margins of safety: every (stack, load) of finite alphabets; each mode's margin is its own
allowable over the ply stress reported for the same row, minus one; critical mode is the lowest."""
import itertools
import math

import numpy as np

from composipy import LaminateStrength

from mc import ref
from mc.c04 import NAMES, check_strength
from mc.core import Fail
from mc.real import MATS, laminate, mat, model, need, words

ID = 'C05'
AX = {'quick': (-1., 0., 1.), 'thorough': (-2., -1., 0., 0.5, 1.)}
ALPHABETS = {
    'one': ([(a, k) for a in (0, 30, -45, 90, 110) for k in MATS], {'quick': 1, 'thorough': 1}),
    'two': ([(a, k) for a in (0, 50, -75) for k in ('cfrp', 'gfrp_thick', 'alu')], {'quick': 2, 'thorough': 3}),
    'bare': ([(a, k) for a in (0, 40) for k in ('bare', 'partly', 'alu_t', 'alu_c')], {'quick': 2, 'thorough': 3}),
    'weak': ([(a, k) for a in (0, 40) for k in ('cfrp', 'cfrp_weak', 'alu', 'alu_weak')], {'quick': 2, 'thorough': 3}),
    'tri': ([(0, 'cfrp'), (35, 'e2_stiffer'), (-60, 'alu_g')], {'quick': 4, 'thorough': 5}),
}
MODES = ['margin_t1', 'margin_c1', 'margin_t2', 'margin_c2', 'margin_s']


LONG = {'quick': (7, 10, 11, 24), 'thorough': (6, 7, 8, 10, 11, 12, 16, 24, 40, 64)}


def long_words(n):
    letters = [(0, 'cfrp'), (45, 'cfrp_thin'), (-60, 'gfrp_thick'), (90, 'alu')]
    for k in (1, 2, 3):
        for b in itertools.product(letters, repeat=k):
            if len(set(b)) == k:
                yield tuple(b[i % k] for i in range(n))
                yield tuple(b[min(i, n - 1 - i) % k] for i in range(n))
    kinds = [k for k in MATS if k not in ('si', 'si_odd', 'soft', 'nano', 'nano_thick')]
    yield tuple((15 * i - 80, kinds[i % len(kinds)]) for i in range(n))


def loads(tier):
    out = [v for v in itertools.product(AX[tier], repeat=3)]
    res = []
    for i, v in enumerate(out):
        s = (300., 0.01, 4e5, 37.)[i % 4]
        res.append(tuple(s * x for x in v) + (0., 0., 0.))
        res.append((0., 0., 0.) + tuple(s * x for x in v))
    res += [(120, -50, 30, 5, -8, 11), (-120, 50, 30, -5, 8, -11), (1, 2, 3, 4, 5, 6)]
    return res


def BOUNDS(tier):
    return {'alphabets': {k: [len(v[0]), v[1][tier]] for k, v in ALPHABETS.items()}, 'loads': len(loads(tier)), 'long_stacks': LONG[tier]}


def shards(tier):
    return [{'alphabet': n, 'first': f, 'depth': d[tier], 'tier': tier}
            for n, (letters, d) in ALPHABETS.items() for f in range(len(letters))] + [
        {'long': n, 'tier': tier} for n in LONG[tier]]


def one(word, load, lam=None, st=None):
    lam = lam or laminate(word)
    st = st or model(word)
    sob = LaminateStrength(lam, **dict(zip(NAMES, load)))
    df = sob.calculate_maxstressmargin()
    ds = sob.calculate_stress()
    n = len(word)
    rows = [(k + 1, p) for k in range(n) for p in ('bot', 'top')]
    for tab, what in ((df, 'margin'), (ds, 'stress')):
        if list(zip(tab['ply'], tab['position'])) != rows:
            raise Fail('%s rows are labelled %s' % (what, list(zip(tab['ply'], tab['position']))))
    if [float(a) for a in df['angle']] != [float(w[0]) for w in word for _ in (0, 1)]:
        raise Fail('margin table angles')
    e = np.linalg.solve(st.ABD(), np.array(load, float))
    z = st.z()
    smax = max(np.abs(m.Q0()).max() for _, m in st.plies) * max(np.abs(e[:3]).max(), np.abs(e[3:]).max() * st.h)
    for i in range(2 * n):
        t, m = st.plies[i // 2]
        sm = m.Q0() @ ref.strain_to_material(t, e[:3] + z[i // 2 + i % 2] * e[3:])
        t1, c1, t2, c2, s = m.allow
        want = []
        for allow, stress in ((t1, sm[0]), (c1, -sm[0]), (t2, sm[1]), (c2, -sm[1]), (s, abs(sm[2]))):
            if abs(stress) <= 1e-9 * smax:
                # rounding decides between huge (or minus one, without an allowable) and infinite
                want.append(None if allow and smax else math.inf if not smax else 'any')
            else:
                want.append(math.inf if stress < 0 else allow / stress - 1)
        got = [float(df[c][i]) for c in MODES]
        for c, g, w in zip(MODES, got, want):
            if w is None:
                ok = g > 10 * min([x for x in want if isinstance(x, float) and x < math.inf] or [0]) or g == math.inf
            elif w == 'any':
                ok = g in (-1, math.inf)
            elif w == math.inf:
                ok = g == math.inf
            else:
                ok = abs(g - w) <= 1e-7 * (abs(w) + 1)
            if not ok:
                raise Fail('row %d (ply %d %s): %s is %r, allowable/stress - 1 is %r' % (
                    i, i // 2 + 1, rows[i][1], c, g, w))
        crit = df['critical'][i]
        if crit not in MODES:
            raise Fail('row %d: critical mode %r' % (i, crit))
        if min(got) < math.inf and not got[MODES.index(crit)] <= min(got) + 1e-7 * (abs(min(got)) + 1):
            raise Fail('row %d: critical mode is %s with margins %s' % (i, crit, got))


def explore(shard, rec):
    L = loads(shard['tier'])
    if 'long' in shard:
        it = long_words(shard['long'])
    else:
        letters = ALPHABETS[shard['alphabet']][0]
        head = letters[shard['first']]
        it = ((head,) + w for w in itertools.chain([()], words(letters, shard['depth'] - 1)))
    for i, word in enumerate(it):
        if rec.full:
            return
        rec.state()
        st = model(word)
        lam = laminate(word)
        use = L if len(word) == 1 else [L[(5 * i + 7 * j) % len(L)] for j in range(12 if len(word) < 6 else 3)]
        for load in use:
            rec.step(2)
            rec.run({'word': list(word), 'load': list(load)}, lambda: one(word, load, lam, st))


def replay(case, rec):
    rec.run(case, lambda: one([tuple(x) for x in case['word']], case['load']))
