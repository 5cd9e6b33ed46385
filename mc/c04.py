"""C04 strains and stresses ply by ply: every (stack, load vector) of finite alphabets; oracle: midplane
response solves the laminate equations, plane sections stay plane, tensor rotation to ply axes, and the
stresses integrated through the thickness give the applied loads back."""
import itertools

import numpy as np

from composipy import LaminateProperty, LaminateStrength

from mc import ref
from mc.core import Fail
from mc.real import MATS, TOL, laminate, mat, model, need, words

ID = 'C04'
NAMES = ('Nxx', 'Nyy', 'Nxy', 'Mxx', 'Myy', 'Mxy')
UNITS = [tuple(1. if i == j else 0. for j in range(6)) for i in range(6)]
LOADS = UNITS + [(-100, 0, 0, 0, 0, 0), (0, -250., 0, 0, 0, 0), (0, 0, -3e4, 0, 0, 0), (0, 0, 0, -12, 0, 0),
                 (5, -3, 2, 0, 0, 0), (0, 0, 0, 0.5, -0.75, 0.3), (10, 20, -30, 4, -5, 6),
                 (-1e6, 2e5, 3e5, 1e4, 0, -1e5), (0, 0, 0, 0, 0, 0), (1e-4, 0, 2e-4, 0, -1e-5, 0), (-1, -1, -1, -1, -1, -1)]
ALPHABETS = {
    'quad': ([(a, 'cfrp') for a in (0, 45, -45, 90)], {'quick': 4, 'thorough': 6}),
    'odd2': ([(a, k) for a in (17, -63.5, 120) for k in ('cfrp_thin', 'gfrp_thick')], {'quick': 3, 'thorough': 4}),
    'mixed': ([(30, 'cfrp'), (0, 'alu'), (-105.5, 'e2_stiffer')], {'quick': 4, 'thorough': 6}),
    'nano': ([(10, 'nano'), (-100, 'nano_thick')], {'quick': 3, 'thorough': 5}),
    'kinds': ([(25, k) for k in MATS if 'nano' not in k], {'quick': 2, 'thorough': 2}),
}
COLS_E = ['ply', 'z', 'position', 'angle', 'epsilonx', 'epsilony', 'gammaxy', 'epsilon1', 'epsilon2', 'gamma12']
COLS_S = ['ply', 'z', 'position', 'angle', 'sigmax', 'sigmay', 'tauxy', 'sigma1', 'sigma2', 'tau12']


def BOUNDS(tier):
    return {'alphabets': {k: [len(v[0]), v[1][tier]] for k, v in ALPHABETS.items()}, 'loads': LOADS, 'assignments_of_loads': ASSIGN[tier], 'answers_between': BETWEEN}


def shards(tier):
    out = []
    for name, (letters, depth) in ALPHABETS.items():
        for first in range(len(letters)):
            out.append({'alphabet': name, 'first': first, 'depth': depth[tier]})
    out += [{'assign': i, 'tier': tier} for i in range(7)]
    for n in ((11, 24) if tier == 'quick' else (11, 16, 24, 40, 64)):
        out.append({'long': n})
    return out


def labels(df, st, cols, what):
    if [c for c in cols if c not in df.columns]:
        raise Fail('%s table has columns %s' % (what, list(df.columns)))
    n = len(st.plies)
    z = st.z()
    if len(df) != 2 * n:
        raise Fail('%s table has %d rows for %d plies' % (what, len(df), n))
    want = list(itertools.chain.from_iterable(((k + 1, 'bot'), (k + 1, 'top')) for k in range(n)))
    if list(zip(df['ply'], df['position'])) != want:
        raise Fail('%s table rows are labelled %s' % (what, list(zip(df['ply'], df['position']))))
    need(ref.close(df['z'], [z[k + d] for k in range(n) for d in (0, 1)], st.h, TOL), what + ' table z')
    if [float(a) for a in df['angle']] != [float(t) for t, _ in st.plies for _ in (0, 1)]:
        raise Fail('%s table angles' % what)


def check_strength(sob, st, load, what=''):
    ABD = st.ABD()
    sc = np.array([1, 1, 1, 1 / st.h, 1 / st.h, 1 / st.h]) # kappa*h compares with epsilon
    scale = np.diag(1 / sc)
    # scaled system for a fair condition number
    W = np.diag([1, 1, 1, st.h, st.h, st.h])
    q = np.abs(ABD[0, 0]) if ABD[0, 0] else 1
    N = np.array(load, float)
    Wi = np.diag(1 / np.diag(W))
    S = Wi @ ABD @ Wi
    e = Wi @ np.linalg.solve(S, Wi @ N)
    e0 = np.asarray(sob.epsilon0(), float)
    cond = np.linalg.cond(S)
    tol = 1e-11 * max(cond, 100)
    mag = max(np.abs(W @ e).max(), 1e-300)
    need(ref.close(W @ e0, W @ e, mag, tol), what + 'midplane strains and curvatures')
    de, ds = sob.calculate_strain(), sob.calculate_stress()
    labels(de, st, COLS_E, 'strain')
    labels(ds, st, COLS_S, 'stress')
    z = st.z()
    E, S_ = [], []
    for k, (t, m) in enumerate(st.plies):
        for d in (0, 1):
            ex = e[:3] + z[k + d] * e[3:]
            Q = m.Q0()
            em = ref.strain_to_material(t, ex)
            sm = Q @ em
            E.append(np.concatenate([ex, em]))
            S_.append(np.concatenate([ref.stress_to_plate(t, sm), sm]))
    E, S_ = np.array(E), np.array(S_)
    smax = max(np.abs(m.Q0()).max() for _, m in st.plies) * mag
    need(ref.close(de[COLS_E[4:]].to_numpy(float), E, 2 * mag, tol), what + 'ply strains')
    need(ref.close(ds[COLS_S[4:]].to_numpy(float), S_, 2 * smax, tol), what + 'ply stresses')
    # equilibrium of what was reported
    sg = ds[COLS_S[4:7]].to_numpy(float)
    R = np.zeros(6)
    for k in range(len(st.plies)):
        z0, z1 = z[k], z[k + 1]
        a, b = sg[2 * k], sg[2 * k + 1]
        t, zc = z1 - z0, (z0 + z1) / 2
        R[:3] += t * (a + b) / 2
        R[3:] += t * zc * (a + b) / 2 + t * t * (b - a) / 12
    need(ref.close(Wi @ R, Wi @ N, st.h * smax, tol), what + 'resultants of the ply stresses')


def one(word, load, lam=None, st=None):
    lam = lam or laminate(word)
    st = st or model(word)
    sob = LaminateStrength(lam, **dict(zip(NAMES, load)))
    check_strength(sob, st, load)


# the loads and the laminate of a strength object may be assigned: every order of assignments, every answer asked for in between
BETWEEN = ['epsilon0', 'calculate_strain', 'calculate_stress', 'calculate_maxstressmargin', None]
ASSIGN = {'quick': 2, 'thorough': 3}
OTHERS = [[(30, 'cfrp'), (-50, 'gfrp_thick'), (0, 'alu')], [(45, 'cfrp'), (0, 'cfrp_thin'), (-20, 'cfrp')], [(10, 'fabric'), (80, 'cfrp')]]
EVENTS = [(n, v) for n in NAMES for v in (0., -7.)] + [('dproperty', 1), ('dproperty', 2)]


def assigned(hist, between):
    word = OTHERS[0]
    load = dict(zip(NAMES, (10., 20., -30., 4., -5., 6.)))
    sob = LaminateStrength(laminate(word), **load)
    for name, v in hist:
        if between:
            getattr(sob, between)()
        if name == 'dproperty':
            word = OTHERS[v]
            sob.dproperty = laminate(word)
        else:
            setattr(sob, name, v)
            load[name] = v
    check_strength(sob, model(word), list(load.values()), 'assigned in turn %s: ' % (hist,))


def explore_assign(shard, rec):
    for h in range(1, ASSIGN[shard['tier']] + 1):
        for hist in itertools.product(EVENTS, repeat=h):
            if hist[0][0] != (NAMES + ('dproperty',))[shard['assign']]:
                continue
            for b in BETWEEN:
                if rec.full:
                    return
                rec.state()
                rec.step(h + 1)
                rec.run({'assign': hist, 'between': b}, lambda: assigned(hist, b))


def explore(shard, rec):
    if 'assign' in shard:
        return explore_assign(shard, rec)
    if 'long' in shard:
        n = shard['long']
        letters = [(0, 'cfrp'), (45, 'cfrp_thin'), (-60, 'gfrp_thick'), (90, 'alu')]
        bases = [b for k in (1, 2, 3) for b in itertools.product(letters, repeat=k)]
        it = [tuple(b[i % len(b)] for i in range(n)) for b in bases]
        loads = LOADS[6:]
    else:
        letters = ALPHABETS[shard['alphabet']][0]
        head = letters[shard['first']]
        it = ((head,) + w for w in itertools.chain([()], words(letters, shard['depth'] - 1)))
        loads = LOADS
    for i, word in enumerate(it):
        if rec.full:
            return
        st = model(word)
        ok = rec.run({'word': list(word), 'load': [0] * 6}, lambda: None if laminate(word) else 'no laminate')
        if not ok:
            continue
        lam = laminate(word)
        rec.state()
        # short stacks see every load; longer ones rotate through the list, 3 loads each
        use = loads if len(word) <= 2 else [loads[(3 * i + j) % len(loads)] for j in range(4)]
        for load in use:
            rec.step(3)
            rec.run({'word': list(word), 'load': list(load)}, lambda: one(word, load, lam, st))


def replay(case, rec):
    if 'assign' in case:
        return rec.run(case, lambda: assigned([tuple(x) for x in case['assign']], case['between']))
    rec.run(case, lambda: one([tuple(x) for x in case['word']], case['load']))
