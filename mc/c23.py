"""C23 equivalent descriptions: the product of all ways of writing down one laminate, its edges and its
numbers, and of passing them; every description is carried through stiffness, buckling and strength and
compared with the reference model of the plate it denotes."""
import itertools

import numpy as np
import pandas as pd

from composipy import IsotropicMaterial, LaminateProperty, LaminateStrength, OrthotropicMaterial, PlateStructure

from mc import ref
from mc.core import Fail
from mc.plates import KTOL
from mc.real import MATS, check_laminate, mat, need

ID = 'C23'
E = ref._EDGES
PINNED, CLAMPED = ['TX', 'TY', 'TZ'], ['TX', 'TY', 'TZ', 'RX', 'RY', 'RZ']
BASES = [
    {'lay': [30, -50, 70], 'mat': 'cfrp', 'bc': ('pinned',) * 4, 'ab': (2, 3), 'N': (-2, 1, 1)},
    {'lay': [0, 45, -45, 90, 90, -45, 45, 0], 'mat': 'gfrp_thick', 'bc': ('clamped', 'free', 'pinned', 'clamped'), 'ab': (4001, 3003), 'N': (-1048577, -3, 0)},
    {'lay': [20, 65], 'mat': 'alu', 'bc': ('clamped',) * 4, 'ab': (3, 1), 'N': (0, -7, 4)},
    {'lay': [90, 15], 'mat': 'e2_stiffer', 'bc': ('pinned', 'clamped', 'clamped', 'free'), 'ab': (1, 2), 'N': (-12345678, 0, -2345671)},
    # whole thickness: it may be written as an integer
    {'lay': [25, -40, 90, 10, 65], 'mat': 'nu0', 'bc': ('free', 'clamped', 'pinned', 'pinned'), 'ab': (70, 45), 'N': (-5, -2, 3)},
]
LAYS = ['list', 'tuple', 'array', 'each', 'copies', 'named', 'half_turns', 'halved', 'mixed_numbers', 'parameters', 'whole_thickness', 'whole_thickness_np', 'other_kind', 'small_integers', 'int8_array', 'series', 'plies_tuple', 'plies_array']
EDGES = ['names', 'upper', 'synonyms', 'freedoms', 'freedoms_reversed', 'freedoms_repeated', 'other_order', 'half_named', 'whole', 'default']
NUMBERS = ['float', 'int', 'np_float', 'np_int', 'float32']
CALLS = ['keyword', 'position']
MN = {'quick': [(3, 2)], 'thorough': [(3, 2), (2, 3), (4, 4), (1, 1)]}


def prepare(tier):
    ref.integrals()


def BOUNDS(tier):
    return {'plates': len(BASES), 'laminate_forms': LAYS, 'edge_forms': EDGES, 'number_forms': NUMBERS, 'calls': CALLS,
            'basis': MN[tier]}


NUM = {'float': float, 'int': int, 'np_float': np.float64, 'np_int': np.int64, 'float32': np.float32}


def laminate(base, form):
    m = MATS[base['mat']]
    lay = base['lay']
    if form == 'tuple':
        return LaminateProperty(tuple(lay), mat(m))
    if form == 'array':
        return LaminateProperty(np.array(lay), mat(m))
    if form == 'each':
        r = mat(m)
        return LaminateProperty(list(lay), [r] * len(lay))
    if form == 'copies':
        return LaminateProperty(list(lay), [mat(m) for _ in lay])
    if form == 'named':
        return LaminateProperty(list(lay), [mat(m, name='ply %d' % (i % 2)) for i, _ in enumerate(lay)])
    if form == 'half_turns':
        return LaminateProperty([t + 180 * (-1) ** i for i, t in enumerate(lay)], mat(m))
    if form == 'halved':
        thin = mat(ref.Mat(m.e1, m.e2, m.v12, m.g12, m.t / 2, *m.allow)) if not m.iso else \
            mat(ref.Mat.isotropic(m.e1, m.v12, m.g12, m.t / 2, m.allow[0], m.allow[1], m.allow[4]))
        return LaminateProperty([t for t in lay for _ in (0, 1)], thin)
    if form == 'mixed_numbers':
        return LaminateProperty([(float, int, np.float64, np.int32)[i % 4](t) for i, t in enumerate(lay)], mat(m))
    if form == 'small_integers':
        return LaminateProperty([(np.int8, np.int16)[i % 2](t) for i, t in enumerate(lay)], mat(m))
    if form == 'int8_array':
        return LaminateProperty(np.array(lay, dtype=np.int8), mat(m))
    if form == 'series':
        return LaminateProperty(pd.Series(lay), mat(m))
    if form in ('plies_tuple', 'plies_array'):
        r = [mat(m) for _ in lay]
        return LaminateProperty(list(lay), tuple(r) if form == 'plies_tuple' else np.array(r, dtype=object))
    if form == 'parameters':
        xA, xD = ref.stack([(t, m) for t in lay]).xi()
        return LaminateProperty({'xiA': [float(v) for v in xA], 'xiD': [float(v) for v in xD], 'T': m.t * len(lay)}, mat(m))
    if form in ('whole_thickness', 'whole_thickness_np'):
        T = m.t * len(lay)
        if T != round(T):
            return None
        xA, xD = ref.stack([(t, m) for t in lay]).xi()
        return LaminateProperty({'xiA': tuple(xA), 'xiD': np.array(xD), 'T': (int if form == 'whole_thickness' else np.int32)(T)}, mat(m))
    if form == 'other_kind':
        t1, c1, t2, c2, s = m.allow
        if m.iso:  # an orthotropic ply with the constants of the isotropic one
            return LaminateProperty(list(lay), OrthotropicMaterial(m.e1, m.e1, m.v12, m.g12, m.t, t1, c1, t1, c1, s))
        # the axes of the ply exchanged
        return LaminateProperty([t + 90 for t in lay], OrthotropicMaterial(m.e2, m.e1, m.v12 * m.e2 / m.e1, m.g12, m.t, t2, c2, t1, c1, s))
    return LaminateProperty(list(lay), mat(m))


def edges(base, form):
    """None: the form cannot express these edges; otherwise keyword arguments"""
    bc = base['bc']
    if form == 'default':
        return {} if bc == ('pinned',) * 4 else None
    if form == 'whole':
        return {'constraints': bc[0].upper()} if len(set(bc)) == 1 else None
    full = {'free': [], 'pinned': PINNED, 'clamped': CLAMPED}
    d = dict(zip(E, bc))
    if form == 'upper':
        d = {k: v.upper() for k, v in d.items()}
    elif form == 'synonyms':
        d = {k: {'pinned': 'simply_supported', 'clamped': 'fixed'}.get(v, v) for k, v in d.items()}
    elif form == 'freedoms':
        d = {k: list(full[v]) for k, v in d.items()}
    elif form == 'freedoms_reversed':
        d = {k: full[v][::-1] for k, v in d.items()}
    elif form == 'freedoms_repeated':
        d = {k: full[v] + full[v][:2] for k, v in d.items()}
    elif form == 'half_named':
        d = {k: v if i % 2 else list(full[v]) for i, (k, v) in enumerate(d.items())}
    elif form == 'other_order':
        d = {k: d[k] for k in E[::-1]}
    return {'constraints': d}


def one(i, lf, ef, nf, call, mn):
    base = BASES[i]
    kw = edges(base, ef)
    m = MATS[base['mat']]
    lam = laminate(base, lf)
    if lam is None:
        return
    num = NUM[nf]
    ab, N = [num(x) for x in base['ab']], [num(x) for x in base['N']]
    if call == 'position' and kw:
        p = PlateStructure(lam, *ab, kw['constraints'], *N, *mn)
    else:
        p = PlateStructure(dproperty=lam, a=ab[0], b=ab[1], Nxx=N[0], Nyy=N[1], Nxy=N[2], m=mn[0], n=mn[1], **kw)
    st = ref.stack([(t, m) for t in base['lay']])
    bc = dict(zip(E, base['bc']))
    adm = ref.admissible(bc, *mn)
    Kr, S = ref.K_bend(st.ABD()[3:, 3:], *base['ab'], adm[2])
    G, SG = ref.KG_bend(*base['N'], *base['ab'], adm[2])
    mu = ref.factors(Kr, G)
    want = np.array([1 / x for x in mu if x > 1e-7 * np.abs(mu).max()][:3])
    got = np.asarray(p.buckling_analysis()[0], float)[:len(want)]
    need(ref.close(got, want, want, 1e-5), 'critical factors')
    K, KG = p.calc_K_KG_D()
    need(ref.close(K, Kr, S, KTOL), 'bending stiffness')
    need(ref.close(KG, G, SG, KTOL), 'geometric stiffness')
    if lf == 'parameters' or lf.startswith('whole'):
        return
    ABD = st.ABD()
    if lf in ('halved', 'other_kind'):
        need(ref.close(lam.ABD, ABD, np.abs(ABD).max(), 1e-9), 'ABD')
    else:
        check_laminate(lam, st, '', ('z', 'A', 'B', 'D', 'ABD'))
    if lf != 'other_kind':
        for x, w, name in zip((lam.xiA, lam.xiD), st.xi(), ('xiA', 'xiD')):
            need(ref.close(x, w, 1., 1e-9), name)
    KF, _ = p.calc_K_KG_ABD()
    KFr, SF = ref.K_full(ABD, *base['ab'], adm)
    need(ref.close(np.asarray(KF, float), KFr, SF, KTOL), 'stiffness of the coupled plate')
    if not m.iso and lf == 'other_kind':
        return  # directions 1 and 2 are exchanged in the tables
    load = dict(zip(('Nxx', 'Nyy', 'Nxy', 'Mxx', 'Myy', 'Mxy'), N + [num(2), num(-1), num(3)]))
    df = LaminateStrength(lam, **load).calculate_maxstressmargin() if call == 'keyword' else \
        LaminateStrength(lam, *load.values()).calculate_maxstressmargin()
    e = np.linalg.solve(ABD, np.array([float(v) for v in load.values()]))
    rows = []
    n = 2 if lf == 'halved' else 1
    z = np.linspace(-st.h / 2, st.h / 2, n * len(base['lay']) + 1)
    for k in range(n * len(base['lay'])):
        for face in (0, 1):
            s = m.Q0() @ ref.strain_to_material(base['lay'][k // n], e[:3] + z[k + face] * e[3:])
            rows.append([max(s[0], 0), max(-s[0], 0), abs(s[2])])
    rows = np.array(rows)
    # the stress each margin stands for
    for c, col, allow in zip(('margin_t1', 'margin_c1', 'margin_s'), rows.T, (m.allow[0], m.allow[1], m.allow[4])):
        g = np.array([float(v) for v in df[c]])
        if g.shape != col.shape:
            raise Fail('%d rows of %s' % (len(g), c))
        need(ref.close(allow / (g + 1), col, rows.max(), 1e-8), 'stress behind ' + c)


def shards(tier):
    return [{'base': i, 'lay': lf, 'mn': mn} for mn in MN[tier] for i in range(len(BASES)) for lf in LAYS
            if not lf.startswith('whole') or float(MATS[BASES[i]['mat']].t * len(BASES[i]['lay'])).is_integer()]


def explore(shard, rec):
    for ef, nf, call in itertools.product(EDGES, NUMBERS, CALLS):
        if rec.full:
            return
        if edges(BASES[shard['base']], ef) is None:
            continue
        c = [shard['base'], shard['lay'], ef, nf, call, list(shard['mn'])]
        rec.state()
        rec.step(4)
        rec.outcome((shard['base'], tuple(shard['mn'])))
        rec.run({'c': c}, lambda: one(*c))


def replay(case, rec):
    rec.run(case, lambda: one(*case['c']))
