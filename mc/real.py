"""construction of the real objects that correspond to reference records"""
import itertools

import numpy as np
from composipy import IsotropicMaterial, LaminateProperty, LaminateStrength, OrthotropicMaterial, PlateStructure

from mc import ref
from mc.core import Fail

TOL = 1e-9


def mat(m, **kw):
    t1, c1, t2, c2, s = m.allow
    # an allowable that is not known is left out
    if m.iso:
        kw.update({k: v for k, v in (('t', t1), ('c', c1), ('s', s)) if v})
        return IsotropicMaterial(m.e1, m.v12, m.g12, m.t, **kw)
    known = {k: v for k, v in zip(('t1', 'c1', 't2', 'c2', 's'), m.allow) if v}
    if len(known) < 5:
        return OrthotropicMaterial(m.e1, m.e2, m.v12, m.g12, m.t, **known, **kw)
    return OrthotropicMaterial(m.e1, m.e2, m.v12, m.g12, m.t, t1, c1, t2, c2, s, **kw)


M = ref.Mat
MATS = {
    'cfrp': M(129500, 9370, 0.38, 5240, 0.2, 1500, 1200, 50, 250, 70),
    'cfrp_thin': M(129500, 9370, 0.38, 5240, 0.07, 1510, 1190, 51, 240, 75),
    'gfrp_thick': M(39000., 8600., 0.28, 3800., 0.55, 1080, 620, 39, 128, 89),
    'fabric': M(70000, 70000, 0.1, 5000, 0.3, 600, 570, 610, 560, 90),
    'e2_stiffer': M(9370, 129500, 0.02, 5240, 0.25, 50, 250, 1500, 1200, 71),
    'cfrp_near': M(129500, 9370, 0.38, 5240, 0.2012, 1500, 1200, 50, 250, 70),
    'cfrp_next': M(129500, 9370, 0.38, 5240, 0.20001, 1500, 1200, 50, 250, 70),
    'cfrp_weak': M(129500, 9370, 0.38, 5240, 0.2, 720, 1350, 95, 160, 31),
    'nu0': M(120000, 10000, 0, 4000, 1, 900, 800, 40, 200, 60),
    'auxetic': M(50000, 30000, -0.25, 9000, 0.125, 700, 650, 300, 350, 80),
    'nu_max': M(60000, 20000, 0.5, 12000, 0.4, 800, 700, 100, 150, 65),
    'si': M(1.295e11, 9.37e9, 0.38, 5.24e9, 2e-4, 1.5e9, 1.2e9, 5e7, 2.5e8, 7e7),
    'si_odd': M(1.2345678e11, 8.7654321e9, 0.31, 4.9876543e9, 1.2345678e-4, 1.5e9, 1.2e9, 5e7, 2.5e8, 7e7),
    'nano': M(1.295e11, 9.37e9, 0.38, 5.24e9, 1e-9, 1.5e9, 1.2e9, 5e7, 2.5e8, 7e7),
    'nano_thick': M(9.3e10, 1.17e10, 0.33, 6.1e9, 3e-9, 1.4e9, 1.1e9, 6e7, 2.4e8, 8e7),
    'soft': M(3.5, 0.9, 0.3, 0.45, 12.0, 0.05, 0.06, 0.02, 0.03, 0.01),
    'bare': M(40000, 9000, 0.3, 4500, 0.2, 0, 0, 0, 0, 0),
    'partly': M(130000, 9000, 0.35, 4700, 0.15, 1400, 0, 45, 0, 0),
    'alu': ref.Mat.isotropic(71000, 0.33, 26692, 0.4, 300, 280, 180),
    'alu_weak': ref.Mat.isotropic(71000, 0.33, 26692, 0.4, 150, 410, 77),
    'alu_g': ref.Mat.isotropic(70000, 0.3, 20000, 1.6, 310, 290, 170),
    'alu_t': ref.Mat.isotropic(69000, 0.31, 26500, 0.3, 320, 0, 0),
    'alu_c': ref.Mat.isotropic(210000, 0.28, 80000, 0.05, 0, 410, 150),
}
ALL_MATS = list(MATS)


def laminate(word, one_material=False, form='list', pool=None):
    """word: sequence of (angle, material name)"""
    pool = pool if pool is not None else {}
    for _, k in word:
        if k not in pool:
            pool[k] = mat(MATS[k])
    angles = [a for a, _ in word]
    plies = [pool[k] for _, k in word]
    if form == 'tuple':
        angles, plies = tuple(angles), tuple(plies)
    elif form == 'ndarray':
        angles = np.array(angles)
    if one_material:
        plies = pool[word[0][1]]
    return LaminateProperty(angles, plies)


def model(word):
    return ref.stack([(a, MATS[k]) for a, k in word])


# the same plies in other units of force and length (tiny and huge numbers)
UNITS = [(1., 1.), (1e-6, 1.), (1e-3, 1e-3), (1e-9, 1e-1), (1e9, 10.), (1e-14, 1.)]


def in_units(m, force, length):
    q = force / length ** 2
    new = ref.Mat(m.e1 * q, m.e2 * q, m.v12, m.g12 * q, m.t * length, *(x * q for x in m.allow), iso=m.iso)
    return new


def both_in_units(word, unit):
    """(real laminate, reference) of a stack whose numbers are given in other units"""
    force, length = UNITS[unit]
    if unit == 0:
        return laminate(word), model(word)
    pool = {k: in_units(MATS[k], force, length) for _, k in word}
    real = {k: mat(m) for k, m in pool.items()}
    return LaminateProperty([a for a, _ in word], [real[k] for _, k in word]), ref.stack([(a, pool[k]) for a, k in word])


def need(msg, what=''):
    if msg:
        raise Fail(what + ': ' + msg)


def words(letters, depth, least=1):
    """all words in breadth-first order"""
    for n in range(least, depth + 1):
        yield from itertools.product(letters, repeat=n)


def check_laminate(lam, st, what='', parts=('z', 'Q', 'A', 'B', 'D', 'ABD')):
    nA, nB, nD = st.norms()
    ABD = st.ABD()
    if 'z' in parts:
        need(ref.close(lam.z_position, st.z(), st.h, TOL), what + 'ply interface positions')
    if 'Q' in parts:
        Q = lam.Q_layup
        if len(Q) != len(st.plies):
            raise Fail(what + 'number of plies')
        for q, (t, m) in zip(Q, st.plies):
            need(ref.close(q, ref.Qbar(m, t), np.abs(m.Q0()).max(), TOL), what + 'ply stiffness in plate axes, ply at %s' % t)
    if 'A' in parts:
        need(ref.close(lam.A, ABD[:3, :3], nA, TOL), what + 'A')
    if 'B' in parts:
        need(ref.close(lam.B, ABD[:3, 3:], nB, TOL), what + 'B')
    if 'D' in parts:
        need(ref.close(lam.D, ABD[3:, 3:], nD, TOL), what + 'D')
    if 'ABD' in parts:
        sc = np.block([[np.full((3, 3), nA), np.full((3, 3), nB)], [np.full((3, 3), nB), np.full((3, 3), nD)]])
        need(ref.close(lam.ABD, ABD, sc, TOL), what + 'ABD')
