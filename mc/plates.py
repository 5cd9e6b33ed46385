"""shared pieces of the plate checks"""
import itertools

import numpy as np

from composipy import LaminateProperty, PlateStructure

from mc import ref
from mc.core import Fail
from mc.real import MATS, laminate, mat, model, need

KTOL = 2e-6  # pre-integrated terms of the package carry ~2e-7 of rounding


class Given(LaminateProperty):
    """a plate property whose stiffness is given directly (its stack is unsymmetric, unbalanced and of
    unequal plies, so that no shortcut for special stacks applies to it)"""

    def __init__(self, ABD):
        super().__init__([17., -63., 41.], [mat(MATS[k], name=k) for k in ('cfrp', 'gfrp_thick', 'cfrp_thin')])
        self.given = np.array(ABD, float)

    ABD = property(lambda self: self.given.copy())
    A = property(lambda self: self.given[:3, :3].copy())
    B = property(lambda self: self.given[:3, 3:].copy())
    D = property(lambda self: self.given[3:, 3:].copy())


def unit(r, s, value=1.):
    M = np.zeros((6, 6))
    M[r, s] = M[s, r] = value
    # B is symmetric too
    if r < 3 <= s:
        M[s - 3, r + 3] = M[r + 3, s - 3] = value
    return M


COMPONENTS = {}
for _n, _o, _p in (('A', 0, 0), ('B', 0, 3), ('D', 3, 3)):
    for _l, (_i, _j) in zip(('11', '12', '16', '22', '26', '66'), ((0, 0), (0, 1), (0, 2), (1, 1), (1, 2), (2, 2))):
        COMPONENTS[_n + _l] = unit(_o + _i, _p + _j)
GENERIC = np.array([[50., 13, -7, 3, -2, 1.5], [13, 31, 5, -2, 4, 0.7], [-7, 5, 17, 1.5, 0.7, -1.1],
                    [3, -2, 1.5, 21, 6, -3], [-2, 4, 0.7, 6, 11, 2], [1.5, 0.7, -1.1, -3, 2, 8]])


def plate(prop, a, b, constraints, N=(0, 0, 0), m=2, n=2):
    kw = {} if constraints is None else {'constraints': constraints}
    return PlateStructure(prop, a, b, Nxx=N[0], Nyy=N[1], Nxy=N[2], m=m, n=n, **kw)


def check_full(ABD, a, b, constraints, N, m, n, prop=None, tol=KTOL, kg=True):
    p = plate(prop if prop is not None else Given(ABD), a, b, constraints, N, m, n)
    K, KG = p.calc_K_KG_ABD()
    adm = ref.admissible(constraints, m, n)
    Kr, S = ref.K_full(ABD, a, b, adm)
    K = np.asarray(K, float)
    need(ref.close(K, Kr, S, tol), 'stiffness matrix')
    if kg:
        G, SG = ref.KG_bend(*N, a, b, adm[2])
        k = len(G)
        Gf, Sf = np.zeros_like(Kr), np.zeros_like(Kr)
        Gf[-k:, -k:], Sf[-k:, -k:] = G, SG
        need(ref.close(KG, Gf, Sf, tol), 'geometric stiffness matrix')
    return K, Kr, S


def check_bend(D, a, b, constraints, N, m, n, prop=None, tol=KTOL):
    if prop is None:
        ABD = np.zeros((6, 6))
        ABD[3:, 3:] = D
        prop = Given(ABD)
    p = plate(prop, a, b, constraints, N, m, n)
    K, KG = p.calc_K_KG_D()
    adm = ref.admissible(constraints, m, n)[2]
    Kr, S = ref.K_bend(np.asarray(D, float), a, b, adm)
    need(ref.close(K, Kr, S, tol), 'bending stiffness matrix')
    G, SG = ref.KG_bend(*N, a, b, adm)
    need(ref.close(KG, G, SG, tol), 'geometric stiffness matrix')
    return K, KG


def jsonc(c):
    """constraints as JSON"""
    if isinstance(c, dict):
        return {k: (v if isinstance(v, str) else list(v)) for k, v in c.items()}
    return c
