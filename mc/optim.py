"""reference for the optimisers: the critical load over a lattice of lamination parameters"""
import math

import numpy as np

from mc import ref

MATS = {'cfrp': ref.Mat(129500., 9370., 0.38, 5240., 0.1), 'gfrp': ref.Mat(39000., 8600., 0.28, 3800., 0.1),
        'si': ref.Mat(60800e6, 58250e6, 0.07, 4550e6, 0.1)}
REGION = {True: lambda x, y: min(y + 2 * x + 1, y - 2 * x + 1), False: lambda x, y: y - 2 * x * x + 1}


class Problem:
    def __init__(self, ab, mat, N, bc, mn):
        self.a, self.b = ab
        self.mat = MATS[mat]
        self.adm = ref.admissible(bc, *mn)[2]
        top = max(abs(x) for x in N)
        self.norm = top
        self.KG = ref.KG_bend(*[x / top for x in N], *ab, self.adm)[0]
        # stiffness is linear in the parameters
        base = [ref.K_bend(ref.from_xi(self.mat, xi, 1 / 12), *ab, self.adm)[0]
                for xi in ([0, 0, 0, 0], [1, 0, 0, 0], [0, 0, 1, 0])]
        self.K0, self.K1, self.K3 = base[0], base[1] - base[0], base[2] - base[0]

    def unit(self, x, y):
        """critical value of the normalised load for thickness 1"""
        mu = ref.factors(self.K0 + x * self.K1 + y * self.K3, self.KG)
        return 1 / mu[0] if mu[0] > 0 else math.inf

    def best(self, penalty, step=0.1):
        pts = np.arange(-1, 1 + step / 2, step)
        top, self.at = max((self.unit(x, y), (float(x), float(y))) for x in pts for y in pts if REGION[penalty](x, y) >= -1e-9)
        return top

    def gap(self, x, y):
        """how far the second critical load is from the first (0: both at once)"""
        mu = np.sort(ref.factors(self.K0 + x * self.K1 + y * self.K3, self.KG))[::-1]
        return 1 - mu[1] / mu[0] if len(mu) > 1 and mu[1] > 0 else 1.
