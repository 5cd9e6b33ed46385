"""Reference models: boring, independent restatements of the documented theory.
Nothing here imports composipy."""
import itertools
import math
from fractions import Fraction as Fr
from functools import lru_cache

import numpy as np


# --------------------------------------------------------------------------- plies
class Mat:
    """plain record of one ply material (orthotropic; isotropic has e1==e2 and its own g)"""

    def __init__(self, e1, e2, v12, g12, t, t1=0, c1=0, t2=0, c2=0, s=0, iso=False):
        self.e1, self.e2, self.v12, self.g12, self.t = map(float, (e1, e2, v12, g12, t))
        self.allow = tuple(map(float, (t1, c1, t2, c2, s)))
        self.iso = iso

    @staticmethod
    def isotropic(e, v, g, t, tt=0, c=0, s=0):
        return Mat(e, e, v, g, t, tt, c, tt, c, s, iso=True)

    def Q0(self):
        # inverse of the compliance: e1 = s1/E1 - v12/E1 s2 ; e2 = -v12/E1 s1 + s2/E2 ; g = t/G
        S = [[1 / self.e1, -self.v12 / self.e1], [-self.v12 / self.e1, 1 / self.e2]]
        det = S[0][0] * S[1][1] - S[0][1] * S[1][0]
        return np.array([[S[1][1] / det, -S[0][1] / det, 0.],
                         [-S[1][0] / det, S[0][0] / det, 0.],
                         [0., 0., self.g12]])


def rot(theta):
    """material axes seen from plate axes"""
    r = math.radians(theta)
    c, s = math.cos(r), math.sin(r)
    return np.array([[c, s], [-s, c]])


def tensor(v, engineering):
    h = v[2] / 2 if engineering else v[2]
    return np.array([[v[0], h], [h, v[1]]])


def vector(t, engineering):
    return np.array([t[0, 0], t[1, 1], t[0, 1] * (2 if engineering else 1)])


def strain_to_material(theta, eps):
    R = rot(theta)
    return vector(R @ tensor(eps, True) @ R.T, True)


def stress_to_material(theta, sig):
    R = rot(theta)
    return vector(R @ tensor(sig, False) @ R.T, False)


def stress_to_plate(theta, sig):
    R = rot(theta)
    return vector(R.T @ tensor(sig, False) @ R, False)


def Qbar(mat, theta):
    Q = mat.Q0()
    cols = []
    for k in range(3):
        e = np.zeros(3)
        e[k] = 1.
        cols.append(stress_to_plate(theta, Q @ strain_to_material(theta, e)))
    return np.array(cols).T


# --------------------------------------------------------------------------- laminates
class Stack:
    """incremental laminate: plies are laid one on the other starting at the bottom face.
    Moments of stiffness are kept about the bottom face and moved to mid-height on request."""

    def __init__(self):
        self.h = 0.
        self.plies = []
        self.M = [np.zeros((3, 3)) for _ in range(3)]
        self.X = [np.zeros(4) for _ in range(3)]

    def push(self, theta, mat):
        new = Stack()
        z0, z1 = self.h, self.h + mat.t
        new.h = z1
        new.plies = self.plies + [(theta, mat)]
        Q = Qbar(mat, theta)
        r = math.radians(theta)
        x = np.array([math.cos(2 * r), math.sin(2 * r), math.cos(4 * r), math.sin(4 * r)])
        zc, t = (z0 + z1) / 2, mat.t
        mom = [t, t * zc, t * zc * zc + t ** 3 / 12]
        new.M = [m + w * Q for m, w in zip(self.M, mom)]
        new.X = [m + w * x for m, w in zip(self.X, mom)]
        return new

    def _shift(self, M):
        c = self.h / 2
        return M[0], M[1] - c * M[0], M[2] - 2 * c * M[1] + c * c * M[0]

    def ABD(self):
        A, B, D = self._shift(self.M)
        return np.block([[A, B], [B, D]])

    def norms(self):
        """magnitudes against which differences in A, B, D are judged"""
        q = max(np.abs(m.Q0()).max() for _, m in self.plies)
        return q * self.h, q * self.h ** 2, q * self.h ** 3

    def xi(self):
        A, _, D = self._shift(self.X)
        return A / self.h, 12 * D / self.h ** 3

    def z(self):
        out = [-self.h / 2]
        for _, m in self.plies:
            out.append(out[-1] + m.t)
        return out


def stack(plies):
    s = Stack()
    for theta, mat in plies:
        s = s.push(theta, mat)
    return s


def invariants(mat):
    """U1..U5 as the angular averages that define them"""
    Q = mat.Q0()
    q11, q12, q22, q66 = Q[0, 0], Q[0, 1], Q[1, 1], Q[2, 2]
    return np.array([(3 * q11 + 3 * q22 + 2 * q12 + 4 * q66) / 8, (q11 - q22) / 2,
                     (q11 + q22 - 2 * q12 - 4 * q66) / 8, (q11 + q22 + 6 * q12 - 4 * q66) / 8,
                     (q11 + q22 - 2 * q12 + 4 * q66) / 8])


def from_xi(mat, xi, w):
    """stiffness (weight w = T or T^3/12) of lamination parameters xi, as a linear combination
    of the ply tensors of five angles; no formula of A/D in terms of the invariants is used"""
    angles = [0., 30., 60., 90., 135.]
    rows = []
    for t in angles:
        r = math.radians(t)
        rows.append([1., math.cos(2 * r), math.sin(2 * r), math.cos(4 * r), math.sin(4 * r)])
    coef = np.linalg.solve(np.array(rows).T, np.array([1.] + [float(x) for x in xi]))
    return w * sum(c * Qbar(mat, t) for c, t in zip(coef, angles))


# --------------------------------------------------------------------------- Bardell functions
def _dfact(n):
    if n in (-1, 0):
        return Fr(1)
    if n < 0:
        return _dfact(n + 2) / (n + 2)
    r = Fr(1)
    while n > 1:
        r *= n
        n -= 2
    return r


@lru_cache(None)
def poly(i):
    q, h, e = Fr(1, 4), Fr(1, 2), Fr(1, 8)
    if i < 4:
        return [{0: h, 1: -3 * q, 3: q}, {0: e, 1: -e, 2: -e, 3: e},
                {0: h, 1: 3 * q, 3: -q}, {0: -e, 1: -e, 2: e, 3: e}][i]
    r = i + 1
    d = {}
    for n in range(r // 2 + 1):
        p = r - 2 * n - 1
        if p >= 0:
            d[p] = Fr((-1) ** n) * _dfact(2 * r - 2 * n - 7) / (2 ** n * math.factorial(n) * math.factorial(p))
    return d


def dpoly(p):
    return {k - 1: v * k for k, v in p.items() if k}


def fval(i, x, d=0):
    """exact value of the d-th derivative of function i at a rational point"""
    p = poly(i)
    for _ in range(d):
        p = dpoly(p)
    return sum(v * Fr(x) ** k for k, v in p.items())


NF = 30


@lru_cache(None)
def integrals(nf=NF):
    """I[p][q][i,k] = integral over [-1,1] of f_i^(p) f_k^(q), exact then rounded"""
    D = []
    for i in range(nf):
        p0 = poly(i)
        p1 = dpoly(p0)
        D.append((p0, p1, dpoly(p1)))
    I = np.zeros((3, 3, nf, nf))
    den = [1, 1, 1]
    for o in range(3):
        L = 1
        for i in range(nf):
            for v in D[i][o].values():
                L = L * v.denominator // math.gcd(L, v.denominator)
        den[o] = L
    ints = [[[(k, int(v * den[o])) for k, v in D[i][o].items()] for o in range(3)] for i in range(nf)]
    LC = 1
    for k in range(1, 2 * nf + 2):
        LC = LC * k // math.gcd(LC, k)
    for p in range(3):
        for q in range(p + 1):
            dd = den[p] * den[q] * LC
            for i in range(nf):
                for k in range(nf):
                    s = 0
                    for a, x in ints[i][p]:
                        for b, y in ints[k][q]:
                            if (a + b) % 2 == 0:
                                s += x * y * 2 * (LC // (a + b + 1))
                    I[p, q, i, k] = float(Fr(s, dd))
                    I[q, p, k, i] = I[p, q, i, k]
    return I


_EDGES = ('x0', 'xa', 'y0', 'yb')
_NAMED = {'free': (), 'pinned': ('TX', 'TY', 'TZ'), 'simply_supported': ('TX', 'TY', 'TZ'),
          'fixed': ('TX', 'TY', 'TZ', 'RX', 'RY', 'RZ'), 'clamped': ('TX', 'TY', 'TZ', 'RX', 'RY', 'RZ')}


def edge_dofs(constraints):
    """documented meaning of the constraints argument: set of suppressed freedoms per edge"""
    if constraints is None:
        constraints = 'PINNED'
    if isinstance(constraints, str):
        constraints = {e: constraints for e in _EDGES}
    out = {}
    for e in _EDGES:
        c = constraints[e]
        out[e] = frozenset(_NAMED[c.lower()] if isinstance(c, str) else c)
    return out


def admissible(constraints, m, n):
    """per displacement u, v, w: (functions along x, functions along y) kept"""
    dof = edge_dofs(constraints)
    out = []
    for ax in 'XYZ':
        lists = []
        for lo, hi, size in (('x0', 'xa', m), ('y0', 'yb', n)):
            kept = []
            i = 0
            while len(kept) < size:
                bad = ((i == 0 and 'T' + ax in dof[lo]) or (i == 1 and 'R' + ax in dof[lo])
                       or (i == 2 and 'T' + ax in dof[hi]) or (i == 3 and 'R' + ax in dof[hi]))
                if not bad:
                    kept.append(i)
                i += 1
            lists.append(kept)
        out.append(tuple(lists))
    return out


def _gram(fx, fy, gx, gy, d1, d2):
    """integral of d1(field f) * d2(field g); basis index runs x slow, y fast"""
    I = integrals()
    X = I[d1[0], d2[0]][np.ix_(fx, gx)]
    Y = I[d1[1], d2[1]][np.ix_(fy, gy)]
    return np.kron(X, Y)


def _norm(fx, fy, d):
    I = integrals()
    X = np.sqrt(np.diag(I[d[0], d[0]])[fx])
    Y = np.sqrt(np.diag(I[d[1], d[1]])[fy])
    return np.kron(X, Y)


def strain_ops(a, b):
    """(strain component, displacement field, factor, derivative order in xi and eta)"""
    return [(0, 0, 2 / a, (1, 0)), (1, 1, 2 / b, (0, 1)), (2, 0, 2 / b, (0, 1)), (2, 1, 2 / a, (1, 0)),
            (3, 2, -4 / a ** 2, (2, 0)), (4, 2, -4 / b ** 2, (0, 2)), (5, 2, -8 / (a * b), (1, 1))]


def magnitude(M):
    """entries of a stiffness, never below what rounding leaves of entries that cancel"""
    M = np.abs(np.asarray(M, float))
    if M.shape == (6, 6):
        out = M.copy()
        nA, nD = M[:3, :3].max(), M[3:, 3:].max()
        for (r, c), v in {(0, 0): nA, (0, 3): np.sqrt(nA * nD), (3, 0): np.sqrt(nA * nD), (3, 3): nD}.items():
            out[r:r + 3, c:c + 3] += 1e-6 * v
        return out
    return M + 1e-6 * M.max()


def K_full(ABD, a, b, adm):
    """second derivative of the strain energy, and the scale of its entries"""
    mag = magnitude(ABD)
    size = [len(x) * len(y) for x, y in adm]
    off = [0, size[0], size[0] + size[1]]
    K = np.zeros((sum(size), sum(size)))
    S = np.zeros_like(K)
    ops = strain_ops(a, b)
    for r, f, cr, d1 in ops:
        for s, g, cs, d2 in ops:
            w = ABD[r, s] * cr * cs * a * b / 4
            sl = (slice(off[f], off[f] + size[f]), slice(off[g], off[g] + size[g]))
            K[sl] += w * _gram(*adm[f], *adm[g], d1, d2)
            S[sl] += mag[r, s] * abs(cr * cs) * a * b / 4 * np.outer(_norm(*adm[f], d1), _norm(*adm[g], d2))
    return K, S


def K_bend(D, a, b, admw):
    size = len(admw[0]) * len(admw[1])
    K = np.zeros((size, size))
    S = np.zeros_like(K)
    mag = magnitude(D)
    ops = [(r - 3, c, d) for r, f, c, d in strain_ops(a, b) if f == 2]
    for r, cr, d1 in ops:
        for s, cs, d2 in ops:
            w = D[r, s] * cr * cs * a * b / 4
            K += w * _gram(*admw, *admw, d1, d2)
            S += mag[r, s] * abs(cr * cs) * a * b / 4 * np.outer(_norm(*admw, d1), _norm(*admw, d2))
    return K, S


def KG_bend(Nxx, Nyy, Nxy, a, b, admw):
    """second derivative of the work of the in-plane loads through the slopes of w"""
    size = len(admw[0]) * len(admw[1])
    K = np.zeros((size, size))
    S = np.zeros_like(K)
    ops = [(0, 2 / a, (1, 0)), (1, 2 / b, (0, 1))]
    N = np.array([[Nxx, Nxy], [Nxy, Nyy]], dtype=float)
    for r, cr, d1 in ops:
        for s, cs, d2 in ops:
            w = N[r, s] * cr * cs * a * b / 4
            if w == 0:
                continue
            K += w * _gram(*admw, *admw, d1, d2)
            S += abs(w) * np.outer(_norm(*admw, d1), _norm(*admw, d2))
    return K, S


def factors(K, KG):
    """all buckling factors, through the Cholesky factor of K (largest 1/factor first)"""
    L = np.linalg.cholesky(K)
    Li = np.linalg.inv(L)
    mu = np.linalg.eigvalsh(-(Li @ KG @ Li.T))  # 1/factor
    return mu[::-1]


def close(x, y, scale, tol):
    """worst |x-y|/scale; scale 0 asks for exact zero up to tol of the largest scale"""
    x, y = np.asarray(x, dtype=float), np.asarray(y, dtype=float)
    if x.shape != y.shape:
        return 'shape %s instead of %s' % (x.shape, y.shape)
    scale = np.broadcast_to(np.asarray(scale, dtype=float), x.shape)
    big = scale.max() if scale.size else 1.
    lim = tol * np.where(scale > 0, scale, big * 1e-6)
    bad = ~(np.abs(x - y) <= lim)
    if bad.any():
        i = tuple(int(v) for v in np.argwhere(bad)[0])
        return 'entry %s is %r, expected %r (%d of %d entries differ)' % (
            list(i), float(x[i]), float(y[i]), int(bad.sum()), x.size)
    return None


def selftest():
    m = Mat(129500, 9370, 0.38, 5240, 0.2)
    assert abs(m.Q0()[0, 0] - 130867.31382151) < 1e-6
    U = invariants(m)
    for t in (0, 17, 45, 90, -30):
        r = math.radians(t)
        q11 = U[0] + U[1] * math.cos(2 * r) + U[2] * math.cos(4 * r)
        assert abs(Qbar(m, t)[0, 0] - q11) < 1e-6
        q16 = U[1] / 2 * math.sin(2 * r) + U[2] * math.sin(4 * r)
        assert abs(Qbar(m, t)[0, 2] - q16) < 1e-6
    s = stack([(t, m) for t in (0, 45, -45, 90, 20)])
    xa, xd = s.xi()
    assert np.allclose(from_xi(m, xa, s.h), s.ABD()[:3, :3])
    assert np.allclose(from_xi(m, xd, s.h ** 3 / 12), s.ABD()[3:, 3:])
    # direct through-thickness quadrature
    z = s.z()
    gx, gw = np.polynomial.legendre.leggauss(3)
    acc = np.zeros((6, 6))
    for k, (t, mm) in enumerate(s.plies):
        for x, w in zip(gx, gw):
            zz = (z[k] + z[k + 1]) / 2 + x * (z[k + 1] - z[k]) / 2
            acc += w * (z[k + 1] - z[k]) / 2 * np.kron(np.array([[1, zz], [zz, zz * zz]]), Qbar(mm, t))
    assert np.allclose(acc, s.ABD())
    # boundary values of the basis: unit translation / rotation at one edge only
    for i in range(NF):
        vals = [fval(i, -1), fval(i, -1, 1), fval(i, 1), fval(i, 1, 1)]
        want = [Fr(0)] * 4
        if i < 4:
            want[i] = Fr(1) if i in (0, 2) else Fr(1, 2)
        assert vals == want, (i, vals)
    # rigid body motions carry no energy, simply supported square plate has the closed-form factor
    D = s.ABD()[3:, 3:]
    I = integrals()
    assert abs(I[0, 0, 4, 4] - float(sum(Fr(2) * v * w / (a + b + 1) for a, v in poly(4).items()
                                         for b, w in poly(4).items() if (a + b) % 2 == 0))) < 1e-15
    adm = admissible('PINNED', 9, 9)[2]
    Di = np.array([[5., 1.5, 0], [1.5, 3., 0], [0, 0, 1.]])
    aa, bb = 1.7, 1.1
    f = 1 / factors(K_bend(Di, aa, bb, adm)[0], KG_bend(-1, 0, 0, aa, bb, adm)[0])[0]
    ex = min(math.pi ** 2 * (Di[0, 0] * (p / aa) ** 2 + 2 * (Di[0, 1] + 2 * Di[2, 2]) / bb ** 2
                             + Di[1, 1] * aa ** 2 / (p * p * bb ** 4)) for p in (1, 2, 3))
    assert abs(f / ex - 1) < 1e-4, (f, ex)
