"""C06 results depend only on the inputs, not on what was computed before.

(a) reads: breadth-first search over sequences of public calls on one object graph until no new
    internal state appears (the state is the whole instance dictionary, whatever its fields are);
    every answer is compared with the one of a fresh object.  Sequences are also run unmerged up to a
    depth, because state hidden in modules or classes is not part of that key.
(b) histories across objects: every ordered pair (and, deeper, triple) of problems out of a universe
    whose members collide in the keys a shared cache could use (same name, angles, thickness, sizes,
    identity of shared materials); each history runs in its own process.
(c) the caller changes its own containers after building an object, at every point of a read history;
    the object must not follow, and the library must not change the containers either."""
import contextlib
import copy
import ctypes
import io
import itertools
import multiprocessing as mp
import os
import pickle
import signal
import sys
import time

import numpy as np

from composipy import IsotropicMaterial, LaminateProperty, LaminateStrength, OrthotropicMaterial, PlateStructure

from mc import core
from mc.core import Fail
from mc.c14 import draw

ID = 'C06'
DEPTH = {'quick': 2, 'thorough': 3}
PAIR = {'quick': 2, 'thorough': 3}
CAP = 4000
FIXPOINT_SECONDS = 300
INTERLEAVED = 6


# ------------------------------------------------------------------------- observations
def plain(v):
    """comparable form of an answer"""
    if isinstance(v, np.ndarray):
        return v.astype(float).tolist() if v.dtype.kind in 'ifu' else v.tolist()
    if hasattr(v, 'to_dict'):
        return {str(c): plain(list(v[c])) for c in v.columns}
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    if isinstance(v, dict):
        return {str(k): plain(x) for k, x in v.items()}
    if isinstance(v, (np.floating, np.integer)):
        return float(v)
    if isinstance(v, (int, float, str, bool, type(None))):
        return v
    return repr(type(v))


def same(a, b, path=''):
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return '%s: %d items, %d expected' % (path, len(a), len(b))
        if a and all(isinstance(x, (int, float)) and not isinstance(x, bool) for x in a + b):
            x, y = np.array(a, float), np.array(b, float)
            fin = np.isfinite(y)
            if not np.array_equal(fin, np.isfinite(x)) or not np.array_equal(x[~fin], y[~fin], equal_nan=True):
                return '%s: %s, %s expected' % (path, a[:6], b[:6])
            sc = np.abs(y[fin]).max() if fin.any() else 0.
            if np.abs(x[fin] - y[fin]).max(initial=0.) > 1e-7 * sc + 1e-300:
                return '%s: %s, %s expected' % (path, a[:6], b[:6])
            return None
        for i, (x, y) in enumerate(zip(a, b)):
            m = same(x, y, '%s[%d]' % (path, i))
            if m:
                return m
        return None
    if isinstance(a, dict) and isinstance(b, dict):
        if sorted(a) != sorted(b):
            return '%s: keys %s, %s expected' % (path, sorted(a), sorted(b))
        for k in a:
            m = same(a[k], b[k], path + '.' + k)
            if m:
                return m
        return None
    if isinstance(a, float) or isinstance(b, float):
        return same([a], [b], path)
    return None if a == b else '%s: %r, %r expected' % (path, a, b)


def modes(p, k):
    vals, vecs = p.buckling_analysis(num_eigvalues=k)
    vecs = np.array(vecs, float)
    for j in range(vecs.shape[1]):
        i = np.argmax(np.abs(vecs[:, j]))
        vecs[:, j] /= vecs[i, j]
    return [plain(np.array(vals, float)), plain(vecs)]


def surface(p):
    X, Y, Z = draw(p, ngridx=3, ngridy=4)
    i = np.argmax(np.abs(Z))
    return [plain(X), plain(Y), plain(Z / Z.flat[i])]


# ------------------------------------------------------------------------- (a) object graphs
MATS = {'o': (OrthotropicMaterial, (129500., 9370., .38, 5240., .2, 1500., 1200., 50., 250., 70.)),
        'thin': (OrthotropicMaterial, (129500., 9370., .38, 5240., .07, 1510., 1190., 51., 240., 75.)),
        'i': (IsotropicMaterial, (71000., .33, 26692., .4, 300., 280., 180.))}


class Graph:
    """material(s), laminate, plate and strength objects that share one another"""

    def __init__(self, kind):
        self.kind = kind
        self.mat = {k: c(*a, name=None if kind == 'unnamed' else 'ply') for k, (c, a) in MATS.items()}
        m = self.mat
        if kind == 'lp':
            self.stacking = {'xiA': [.1, -.2, .3, .05], 'xiD': [.2, .1, -.4, .15], 'T': 1.3}
            self.plies = m['o']
        elif kind == 'single':
            self.stacking, self.plies = [30, -50, 0, 90], m['o']
        else:
            self.stacking, self.plies = [30, -50, 0], [m['o'], m['i'], m['thin']]
        self.bc = {'x0': ['TX', 'TY', 'TZ'], 'xa': ['TX', 'TZ', 'RZ', 'RY'], 'y0': ['TZ', 'TY'], 'yb': ['TX', 'TZ', 'RX']}
        self.lam = LaminateProperty(self.stacking, self.plies)
        self.lam2 = LaminateProperty([0, 45], m['o'])
        self.plate = PlateStructure(self.lam, 2., 1.3, self.bc, -1., -.3, -.5, m=2, n=2)
        self.plate2 = PlateStructure(self.lam, 1., 1.3, Nyy=-1., m=2, n=2)
        self.st = LaminateStrength(self.lam, -10., -5., -3., -.4, -.2, -.1)

    def objects(self):
        return [self.lam, self.lam2, self.plate, self.plate2, self.st] + list(self.mat.values())


def ops(kind):
    o = {
        'A': lambda g: plain(g.lam.A), 'B': lambda g: plain(g.lam.B), 'D': lambda g: plain(g.lam.D),
        'ABD': lambda g: plain(g.lam.ABD), 'xiA': lambda g: plain(g.lam.xiA), 'xiD': lambda g: plain(g.lam.xiD),
        'eq': lambda g: [g.lam == Graph(kind).lam, g.lam == g.lam2],
        'Q0': lambda g: [plain(m.Q_0) for m in g.mat.values()],
        'U': lambda g: plain(g.mat['o'].Invariants()),
        'names': lambda g: [m.name for m in g.mat.values()],
        'eps0': lambda g: plain(g.st.epsilon0()),
        'K_D': lambda g: plain(g.plate.calc_K_KG_D()), 'K_ABD': lambda g: plain(g.plate.calc_K_KG_ABD()),
        'buckle5': lambda g: modes(g.plate, 5), 'buckle1': lambda g: modes(g.plate, 1),
        'other_lam': lambda g: [plain(g.lam2.ABD), plain(g.lam2.xiD)],
        'other_plate': lambda g: [plain(g.plate2.calc_K_KG_D()), modes(g.plate2, 2)],
    }
    if kind == 'unnamed':
        del o['names']
    if kind != 'lp':
        o.update({'Q': lambda g: plain(g.lam.Q_layup), 'T': lambda g: plain(g.lam.T_layup),
                  'z': lambda g: plain(g.lam.z_position), 'strain': lambda g: plain(g.st.calculate_strain()),
                  'stress': lambda g: plain(g.st.calculate_stress()), 'margin': lambda g: plain(g.st.calculate_maxstressmargin())})
    return o


# calls whose answer legitimately depends on an earlier one, and calls that only change a state
def stateful(kind):
    def setload(**kw):
        def f(g):
            for k, v in kw.items():
                setattr(g.st, k, v)
        return f
    return {'load1': setload(Nxx=7., Mxy=2.), 'load2': setload(Nxx=-10., Mxy=-.1)}


def canon(g):
    seen = {}

    def walk(v):
        if isinstance(v, np.ndarray):
            return ('a', v.shape, v.tobytes())
        if isinstance(v, (list, tuple)):
            return ('l',) + tuple(walk(x) for x in v)
        if isinstance(v, dict):
            return ('d',) + tuple((repr(k), walk(v[k])) for k in sorted(v, key=repr))
        if isinstance(v, (int, float, str, bool, type(None), np.generic)):
            return v
        if hasattr(v, '__dict__'):
            if id(v) in seen:
                return ('ref', seen[id(v)])
            seen[id(v)] = len(seen)
            return ('o', type(v).__name__, walk({k: x for k, x in vars(v).items() if k != '_id'}))
        return repr(type(v))
    return hash(tuple(walk(o) for o in g.objects()))


KINDS = ['list', 'single', 'lp']


def fresh_value(kind, op, loads):
    g = Graph(kind)
    for l in loads:
        stateful(kind)[l](g)
    return ops(kind)[op](g)


def run_hist(kind, hist, table):
    """replay a history; compare every answer with the fresh one"""
    g = Graph(kind)
    O, S = ops(kind), stateful(kind)
    load = 'none'
    for i, op in enumerate(hist):
        if op in S:
            S[op](g)
            load = op
            continue
        got = O[op](g)
        want = table[op, load if op in ('eps0', 'strain', 'stress', 'margin') else 'none']
        m = same(got, want, op)
        if m:
            raise Fail('after %s, %s' % (hist[:i], m))
    return g


def table(kind):
    t = {}
    for op in ops(kind):
        for l in ('none', 'load1', 'load2'):
            if l == 'none' or op in ('eps0', 'strain', 'stress', 'margin'):
                t[op, l] = fresh_value(kind, op, [] if l == 'none' else [l])
    return t


def cheap(kind):
    return [o for o in list(ops(kind)) + list(stateful(kind)) if o not in ('K_ABD', 'buckle1', 'other_plate')]


# ------------------------------------------------------------------------- (b) universe of problems
def U_material(e1=129500., v=.38, t=.2, name='ply', iso=False, t1=1500.):
    return IsotropicMaterial(e1, v, 5240., t, t1, 1200., 70., name=name) if iso else \
        OrthotropicMaterial(e1, 9370., v, 5240., t, t1, 1200., 50., 250., 70., name=name)


def lam_obs(l):
    return [plain(l.ABD), plain(l.Q_layup), plain(l.T_layup), plain(l.z_position), plain(l.xiA), plain(l.xiD)]


def universe():
    """name -> function(shared) -> observation.  `shared` is a dict the history may reuse objects from"""
    u = {}

    def lam(key, angles, plies):
        def f(sh):
            m = plies(sh)
            l = LaminateProperty(angles, m)
            return lam_obs(l)
        u['lam ' + key] = f

    def mat(sh, tag, **kw):
        if tag not in sh:
            sh[tag] = U_material(**kw)
        return sh[tag]
    A = [30, -50, 0]
    lam('base', A, lambda s: mat(s, 'm'))
    lam('same material, other order', [0, -50, 30], lambda s: mat(s, 'm'))
    lam('same material, one more ply', A + [90], lambda s: mat(s, 'm'))
    lam('same name and angles, other modulus', A, lambda s: U_material(e1=70000.))
    lam('same name and angles, other thickness', A, lambda s: U_material(t=.5))
    lam('same name and angles, other Poisson', A, lambda s: U_material(v=.1))
    lam('same name and angles, isotropic', A, lambda s: U_material(iso=True))
    lam('two materials', A, lambda s: [mat(s, 'm'), U_material(e1=70000.), U_material(t=.5)])
    lam('two materials, swapped', A, lambda s: [U_material(t=.5), mat(s, 'm'), U_material(e1=70000.)])
    lam('temporary material', [30], lambda s: U_material(e1=50000.))
    lam('unnamed', A, lambda s: OrthotropicMaterial(60000., 9000., .2, 4000., .1))
    lam('unnamed isotropic', A, lambda s: IsotropicMaterial(60000., .2, 4000., .1))

    def lp(key, T, xi, e1=129500.):
        def f(s):
            l = LaminateProperty({'xiA': [.1, 0, .2, 0], 'xiD': xi, 'T': T}, U_material(e1=e1))
            return [plain(l.ABD), plain(l.xiD)]
        u['lp ' + key] = f
    lp('base', 1., [.2, .1, -.4, .1])
    lp('thick', 2., [.2, .1, -.4, .1])
    lp('other', 1., [.2, .1, .4, .1])
    lp('modulus', 1., [.2, .1, -.4, .1], 70000.)

    def plate(key, a=2., b=1.3, bc='PINNED', N=(-1., .3, .5), m=2, n=2, e1=129500., angles=A, k=5):
        def f(s):
            l = LaminateProperty(list(angles), U_material(e1=e1))
            kw = {} if bc is None else {'constraints': copy.deepcopy(bc)}
            p = PlateStructure(l, a, b, Nxx=N[0], Nyy=N[1], Nxy=N[2], m=m, n=n, **kw)
            return [modes(p, k), plain(p.calc_K_KG_D()), surface(p)]
        u['plate ' + key] = f
    plate('base')
    plate('turned', a=1.3, b=2.)
    plate('clamped', bc='CLAMPED')
    plate('default edges', bc=None)
    plate('loads', N=(-1., .5, .3))
    plate('shape 2x3', n=3)
    plate('shape 3x2', m=3)
    plate('modulus', e1=70000.)
    plate('angles', angles=[-50, 30, 0])
    plate('mixed edges', bc={'x0': 'clamped', 'xa': 'pinned', 'y0': 'free', 'yb': 'pinned'})

    def full(key, bc, angles=A):
        def f(s):
            p = PlateStructure(LaminateProperty(angles, U_material()), 2., 1.3, bc, -1., 0, .5, m=2, n=1)
            return plain(p.calc_K_KG_ABD())
        u['full ' + key] = f
    full('pinned', 'PINNED')
    full('clamped', 'CLAMPED')
    full('angles', 'PINNED', [0, 90, 20])

    def strength(key, N, angles=A, t1=1500., method='calculate_maxstressmargin', shared='m'):
        def f(s):
            l = LaminateProperty(angles, mat(s, shared, t1=t1))
            st = LaminateStrength(l, *N)
            return [plain(getattr(st, method)()), plain(st.calculate_stress()), plain(st.epsilon0())]
        u['strength ' + key] = f
    strength('base', (10., -5., 3., .4, -.2, .1))
    strength('reversed load', (-10., 5., -3., -.4, .2, -.1))
    strength('strain', (10., -5., 3., .4, -.2, .1), method='calculate_strain')
    strength('angles', (10., -5., 3., .4, -.2, .1), angles=[30, 50, 0])
    strength('allowable', (10., -5., 3., .4, -.2, .1), t1=700., shared='t1')

    def seq(key, text):
        def f(s):
            from composipy.nastranapi import build_sequence, build_pcomp
            q = build_sequence(text)
            return [plain(q), build_pcomp(q, 1, .2), build_pcomp(q, list(range(len(q))), [.1] * len(q), sout='YES')]
        u['nastran ' + key] = f
    seq('a', '[\\pm45_2/0/(30/90)_2]s')
    seq('b', '[45/-30_{3}]')
    seq('c', '[45/-30_{3}]s')

    def opt(key, **kw):
        def f(s):
            from composipy.optimize import maximize_buckling_load
            a = dict(a=1., b=1.5, T=1., E1=129500., E2=9370., v12=.38, G12=5240., Nxx=-1., m=2, n=2)
            a.update(kw)
            r = maximize_buckling_load(**a)
            return round(float(r.fun), 0)
        u['maximize ' + key] = f
    opt('base')
    opt('load', Nxx=0, Nxy=-1.)
    opt('thick', T=2.)

    def mini(key, **kw):
        def f(s):
            from composipy.optimize import minimize_panel_weight
            a = dict(a=1., b=1.5, E1=129500., E2=9370., v12=.38, G12=5240., Nxx=-500., m=2, n=2)
            a.update(kw)
            r = minimize_panel_weight(**a)
            return round(float(r.x[0]), 3)
        u['minimize ' + key] = f
    mini('base')
    mini('load', Nxx=-9000.)

    # the same argument objects in call after call: none may be changed
    def given(s, tag):
        if tag not in s:
            s[tag] = ARGUMENTS[tag]()
        return s[tag]

    def mini_args(key, load, **tags):
        def f(s):
            from composipy.optimize import minimize_panel_weight
            kw = {k: given(s, v) for k, v in tags.items()}
            r = minimize_panel_weight(1., 1.5, 129500., 9370., .38, 5240., Nxx=load, m=2, n=2, **kw)
            return round(float(r.x[0]), 2 if 'tol' in tags else 3)
        u['minimize with ' + key] = f
    mini_args('start', -500., x0='x0')
    mini_args('start, other load', -9000., x0='x0', options='iterations')
    mini_args('start as array', -500., x0='x0 array')
    mini_args('options', -500., options='options')
    mini_args('edges', -500., panel_constraint='edge names', options='empty options')
    mini_args('lists of freedoms', -500., panel_constraint='edge lists')

    def maxi_args(key, plot=False, **tags):
        def f(s):
            from composipy.optimize import maximize_buckling_load
            kw = {k: given(s, v) for k, v in tags.items()}
            if plot:
                kw.update(plot=True, points_to_plot=3, penalty=False)
            with contextlib.redirect_stdout(io.StringIO()):
                r = maximize_buckling_load(1., 1.5, 1., 129500., 9370., .38, 5240., Nxx=-1., Nxy=.3, m=2, n=2, **kw)
            return float('%.3g' % r.fun)
        u['maximize with ' + key] = f
    maxi_args('options', options='options')
    maxi_args('edges', panel_constraint='edge names', options='iterations')
    maxi_args('lists of freedoms', panel_constraint='edge lists', options='empty options')
    maxi_args('plot', True, panel_constraint='edge lists')

    def plate_args(key, tag):
        def f(s):
            l = LaminateProperty(given(s, 'angles'), given(s, 'plies'))
            p = PlateStructure(l, 2., 1.3, given(s, tag), -1., .3, .5, 2, 2)
            return [modes(p, 5), plain(p.calc_K_KG_ABD()), lam_obs(l)]
        u['plate with ' + key] = f
    plate_args('edges', 'edge names')
    plate_args('lists of freedoms', 'edge lists')
    plate_args('mixed', 'edge mixed')

    def lam_args(key, angles, plies, load):
        def f(s):
            l = LaminateProperty(given(s, angles), given(s, plies))
            st = LaminateStrength(l, *load)
            return [plain(st.calculate_maxstressmargin()), plain(st.calculate_strain()), lam_obs(l), l == l]
        u['lam with ' + key] = f
    lam_args('lists', 'angles', 'plies', (10., -5., 3., .4, -.2, .1))
    lam_args('arrays', 'angle array', 'plies', (-10., 5., -3., -.4, .2, .1))

    def lp_args(s):
        l = LaminateProperty(given(s, 'parameters'), given(s, 'ply'))
        p = PlateStructure(l, 2., 1.3, given(s, 'edge names'), -1., m=2, n=2)
        return [plain(l.ABD), plain(l.xiA), plain(l.xiD), modes(p, 3)]
    u['lp with parameters'] = lp_args

    def card(key, seq, midi, ti, sout):
        def f(s):
            from composipy.nastranapi import build_pcomp
            return build_pcomp(given(s, seq), given(s, midi), given(s, ti), sout=given(s, sout) if sout in ARGUMENTS else sout)
        u['nastran with ' + key] = f
    card('lists', 'angles', 'ids', 'thicknesses', 'requests')
    card('arrays', 'angle array', 'ids', 'thickness array', 'FIBER')
    return u


E = ('x0', 'xa', 'y0', 'yb')
ARGUMENTS = {
    'x0': lambda: [1., 0., 0.], 'x0 array': lambda: np.array([1., 0., 0.]), 'options': lambda: {'ftol': 1e-7}, 'iterations': lambda: {'maxiter': 90}, 'empty options': dict,
    'edge names': lambda: dict(zip(E, ('Clamped', 'pinned', 'PINNED', 'simply_supported'))),
    'edge lists': lambda: dict(zip(E, (['TZ', 'RZ', 'TX'], ['TZ'], ['TX', 'TY', 'TZ', 'RX', 'RY', 'RZ'], ['RX', 'TZ']))),
    'edge mixed': lambda: dict(zip(E, (['TZ', 'RZ', 'TX'], 'Pinned', 'clamped', ['RX', 'TZ']))),
    'angles': lambda: [30, -50, 0], 'angle array': lambda: np.array([30., -50., 75.]),
    'plies': lambda: [U_material(), U_material(e1=70000.), U_material(t=.5)], 'ply': U_material,
    'parameters': lambda: {'xiA': [.1, 0, .2, 0], 'xiD': [.2, .1, -.4, .1], 'T': 1.},
    'ids': lambda: [3, 1, 2], 'thicknesses': lambda: [.2, .1, .3], 'thickness array': lambda: np.array([.2, .1, .3]),
    'requests': lambda: ['YES', 'NO', 'YES'],
}


def contents(v):
    if isinstance(v, np.ndarray):
        return ('array', v.dtype.str, v.tolist())
    if isinstance(v, (list, tuple)):
        return (type(v).__name__, [contents(x) for x in v])
    if isinstance(v, dict):
        return ('dict', [(k, contents(v[k])) for k in v])
    if isinstance(v, (OrthotropicMaterial, IsotropicMaterial)):
        return repr(v)
    return (type(v).__name__, v)


_libc = ctypes.CDLL(None)


def in_child(fn):
    """run fn in a process of its own (a clean module state) and bring its answer back"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        _libc.prctl(1, signal.SIGKILL)  # ends with its parent
        os.close(r)
        try:
            try:
                out = ('ok', fn())
            except Fail as exc:
                out = ('fail', str(exc))
            except BaseException as exc:
                out = ('raise' if core._through_repo(exc.__traceback__) else 'error', '%s: %s' % (type(exc).__name__, exc))
            with os.fdopen(w, 'wb') as fh:
                pickle.dump(out, fh)
        finally:
            os._exit(0)
    os.close(w)
    try:
        with os.fdopen(r, 'rb') as fh:
            data = fh.read()
    except BaseException:  # no answer in time
        os.kill(pid, signal.SIGKILL)
        raise
    finally:
        os.waitpid(pid, 0)
    if not data:
        raise core.HarnessError('child died')
    tag, val = pickle.loads(data)
    if tag == 'error':
        raise core.HarnessError(val)
    if tag == 'raise':
        raise Fail('unexpected ' + val)
    if tag == 'fail':
        raise Fail(val)
    return val


# problems that differ in one number: nothing may be remembered under a key that leaves a number out
def N_material(e1=129500., e2=9370., v12=.38, g12=5240., t=.2, t1=1500., c1=1200., t2=50., c2=250., s=70., angle=30):
    m = OrthotropicMaterial(e1, e2, v12, g12, t, t1, c1, t2, c2, s, name='ply')
    l = LaminateProperty([angle, 0], m)
    return [plain(m.Q_0), plain(m.Invariants()), lam_obs(l), plain(LaminateStrength(l, 10., -5., 3., .4, -.2, .1).calculate_maxstressmargin())]


def N_isotropic(e=71000., v=.33, g=26692., t=.4, tt=300., c=280., s=180.):
    m = IsotropicMaterial(e, v, g, t, tt, c, s, name='ply')
    l = LaminateProperty([30, 0], m)
    return [plain(m.Q_0), plain(m.Invariants()), lam_obs(l), plain(LaminateStrength(l, 10., -5., 3., .4, -.2, .1).calculate_maxstressmargin())]


def N_stack(a1=30., a2=-50., a3=0., t1=.2, t2=.1, t3=.3, e1=129500.):
    l = LaminateProperty([a1, a2, a3], [U_material(e1=e1, t=t) for t in (t1, t2, t3)])
    return lam_obs(l)


def N_parameters(x1=.1, x2=-.2, x3=.3, x4=.05, y1=.2, y2=.1, y3=-.4, y4=.15, T=1.3, e1=129500., v=.38):
    l = LaminateProperty({'xiA': [x1, x2, x3, x4], 'xiD': [y1, y2, y3, y4], 'T': T}, U_material(e1=e1, v=v))
    return [plain(l.ABD), plain(l.xiA), plain(l.xiD)]


def N_plate(a=2., b=1.3, Nxx=-1., Nyy=.3, Nxy=.5, m=2, n=1, x0='pinned', xa='clamped', y0='free', yb='pinned', angle=30., e1=129500., t=.2, k=2):
    l = LaminateProperty([angle, -50], U_material(e1=e1, t=t))
    p = PlateStructure(l, a, b, dict(zip(E, (x0, xa, y0, yb))), Nxx, Nyy, Nxy, m, n)
    return [modes(p, k), plain(p.calc_K_KG_D()), plain(p.calc_K_KG_ABD())]


def N_mode(a=2., b=1.3, Nxx=-1., Nyy=.3, Nxy=.5, m=2, n=2, x0='pinned', angle=30., nth=0, ngridx=3, ngridy=4):
    l = LaminateProperty([angle, -50], U_material())
    p = PlateStructure(l, a, b, dict(zip(E, (x0, 'clamped', 'free', 'pinned'))), Nxx, Nyy, Nxy, m, n)
    X, Y, Z = draw(p, nth=nth, ngridx=ngridx, ngridy=ngridy)
    return [plain(X), plain(Y), plain(Z / Z.flat[np.argmax(np.abs(Z))])]


def N_strength(Nxx=10., Nyy=-5., Nxy=3., Mxx=.4, Myy=-.2, Mxy=.1, angle=30., e1=129500., t=.2, t1=1500.):
    st = LaminateStrength(LaminateProperty([angle, -50, 0], U_material(e1=e1, t=t, t1=t1)), Nxx, Nyy, Nxy, Mxx, Myy, Mxy)
    return [plain(st.epsilon0()), plain(st.calculate_strain()), plain(st.calculate_stress()), plain(st.calculate_maxstressmargin())]


def N_maximize(a=1., b=1.5, T=1., E1=129500., E2=9370., v12=.38, G12=5240., Nxx=-1., Nyy=-.3, Nxy=.5, m=2, n=1, panel_constraint='PINNED', penalty=True):
    from composipy.optimize import maximize_buckling_load
    r = maximize_buckling_load(a, b, T, E1, E2, v12, G12, Nxx, Nyy, Nxy, m, n, panel_constraint, penalty=penalty, options={'maxiter': 2})
    return [plain(r.x), float(r.fun)]


def N_minimize(a=1., b=1.5, E1=129500., E2=9370., v12=.38, G12=5240., Nxx=-500., Nyy=-150., Nxy=250., m=2, n=1, panel_constraint='PINNED', x0=1.):
    from composipy.optimize import minimize_panel_weight
    r = minimize_panel_weight(a, b, E1, E2, v12, G12, Nxx, Nyy, Nxy, m, n, [x0, 0., 0.], panel_constraint, options={'maxiter': 2})
    return [plain(r.x), float(r.fun)]


def N_card(n=3, midi=1, ti=.2, pid=1, z0='', sout='FIBER', first=0.):
    from composipy.nastranapi import build_pcomp, build_sequence
    return [build_pcomp([first] + [45.] * (n - 1), midi, ti, pid, z0, sout), plain(build_sequence('[%r/(0/45)_%d]s' % (first, n)))]


NEIGHBOURS = {f.__name__[2:]: f for f in (N_material, N_isotropic, N_stack, N_parameters, N_plate, N_mode, N_strength, N_maximize, N_minimize, N_card)}


def variants(kind):
    """arguments that differ from the base in one number, or in two that are exchanged"""
    import inspect
    base = {k: p.default for k, p in inspect.signature(NEIGHBOURS[kind]).parameters.items()}
    out = []
    for k, v in base.items():
        if k in ('panel_constraint',):
            out.append({k: 'CLAMPED'})
        elif isinstance(v, bool):
            out.append({k: not v})
        elif isinstance(v, str):
            out += [{k: x} for x in {'z0': (0., -.1), 'sout': ('YES', 'NO')}.get(k, ('free', 'clamped', 'pinned')) if x != v]
        elif isinstance(v, int):
            out.append({k: v + 1})
        else:
            out += [{k: v * 1.25 + (1. if v == 0 else 0)}, {k: v * (1 + 2e-4) + (.01 if v == 0 else 0)}]
            if k[0] in 'NMxya' and len(k) < 6 and k not in ('a', 'x0'):
                out.append({k: -v})
    # an exchange that makes no sense of a problem (a modulus as a Poisson's ratio, a side as a load) is not one
    groups = {'material': ('e1 e2', 't1 c1', 't2 c2'), 'isotropic': ('tt c', 'c s'), 'stack': ('a1 a2', 'a2 a3', 't1 t2', 't2 t3'),
              'parameters': ('x1 x2', 'x2 x3', 'x3 x4', 'y1 y2', 'y2 y3', 'y3 y4', 'x1 y1'), 'plate': ('a b', 'Nxx Nyy', 'Nyy Nxy', 'm n', 'x0 xa', 'xa y0'),
              'mode': ('a b', 'Nxx Nyy', 'Nyy Nxy', 'ngridx ngridy'), 'strength': ('Nxx Nyy', 'Nyy Nxy', 'Nxx Mxx', 'Mxx Myy', 'Myy Mxy'),
              'maximize': ('a b', 'Nxx Nyy', 'Nyy Nxy', 'm n'), 'minimize': ('a b', 'Nxx Nyy', 'Nyy Nxy', 'm n'), 'card': ('n midi', 'midi pid')}
    for pair in groups[kind]:
        k, l = pair.split()
        if base[k] != base[l]:
            out.append({k: base[l], l: base[k]})
    if kind == 'mode':  # grids with points very close together
        out += [{'ngridx': n, 'ngridy': 2} for n in (101, 102)]
    return out


def neighbour_value(kind, kw):
    with contextlib.redirect_stdout(io.StringIO()):
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            return NEIGHBOURS[kind](**kw)


_nb = {}


def run_neighbours(kind, hist):
    def alone(kw):
        key = (kind, repr(kw))
        if key not in _nb:
            _nb[key] = in_child(lambda: neighbour_value(kind, kw))
        return _nb[key]
    want = [alone(kw) for kw in hist]

    def body():
        for i, kw in enumerate(hist):
            m = same(neighbour_value(kind, kw), want[i], '%s %s' % (kind, kw))
            if m:
                raise Fail('after %s with %s: %s' % (kind, hist[:i], m))
    in_child(body)


# two objects in use at the same time: nothing may be kept in a place that both share
def actors():
    def P(mn, a, b, bc, N, ang):
        return lambda: PlateStructure(LaminateProperty(ang, U_material()), a, b, bc if isinstance(bc, str) else dict(zip(E, bc)), *N, *mn)
    plates = {'p22': P((2, 2), 2., 1.3, ('pinned', 'clamped', 'free', 'pinned'), (-1., .3, .5), [30, -50]),
              'p22b': P((2, 2), 1., 1.6, 'CLAMPED', (0., -2., .2), [0, 90, 0]),
              'p13': P((1, 3), 2., .7, ('free', 'clamped', 'pinned', 'pinned'), (-1., 1., 2.), [45])}
    plate_ops = {'analyse': lambda p: modes(p, 2), 'K_D': lambda p: plain(p.calc_K_KG_D()), 'K_ABD': lambda p: plain(p.calc_K_KG_ABD()),
                 'plot': surface, 'plot1': lambda p: surface1(p)}

    def S(ang, N, mat=None):
        return lambda: LaminateStrength(LaminateProperty(ang, mat or U_material()), *N)
    strengths = {'s3': S([30, -50, 0], (10., -5., 3., .4, -.2, .1)), 's3b': S([0, 45, 90], (10., -5., 3., .4, -.2, .1)),
                 's2': S([30, -50], (-1., 2., 0., 0., .3, .1)), 's3c': S([30, -50, 0], (-7., 0., 3., .4, 0., 9.))}
    strength_ops = {'eps0': lambda s: plain(s.epsilon0()), 'strain': lambda s: plain(s.calculate_strain()),
                    'stress': lambda s: plain(s.calculate_stress()), 'margin': lambda s: plain(s.calculate_maxstressmargin()),
                    'ABD': lambda s: plain(s.dproperty.ABD)}

    def L(st, mat=None):
        return lambda: LaminateProperty(st, mat if mat is not None else U_material())
    lams = {'l3': L([30, -50, 0]), 'l3b': L([0, 45, 90]), 'l2': L([30, -50]), 'lp': L({'xiA': [.1, -.2, .3, .05], 'xiD': [.2, .1, -.4, .15], 'T': .6}),
            'l3t': L([30, -50, 0], [U_material(), U_material(t=.3), U_material(e1=99000.)])}
    lam_ops = {k: (lambda k: lambda l: plain(getattr(l, k)))(k) for k in ('A', 'B', 'D', 'ABD', 'xiA', 'xiD', 'Q_layup', 'z_position')}
    mats = {'m': lambda: U_material(), 'me': lambda: U_material(e1=99000.), 'mt': lambda: U_material(t=.4)}
    mat_ops = {'Q_0': lambda m: plain(m.Q_0), 'U': lambda m: plain(m.Invariants()), 'repr': lambda m: [m.e1, m.thickness]}
    return {'plate': (plates, plate_ops), 'strength': (strengths, strength_ops), 'laminate': (lams, lam_ops), 'material': (mats, mat_ops)}


def surface1(p):
    X, Y, Z = draw(p, nth=1, ngridx=4, ngridy=3)
    return [plain(X), plain(Y), plain(Z / Z.flat[np.argmax(np.abs(Z))])]


_actor = {}


def run_interleaved(cls, x, y, hist, late):
    """hist: (who, operation) pairs; with `late` the second object is made just before its first call"""
    make, O = actors()[cls]
    for who, op in hist:
        key = cls, (x, y)[who], op
        if key not in _actor:
            _actor[key] = in_child(lambda: O[op](make[key[1]]()))

    def body():
        obj = [make[x](), None if late else make[y]()]
        for i, (who, op) in enumerate(hist):
            if obj[who] is None:
                obj[who] = make[y]()
            m = same(O[op](obj[who]), _actor[cls, (x, y)[who], op], op)
            if m:
                raise Fail('objects %s and %s, after %s: %s' % (x, y, hist[:i], m))
    in_child(body)


def interleaved(cls):
    """the second object is used between two calls on the first"""
    make, O = actors()[cls]
    for x, y in itertools.permutations(make, 2):
        for a, b, c in itertools.product(O, repeat=3):
            if cls == 'laminate' and (a != c and a != 'D' or 'lp' in (x, y) and {'Q_layup', 'z_position'} & {a, b, c}):
                continue
            if cls in ('plate', 'strength') and a != c and a not in ('analyse', 'ABD'):
                continue
            for late in (False, True):
                yield x, y, [(0, a), (1, b), (0, c)], late


_fresh = {}


def fresh(name):
    if name not in _fresh:
        _fresh[name] = in_child(lambda: universe()[name]({}))
    return _fresh[name]


def run_names(names):
    u = universe()
    want = [fresh(n) for n in names]

    def body():
        shared = {}
        for i, n in enumerate(names):
            m = same(u[n](shared), want[i], n)
            if m:
                raise Fail('after %s: %s' % (names[:i], m))
        # and everything again, backwards, in the same process
        for n in names[::-1]:
            m = same(u[n](shared), fresh_val[n], n)
            if m:
                raise Fail('repeated after %s: %s' % (names, m))
        for tag in shared:
            if tag in ARGUMENTS and contents(shared[tag]) != contents(ARGUMENTS[tag]()):
                raise Fail('after %s the argument %s is %r' % (names, tag, shared[tag]))
    fresh_val = dict(zip(names, want))
    in_child(body)


# ------------------------------------------------------------------------- (c) the caller's containers
def mutations(kind):
    def clear(g):
        if isinstance(g.stacking, dict):
            g.stacking['xiD'][0] = .9
            g.stacking['xiA'][2] = -.9
            g.stacking['T'] = 99.
        else:
            g.stacking[0] = 77
            g.stacking.reverse()

    def plies(g):
        if isinstance(g.plies, list):
            g.plies.reverse()

    def bc(g):
        for e in g.bc:
            g.bc[e].append('RZ')
        g.bc['x0'].remove('TZ')

    def bc2(g):
        g.bc['xa'] = []
        g.bc['yb'] = ['TX', 'TY', 'TZ', 'RX', 'RY', 'RZ']

    def grow(g):
        if isinstance(g.stacking, list):
            g.stacking.append(45)
        else:
            g.stacking['xiD'] = [0, 0, 0, 0]
        if isinstance(g.plies, list):
            g.plies.append(g.plies[0])
    return {'change_stacking': clear, 'change_plies': plies, 'change_edges': bc, 'replace_edges': bc2, 'grow': grow}


def run_caller(kind, mut, before, after, tab):
    g = Graph(kind)
    O = ops(kind)
    keep = copy.deepcopy((g.stacking, g.bc)), list(g.plies) if isinstance(g.plies, list) else g.plies
    for op in before:
        m = same(O[op](g), tab[op, 'none'], op)
        if m:
            raise Fail(m)
    if (g.stacking, g.bc) != keep[0] or (isinstance(g.plies, list) and [id(x) for x in g.plies] != [id(x) for x in keep[1]]):
        raise Fail('the arguments were changed by %s' % (before,))
    mutations(kind)[mut](g)
    for op in after:
        m = same(O[op](g), tab[op, 'none'], op)
        if m:
            raise Fail('after the caller changed its own argument (%s): %s' % (mut, m))


def BOUNDS(tier):
    return {'read_operations': len(cheap('list')), 'unmerged_depth': DEPTH[tier], 'problems': len(universe()), 'interleaved_histories_of_two_objects': {k: len(list(interleaved(k))) for k in actors()}, 'problems_that_differ_in_one_number': {k: len(variants(k)) for k in NEIGHBOURS},
            'history_length': PAIR[tier], 'caller_mutations': list(mutations('list'))}


TASKS_PER_CHILD = 1


def shards(tier):
    out = []
    for k in KINDS:
        out.append({'part': 'fixpoint', 'kind': k})
        for op in cheap(k):
            out.append({'part': 'sequences', 'kind': k, 'first': op, 'depth': DEPTH[tier]})
        for mut in mutations(k):
            out.append({'part': 'caller', 'kind': k, 'mut': mut, 'tier': tier})
    for k in actors():
        out += [{'part': 'interleaved', 'class': k, 'block': i} for i in range(INTERLEAVED)]
    for k in NEIGHBOURS:
        for i in range(0, len(variants(k)), 8):
            out.append({'part': 'neighbours', 'kind': k, 'lo': i, 'tier': tier})
    names = list(universe())
    for n in names:
        out.append({'part': 'pairs', 'first': n, 'len': PAIR[tier]})
    return out


def explore(shard, rec):
    part = shard['part']
    if part == 'interleaved':
        for i, (x, y, hist, late) in enumerate(interleaved(shard['class'])):
            if i % INTERLEAVED != shard['block']:
                continue
            if rec.full:
                return
            rec.state()
            rec.step(3)
            rec.run({'part': part, 'class': shard['class'], 'x': x, 'y': y, 'hist': hist, 'late': late}, lambda: run_interleaved(shard['class'], x, y, hist, late))
        return
    if part == 'neighbours':
        kind = shard['kind']
        vs = variants(kind)
        for v in vs[shard['lo']:shard['lo'] + 8]:
            others = [{}] + [w for w in vs if w != v and (shard['tier'] != 'quick' and kind not in ('maximize', 'minimize') or set(w) == set(v))]
            for w in others:
                if rec.full:
                    return
                rec.state()
                rec.step(3)
                rec.run({'part': part, 'kind': kind, 'hist': [w, v, w]}, lambda: run_neighbours(kind, [w, v, w]))
        return
    if part == 'pairs':
        names = list(universe())
        if not rec.run({'part': 'pairs', 'names': [shard['first']] * 2}, lambda: run_names([shard['first']] * 2)):
            return
        fam = lambda n: n.split()[0]
        for n in names:
            if rec.full:
                return
            if (' with ' in n or ' with ' in shard['first']) and fam(n) != fam(shard['first']):
                continue
            rec.state()
            rec.step(4)
            rec.run({'part': 'pairs', 'names': [shard['first'], n]}, lambda: run_names([shard['first'], n]))
            if shard['len'] > 2:
                for n3 in names:
                    if fam(n3) == fam(n) and n3 != n and not rec.full:
                        rec.state()
                        rec.step(6)
                        rec.run({'part': 'pairs', 'names': [shard['first'], n, n3]}, lambda: run_names([shard['first'], n, n3]))
        return
    kind = shard['kind']
    tab = {}
    if not rec.run({'part': 'table', 'kind': kind}, lambda: tab.update(table(kind))):
        return
    if part == 'sequences':
        for n in range(shard['depth']):
            for w in itertools.product(cheap(kind), repeat=n):
                if rec.full:
                    return
                hist = [shard['first']] + list(w)
                rec.state()
                rec.step(len(hist))
                rec.run({'part': part, 'kind': kind, 'hist': hist}, lambda: run_hist(kind, hist, tab) and None)
    elif part == 'caller':
        O = list(ops(kind))
        few = [o for o in ('A', 'ABD', 'D', 'Q', 'stress', 'K_D', 'buckle5', 'xiD') if o in O]
        for before in [[]] + [[o] for o in O]:
            if rec.full:
                return
            for after in ([few, few[::-1]] if before else [O, O[::-1]]):
                rec.state()
                rec.step(len(before) + len(after) + 1)
                rec.run({'part': part, 'kind': kind, 'mut': shard['mut'], 'before': before, 'after': after},
                        lambda: run_caller(kind, shard['mut'], before, after, tab))
    else:
        names = list(ops(kind)) + list(stateful(kind))
        names = [n for n in names if n not in ('eq', 'Q0', 'U', 'names', 'buckle1')]
        seen = {canon(Graph(kind))}
        front = [[]]
        end = time.time() + FIXPOINT_SECONDS
        while front:
            hist = front.pop(0)
            for op in names:
                if rec.full:
                    return
                if time.time() > end:
                    front = []
                    rec.count('fixpoint_time_hit', 1)
                    break
                h = hist + [op]
                box = []
                rec.step()
                if rec.run({'part': part, 'kind': kind, 'hist': h}, lambda: box.append(run_hist(kind, h, tab))):
                    c = canon(box[0])
                    if c not in seen and len(seen) < CAP:
                        seen.add(c)
                        front.append(h)
        rec.state(len(seen))
        rec.count('fixpoint_states', len(seen))
        rec.count('fixpoint_cap_hit', int(len(seen) >= CAP))


def replay(case, rec):
    part = case['part']
    if part == 'interleaved':
        rec.run(case, lambda: run_interleaved(case['class'], case['x'], case['y'], [tuple(h) for h in case['hist']], case['late']))
    elif part == 'neighbours':
        rec.run(case, lambda: run_neighbours(case['kind'], case['hist']))
    elif part == 'pairs':
        rec.run(case, lambda: run_names(case['names']))
    elif part == 'caller':
        rec.run(case, lambda: run_caller(case['kind'], case['mut'], case['before'], case['after'], table(case['kind'])))
    elif part == 'table':
        rec.run(case, lambda: table(case['kind']) and None)
    else:
        rec.run(case, lambda: run_hist(case['kind'], case['hist'], table(case['kind'])) and None)
