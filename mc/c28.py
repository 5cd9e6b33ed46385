"""C28 the calling conventions: every way to give the arguments of the public constructors and functions (how
many by position, which of the optional ones by name, names in either order) against the same call with every
argument written out; what is left out must have its documented default."""
import contextlib
import io
import itertools
import warnings

import numpy as np

from composipy import IsotropicMaterial, LaminateProperty, LaminateStrength, OrthotropicMaterial, PlateStructure

from mc.c06 import modes, plain, same
from mc.c14 import draw
from mc.c22 import watched
from mc.core import Fail

ID = 'C28'
SUBSETS = {'quick': 1, 'thorough': 2}  # of the optional arguments of the slow functions: at most so many given, or left out
EDGES = {'x0': 'clamped', 'xa': 'pinned', 'y0': 'free', 'yb': 'pinned'}


def ply(**kw):
    return OrthotropicMaterial(129500., 9370., .38, 5240., .2, 1500., 1200., 50., 250., 70., name='ply', **kw)


def of_material(m, name):
    l = LaminateProperty([30, 0], m)
    s = LaminateStrength(l, 10., -5., 3., .4, -.2, .1)
    fields = ('e1', 'e2', 'v12', 'g12', 't1', 'c1', 't2', 'c2', 's', 'thickness') if hasattr(m, 'e1') and not hasattr(m, 'e') else \
        ('e', 'v', 'g', 't', 'c', 's', 'thickness')
    out = [[float(getattr(m, f) or 0) for f in fields], plain(m.Q_0), plain(m.Invariants()), plain(l.ABD), plain(s.calculate_maxstressmargin())]
    if name is not None:
        out.append(m.name)
    elif not (isinstance(m.name, str) and m.name):
        raise Fail('a material without a name is called %r' % (m.name,))
    return out


def of_plate(p, _):
    out = [float(x) for x in (p.a, p.b, p.Nxx, p.Nyy, p.Nxy, p.m, p.n)]
    # a large basis is not assembled: its size is what has been left out
    if p.m * p.n <= 12 or p.m * p.n < 40 and p.Nxx and not p.Nyy and p.Nxy:
        vals, vecs = p.buckling_analysis(num_eigvalues=1)
        out += [plain(p.calc_K_KG_D()), float(vals[0])]
    return out


def of_strength(s, _):
    return [plain(s.epsilon0()), plain(s.calculate_stress()), plain(s.calculate_maxstressmargin())]


LAM = [30, -50, 0]
REQ = object()


def plate(**kw):
    return PlateStructure(LaminateProperty([30, -50], ply()), 2., 1.3, 'PINNED', -1., .3, .5, 2, 3)


def analysis(*a, **kw):
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        vals, vecs = plate().buckling_analysis(*a, **kw)
    return [plain(np.array(vals, float)), list(np.shape(vecs)), bool(out.getvalue())]


def plot(*a, **kw):
    names = ('nth', 'ngridx', 'ngridy')
    p = plate()
    full = dict(zip(names, a), **kw)
    if a:
        # by position: draw() hands names on
        real = p.plot_eigenvalue

        class Pass:
            def plot_eigenvalue(self, **k):
                return real(*a, **kw)
        X, Y, Z = draw(Pass())
    else:
        X, Y, Z = draw(p, **full)
    return [plain(X), plain(Y), plain(Z / Z.flat[np.argmax(np.abs(Z))])]


def optimum(which):
    def f(*a, **kw):
        from composipy.optimize import maximize_buckling_load, minimize_panel_weight
        import matplotlib
        matplotlib.use('Agg')
        import matplotlib.pyplot as plt
        show = plt.show
        plt.show = lambda *a, **k: None
        try:
            with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()), watched() as seen:
                warnings.simplefilter('ignore')
                r = {'max': maximize_buckling_load, 'min': minimize_panel_weight}[which](*a, **kw)
        finally:
            plt.show = show
            plt.close('all')
        return [plain(np.array(r.x, float)), float(r.fun), int(r.nit), [list(s[2].shape) for s in seen[:1]]]
    return f


def card(*a, **kw):
    from composipy.nastranapi import build_pcomp
    return build_pcomp(*a, **kw)


def lam_obs(l, _):
    return [plain(l.ABD), plain(l.xiA), plain(l.xiD)]


def SPEC():
    # callable, arguments in their order (name, value given, documented default), what is looked at
    as_is = lambda v, _: v
    return {
        'OrthotropicMaterial': (OrthotropicMaterial, [('e1', 129500., REQ), ('e2', 9370., REQ), ('v12', .38, REQ), ('g12', 5240., REQ), ('thickness', .2, REQ),
                                                      ('t1', 1500., 0), ('c1', 1200., 0), ('t2', 50., 0), ('c2', 250., 0), ('s', 70., 0), ('name', 'ply', None)], of_material),
        'IsotropicMaterial': (IsotropicMaterial, [('e', 71000., REQ), ('v', .33, REQ), ('g', 26692., REQ), ('thickness', .4, REQ),
                                                  ('t', 300., 0), ('c', 280., 0), ('s', 180., 0), ('name', 'ply', None)], of_material),
        'LaminateProperty': (LaminateProperty, [('stacking', [30, -50, 0], REQ), ('plies', ply(), REQ)], lam_obs),
        'LaminateStrength': (LaminateStrength, [('dproperty', LaminateProperty(LAM, ply()), REQ), ('Nxx', 10., 0), ('Nyy', -5., 0), ('Nxy', 3., 0),
                                                ('Mxx', .4, 0), ('Myy', -.2, 0), ('Mxy', .1, 0)], of_strength),
        'PlateStructure': (PlateStructure, [('dproperty', LaminateProperty([30, -50], ply()), REQ), ('a', 2., REQ), ('b', 1.3, REQ), ('constraints', EDGES, 'PINNED'),
                                            ('Nxx', -1., 0), ('Nyy', -.3, 0), ('Nxy', .5, 0), ('m', 2, 10), ('n', 3, 10)], of_plate),
        'buckling_analysis': (analysis, [('silent', False, True), ('num_eigvalues', 3, 5)], as_is),
        'plot_eigenvalue': (plot, [('nth', 2, 0), ('ngridx', 4, 20), ('ngridy', 3, 20)], as_is),
        'build_pcomp': (card, [('sequence', [0, 45, 90], REQ), ('midi', 7, REQ), ('ti', .2, REQ), ('pid', 5, 1), ('z0', -.3, ''), ('sout', 'YES', 'FIBER')], as_is),
        'maximize_buckling_load': (optimum('max'), [('a', 1., REQ), ('b', 1.5, REQ), ('T', 1.1, REQ), ('E1', 129500., REQ), ('E2', 9370., REQ), ('v12', .38, REQ), ('G12', 5240., REQ),
                                                    ('Nxx', -1., 0), ('Nyy', -.3, 0), ('Nxy', .5, 0), ('m', 2, 7), ('n', 1, 7), ('panel_constraint', 'CLAMPED', 'PINNED'),
                                                    ('options', {'maxiter': 2}, None), ('tol', 1e-3, None), ('plot', True, False), ('points_to_plot', 4, 30), ('penalty', False, True)], as_is),
        'minimize_panel_weight': (optimum('min'), [('a', 1., REQ), ('b', 1.5, REQ), ('E1', 129500., REQ), ('E2', 9370., REQ), ('v12', .38, REQ), ('G12', 5240., REQ),
                                                   ('Nxx', -.01, 0), ('Nyy', -.003, 0), ('Nxy', .005, 0), ('m', 2, 7), ('n', 1, 7), ('x0', [.3, .1, 0.], [.1, 0., 0.]), ('panel_constraint', 'CLAMPED', 'PINNED'),
                                                   ('options', {'maxiter': 2}, None), ('tol', 1e-3, None)], as_is),
    }


SLOW = ('maximize_buckling_load', 'minimize_panel_weight')


def valid(name, given):
    """what is left out makes sense: a problem with no load has no factor to look for"""
    if name == 'PlateStructure':
        return {'Nxx', 'Nyy', 'Nxy'} & given
    if name in SLOW:
        # a load, and bases that are quick unless they are what is left out
        # (and the picture or a full optimisation of a large one takes minutes)
        return {'Nxx', 'Nyy', 'Nxy'} & given and {'m', 'n'} & given and ({'m', 'n'} <= given or 'plot' not in given and 'options' in given)
    return True


def calls(name, tier):
    """(number of arguments by position, those given by name, names backwards)"""
    args = SPEC()[name][1]
    req = [a[0] for a in args if a[2] is REQ]
    for k in range(len(args) + 1):
        pos = [a[0] for a in args[:k]]
        rest = [a[0] for a in args[k:]]
        must = [a for a in rest if a in req]
        opt = [a for a in rest if a not in req]
        for r in range(len(opt) + 1):
            if name in SLOW and SUBSETS[tier] < r < len(opt) - SUBSETS[tier]:
                continue
            if name in SLOW and 0 < k < len(req) and tier == 'quick' and r != len(opt):
                continue
            for S in itertools.combinations(opt, r):
                given = set(pos) | set(must) | set(S)
                if name in SLOW and r <= SUBSETS[tier] and k <= len(req) + 2:
                    # a load, one side of the basis and the number of iterations are given in any case
                    extra = [x for x in ('Nxx', 'm', 'options') if x not in given]
                    if set(extra) & set(S) or not set(extra) <= set(opt):
                        continue
                    names = must + [x for x in opt if x in S or x in extra]
                else:
                    names = must + list(S)
                if not valid(name, given | set(names)):
                    continue
                yield k, names


_want = {}


def do(name, pos, names, back):
    f, args, look = SPEC()[name]
    val = {a: v for a, v, _ in args}
    a = [val[x[0]] for x in args[:pos]]
    kw = {x: val[x] for x in (names[::-1] if back else names)}
    given = {x[0] for x in args[:pos]} | set(names)
    nm = 'ply' if 'name' in given else None
    try:
        got = f(*a, **kw)
    except TypeError as e:
        raise Fail('%s(%s) is refused: %s' % (name, ', '.join([repr(x) for x in a] + ['%s=%r' % i for i in kw.items()]), e))
    return look(got, nm), given, nm


def one(name, pos, names, back):
    f, args, look = SPEC()[name]
    got, given, nm = do(name, pos, names, back)
    key = name, tuple(sorted(given))
    if key not in _want:
        full = {a: (v if a in given else d) for a, v, d in args}
        try:
            _want[key] = look(f(**full), nm)
        except TypeError as e:
            raise Fail('%s with every argument by name is refused: %s' % (name, e))
    m = same(got, _want[key], '%s with %d arguments by position and %s by name' % (name, pos, names))
    if m:
        raise Fail(m)


def BOUNDS(tier):
    return {'calls': {k: len(list(calls(k, tier))) for k in SPEC()}, 'order_of_names': ['as declared', 'backwards'],
            'optional_arguments_of_the_optimisers_given_or_left_out_together': SUBSETS[tier]}


BLOCKS = {'PlateStructure': 8, 'OrthotropicMaterial': 4, 'maximize_buckling_load': 24, 'minimize_panel_weight': 16}


def shards(tier):
    return [{'name': k, 'block': b, 'tier': tier} for k in SPEC() for b in range(BLOCKS.get(k, 1))]


def explore(shard, rec):
    name = shard['name']
    n = BLOCKS.get(name, 1)
    cs = list(calls(name, shard['tier']))
    # calls that give the same arguments are in one block: they have one answer
    keys = {}
    req = [a[0] for a in SPEC()[name][1]]
    for i, (pos, names) in enumerate(cs):
        key = tuple(sorted(set(req[:pos]) | set(names)))
        b = keys.setdefault(key, len(keys)) % n
        if b != shard['block']:
            continue
        for back in ((False, True) if len(names) > 1 and name not in SLOW else (bool(i % 2),)):
            if rec.full:
                return
            rec.state()
            rec.step()
            rec.run({'name': name, 'pos': pos, 'names': names, 'back': back}, lambda: one(name, pos, names, back))


def replay(case, rec):
    rec.run(case, lambda: one(case['name'], case['pos'], case['names'], case['back']))
