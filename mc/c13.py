"""C13 symmetries and scaling laws of the buckling factor: breadth-first search over the group generated
by the physical transformations of a plate problem; in every reachable state the real analysis must give
the factor the transformations predict from the initial state (a differential oracle, no expected value)."""
import itertools

import numpy as np

from composipy import LaminateProperty, OrthotropicMaterial, PlateStructure

from mc import core
from mc.core import Fail
from mc.plates import jsonc

ID = 'C13'
E = ('x0', 'xa', 'y0', 'yb')
MATC = (129500., 9370., 0.38, 5240.)
STARTS = [
    {'a': 1.0, 'b': 1.6, 'N': (-1., 0., 0.), 'bc': ('pinned', 'clamped', 'pinned', 'pinned'), 'lay': [(10, .2), (-50, .1), (70, .3)]},
    {'a': 300., 'b': 200., 'N': (-2., 1., 3.), 'bc': ('clamped', 'pinned', 'free', 'clamped'), 'lay': [(45, .2), (0, .2)]},
    {'a': 2.0, 'b': 2.0, 'N': (0., 0., 1.), 'bc': ('pinned', 'pinned', 'clamped', 'pinned'), 'lay': [(30, .125)]},
    {'a': 0.5, 'b': 0.9, 'N': (0.5, -1., -.7), 'bc': ('pinned', 'free', 'pinned', 'clamped'), 'lay': [(0, .1), (90, .15), (-35, .1), (20, .2)]},
    {'a': 5.0, 'b': 0.8, 'N': (0., -1., .2), 'bc': ('pinned', 'clamped', 'clamped', 'pinned'), 'lay': [(60, .1), (-15, .2)]},
]
MN = {'quick': [(3, 3), (4, 3)], 'thorough': [(3, 3), (4, 3), (5, 4), (3, 6)]}  # large enough to hold every edge function
DEPTH = {'quick': 3, 'thorough': 4}
# each event maps (problem, predicted multiplier of the factor)
EVENTS = ['swap_axes', 'mirror_x', 'mirror_y', 'flip_thickness', 'scale_plan', 'scale_thickness', 'scale_moduli', 'scale_load', 'turn_ply_pi', 'split_ply', 'change_length_unit', 'change_force_unit', 'half_turn']

# by very large factors: first, followed by the others
EXTREME = {'tiny_load': ('N', 1e-9), 'huge_load': ('N', 1e9), 'huge_plan': ('ab', 1e4), 'small_plan': ('ab', 1e-4), 'thin_plies': ('h', 1e-4), 'thick_plies': ('h', 1e3),
           'soft': ('E', 1e-7), 'stiff': ('E', 1e7)}
EXTREME_DEPTH = {'quick': 2, 'thorough': 3}


def BOUNDS(tier):
    return {'extreme_scalings': EXTREME, 'extreme_depth': EXTREME_DEPTH[tier], 'starts': len(STARTS), 'events': EVENTS, 'depth': DEPTH[tier], 'basis': MN[tier]}


def start(i, mn):
    s = dict(STARTS[i])
    s['mat'], s['mn'], s['f'] = MATC, mn, 1.0
    return s


def step(s, ev):
    s = dict(s)
    x0, xa, y0, yb = s['bc']
    nx, ny, nxy = s['N']
    if ev in EXTREME:
        what, k = EXTREME[ev]
        if what == 'N':
            s.update(N=tuple(k * x for x in s['N']), f=s['f'] / k)
        elif what == 'ab':
            s.update(a=k * s['a'], b=k * s['b'], f=s['f'] / k ** 2)
        elif what == 'h':
            s.update(lay=[(t, k * h) for t, h in s['lay']], f=s['f'] * k ** 3)
        else:
            e1, e2, v, g = s['mat']
            s.update(mat=(k * e1, k * e2, v, k * g), f=s['f'] * k)
    elif ev == 'swap_axes':
        # x and y exchanged: a ply at t is then at 90 - t
        s.update(a=s['b'], b=s['a'], N=(ny, nx, nxy), bc=(y0, yb, x0, xa), mn=s['mn'][::-1],
                 lay=[(90 - t, h) for t, h in s['lay']])
    elif ev == 'mirror_x':
        s.update(bc=(xa, x0, y0, yb), N=(nx, ny, -nxy), lay=[(-t, h) for t, h in s['lay']])
    elif ev == 'mirror_y':
        s.update(bc=(x0, xa, yb, y0), N=(nx, ny, -nxy), lay=[(-t, h) for t, h in s['lay']])
    elif ev == 'flip_thickness':
        s.update(lay=s['lay'][::-1])
    elif ev == 'scale_plan':
        s.update(a=3 * s['a'], b=3 * s['b'], f=s['f'] / 9)
    elif ev == 'scale_thickness':
        s.update(lay=[(t, 1.5 * h) for t, h in s['lay']], f=s['f'] * 3.375)
    elif ev == 'scale_moduli':
        e1, e2, v, g = s['mat']
        s.update(mat=(5 * e1, 5 * e2, v, 5 * g), f=s['f'] * 5)
    elif ev == 'scale_load':
        s.update(N=tuple(40 * x for x in s['N']), f=s['f'] / 40)
    elif ev == 'turn_ply_pi':
        s.update(lay=[(s['lay'][0][0] + 180, s['lay'][0][1])] + s['lay'][1:])
    elif ev == 'change_length_unit':
        # lengths in metres instead of millimetres: moduli and loads per length change, the factor does not
        e1, e2, v, g = s['mat']
        s.update(a=s['a'] / 1e3, b=s['b'] / 1e3, mat=(e1 * 1e6, e2 * 1e6, v, g * 1e6), N=tuple(1e3 * x for x in s['N']),
                 lay=[(t, h / 1e3) for t, h in s['lay']])
    elif ev == 'change_force_unit':
        e1, e2, v, g = s['mat']
        s.update(mat=(e1 / 1e6, e2 / 1e6, v, g / 1e6), N=tuple(x / 1e6 for x in s['N']))
    elif ev == 'half_turn':
        # the plate turned by half a turn in its plane: nothing changes but the names of the edges
        s.update(bc=(xa, x0, yb, y0))
    elif ev == 'split_ply':
        t, h = s['lay'][-1]
        s.update(lay=s['lay'][:-1] + [(t, h / 4), (t, 3 * h / 4)])
    return s


def build(i, mn, hist):
    s = start(i, mn)
    for ev in hist:
        s = step(s, ev)
    return s


def canon(s):
    r = lambda x: float('%.9g' % x) + 0.
    return (r(s['a']), r(s['b']), tuple(map(r, s['N'])), s['bc'], s['mn'], tuple(map(r, s['mat'])),
            tuple((r(t), r(h)) for t, h in s['lay']))


def factor(s):
    mats = {}
    for _, h in s['lay']:
        if h not in mats:
            mats[h] = OrthotropicMaterial(*s['mat'], thickness=h)
    lam = LaminateProperty([t for t, _ in s['lay']], [mats[h] for _, h in s['lay']])
    p = PlateStructure(lam, s['a'], s['b'], dict(zip(E, s['bc'])), *s['N'], m=s['mn'][0], n=s['mn'][1])
    return float(p.buckling_analysis(num_eigvalues=1)[0][0])


def check(i, mn, hist, base=None):
    base = factor(start(i, mn)) if base is None else base
    s = build(i, mn, hist)
    f = factor(s)
    want = base * s['f']
    if not abs(f - want) <= 2e-5 * abs(want):
        raise Fail('after %s the critical factor is %r, the first one transforms to %r' % (hist, f, want))


def shards(tier):
    return [{'start': i, 'mn': mn, 'first': e, 'depth': DEPTH[tier]}
            for i in range(len(STARTS)) for mn in MN[tier] for e in EVENTS] + \
        [{'start': i, 'mn': mn, 'first': e, 'depth': EXTREME_DEPTH[tier]}
         for i in range(len(STARTS)) for mn in (MN[tier] if tier != 'quick' else [MN[tier][i % 2]]) for e in EXTREME]


def explore(shard, rec):
    i, mn = shard['start'], tuple(shard['mn'])
    base = factor(start(i, mn))
    if not base > 0:
        raise core.HarnessError('start has no positive factor')

    def visit(hist, s):
        if rec.full:
            return
        rec.state()
        rec.outcome(canon(s))
        rec.run({'start': i, 'mn': mn, 'hist': [shard['first']] + hist},
                lambda: check(i, mn, [shard['first']] + hist, base))

    _, trans, _ = core.bfs(None, lambda h: EVENTS, lambda h: build(i, mn, [shard['first']] + h),
                           canon, shard['depth'] - 1, visit)
    rec.step(trans + 1)


def replay(case, rec):
    rec.run(case, lambda: check(case['start'], tuple(case['mn']), case['hist']))
