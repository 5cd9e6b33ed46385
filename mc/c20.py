"""C20 equality by value: every ordered pair of a universe in which each member differs from its neighbours
in exactly one field; oracle: equality of the field tuples.  Laws (reflexive, symmetric, transitive,
consistent with !=) are checked on the same pairs, before and after the results were computed."""
import itertools

import numpy as np

from composipy import IsotropicMaterial, LaminateProperty, OrthotropicMaterial

from mc.core import Fail

ID = 'C20'
O = (129500., 9370., .38, 5240., .2, 1500., 1200., 50., 250., 70.)
I = (71000., .33, 26692., .4, 300., 280., 180.)
DELTA = {'quick': [1e-12, 0.5], 'thorough': [1e-15, 1e-12, 1e-9, 1e-6, 1e-3, 0.5]}


def materials(tier):
    """[(kind, fields, name)]"""
    out = []
    for kind, base in (('o', O), ('i', I)):
        recs = [base, base[:5] + (0.,) * 5 if kind == 'o' else base[:4] + (0.,) * 3]
        for i, x in enumerate(base):
            for d in DELTA[tier]:
                r = list(base)
                r[i] = x * (1 - d)
                recs.append(tuple(r))
            if i:  # swapped neighbours
                r = list(base)
                r[i - 1], r[i] = r[i], r[i - 1]
                recs.append(tuple(r))
        ratio = 2 if kind == 'o' else 1
        for r in recs:
            if abs(r[ratio]) > .5:
                continue
            for name in (None, 'x', 'y') if r == base else (None,):
                out.append((kind, r, name))
        out.append((kind, tuple(int(x) if float(x).is_integer() else x for x in base), 'ints'))
    # an isotropic-looking orthotropic ply is still another kind of ply
    out.append(('o', (71000., 71000., .33, 26692., .4, 300., 280., 300., 280., 180.), None))
    return out


def make(rec):
    kind, f, name = rec
    return (OrthotropicMaterial if kind == 'o' else IsotropicMaterial)(*f, name=name)


M = {'o': ('o', O, None), 'o_named': ('o', O, 'other name'), 'o_thin': ('o', O[:4] + (.1,) + O[5:], None), 'o_weak': ('o', O[:9] + (60.,), None),
     'i': ('i', I, None), 'i2': ('i', I[:3] + (.5,) + I[4:], None)}


def laminates(tier):
    """[(key, stacking, plies, form)]"""
    out = []
    angles = [0, 45, -45, 90, 45.000001, 0.0, 180]
    n = 2 if tier == 'quick' else 3
    for k in range(1, n + 1):
        for w in itertools.product(angles if k < 3 else angles[:4], repeat=k):
            out.append((w, ('o',) * k, 'one'))
    for w in [(0, 45), (45, 0), (0, 45, 45, 0), (0, 45, 0)]:
        for ms in itertools.product(['o', 'o_named', 'o_thin', 'o_weak', 'i'], repeat=len(w)) if len(w) < 3 else [('o',) * len(w), ('o_named',) * len(w), ('i',) * len(w)]:
            for form in ('list', 'tuple', 'one') if len(set(ms)) == 1 else ('list', 'tuple'):
                out.append((w, ms, form))
    # stacks of nine that differ in one ply
    base, mm = (0, 45, -45, 90, 90, 90, -45, 45, 0), ('o', 'i') * 4 + ('o',)
    for form in ('list', 'tuple'):
        out.append((base, mm, form))
    for i in range(9):
        out.append((base[:i] + (30,) + base[i + 1:], mm, 'list'))
        out.append((base, mm[:i] + ('o_thin' if mm[i] == 'o' else 'i2',) + mm[i + 1:], 'list'))
        out.append((base, mm[:i] + ('o_weak' if mm[i] == 'o' else 'o_named',) + mm[i + 1:], 'list'))
        out.append((base[:i] + base[i + 1:], mm[:i] + mm[i + 1:], 'list'))
    out.append((base, ('o_named', 'i') * 4 + ('o',), 'list'))
    xi = [.2, .1, -.4, .15]
    for key in range(-1, 4):
        v = list(xi)
        if key >= 0:
            v[key] += .01
        for a in [None, xi] + ([xi[:i] + [x + .01] + xi[i + 1:] for i, x in enumerate(xi)] if key < 1 else [[.1, .1, -.4, .15]]):
            for t in (1., 1.5):
                for m in ('o', 'o_named', 'i', 'o_thin') if key < 0 else ('o',):
                    out.append((('lp', tuple(v), None if a is None else tuple(a), t), (m,), 'lp'))
    # parameters, thickness and angles that differ in their last digits
    for d in (1e-13, 1e-9, 1e-6):
        for i, x in enumerate(xi):
            v = tuple(xi[:i] + [x * (1 + d)] + xi[i + 1:])
            out.append((('lp', v, None, 1.), ('o',), 'lp'))
            out.append((('lp', tuple(xi), v, 1.), ('o',), 'lp'))
        out.append((('lp', tuple(xi), None, 1. + d), ('o',), 'lp'))
        out.append(((0, 45 * (1 - d)), ('o', 'o'), 'list'))
        out.append((('lp', (d, 0., 0., 0.), None, 1.), ('o',), 'lp'))
    out.append((('lp', (0., 0., 0., 0.), None, 1.), ('o',), 'lp'))
    return out


def make_lam(rec, mats=None):
    w, ms, form = rec
    m = [make(M[k]) for k in ms]
    if form == 'lp':
        st = {'xiD': list(w[1]), 'T': w[3]}
        if w[2] is not None:
            st['xiA'] = list(w[2])
        return LaminateProperty(st, m[0])
    if form == 'one':
        return LaminateProperty(list(w), m[0])
    return LaminateProperty(tuple(w), tuple(m)) if form == 'tuple' else LaminateProperty(list(w), m)


def lam_key(rec):
    w, ms, form = rec
    return ('lp' if form == 'lp' else 'st', w, tuple(M[k][:2] for k in ms))


def compare(x, y, want, what):
    for a, b in ((x, y), (y, x)):
        r = a == b
        if r is not want and r is not np.bool_(want):
            if not isinstance(r, (bool, np.bool_)) or bool(r) != want:
                raise Fail('%s compare as %s' % (what, 'equal' if r is True else r))
        if (a != b) is want or bool(a != b) == want:
            raise Fail('!= contradicts == for %s' % what)
    return None


WARM = {'none': lambda o: None, 'material': lambda o: (o.Q_0, o.name, o.Invariants()),
        'laminate': lambda o: (o.A, o.D, o.xiD)}


def one_pair(what, tier, i, j, warm):
    u = materials(tier) if what == 'material' else laminates(tier)
    mk = make if what == 'material' else make_lam
    key = (lambda r: r[:2]) if what == 'material' else lam_key
    x, y = mk(u[i]), mk(u[j])
    if warm in ('first', 'both'):
        WARM[what](x)
    if warm == 'both':
        WARM[what](y)
    compare(x, y, key(u[i]) == key(u[j]), '%s and %s' % (u[i], u[j]))
    if warm == 'none':
        if i == j:
            compare(x, x, True, '%s and itself' % (u[i],))
    return None


def mixed(i):
    """a laminate is not equal to things that are no laminate"""
    l = make_lam(laminates('quick')[i])
    for other in (None, 5, 'text', [0, 45], {'xiD': 1}):
        if l == other or not l != other:
            raise Fail('a laminate equals %r' % (other,))
    return None


def names(order):
    """default names of materials made in a given order"""
    made = [(k, make((k, O if k == 'o' else I, n))) for k, n in order]
    seen = {}
    for (k, m), (_, n) in zip(made, order):
        if n is not None:
            if m.name != n:
                raise Fail('name is %r, %r was given' % (m.name, n))
        else:
            if not isinstance(m.name, str) or m.name in seen.setdefault(k, []):
                raise Fail('default name %r is used twice' % (m.name,))
            seen[k].append(m.name)
    first = [m.name for _, m in made]
    for _, m in reversed(made):
        str(m)
    if [m.name for _, m in made] != first:
        raise Fail('a name changed when read again')
    return None


def crowd(kind, n, other):
    """default names of n materials, with other objects made in between"""
    make_ = (lambda: make(('o', O, None)), lambda: make(('i', I, None)), lambda: make(('o' if kind == 'o' else 'i', O if kind == 'o' else I, 'given')))
    held, last = [], {}
    for i in range(n):
        m = make_[kind == 'i']()
        held.append(m)
        if m.name in last:
            raise Fail('materials %d and %d have the default name %r' % (last[m.name], i, m.name))
        last[m.name] = i
        if other and i % other == 0:
            make_[kind == 'o']()
            make_[2]()
    for i, m in enumerate(held):
        if last[m.name] != i:
            raise Fail('the name of material %d is now that of %d' % (i, last[m.name]))
    return None


CROWD = {'quick': 5000, 'thorough': 120000}


def BOUNDS(tier):
    return {'materials': len(materials(tier)), 'laminates': len(laminates(tier)), 'pairs': 'all ordered', 'unnamed_at_once': CROWD[tier], 'name_sequences': '1..%d' % (5 if tier == 'quick' else 7)}


def shards(tier):
    out = [{'what': 'material', 'tier': tier, 'i': i} for i in range(len(materials(tier)))]
    out += [{'what': 'laminate', 'tier': tier, 'i': i} for i in range(len(laminates(tier)))]
    out += [{'what': 'crowd', 'kind': k, 'n': CROWD[tier], 'other': o} for k in 'oi' for o in (0, 3)]
    out += [{'what': 'mixed'}] + [{'what': 'names', 'n': n} for n in range(1, 6 if tier == 'quick' else 8)]
    return out


def explore(shard, rec):
    if shard['what'] == 'names':
        for order in itertools.product([('o', None), ('i', None), ('o', 'n')], repeat=shard['n']):
            rec.state()
            rec.step(shard['n'])
            if rec.full:
                return
            rec.run({'names': order}, lambda: names(order))
        return
    if shard['what'] == 'crowd':
        rec.state(shard['n'])
        rec.step(shard['n'])
        rec.run({'crowd': [shard['kind'], shard['n'], shard['other']]}, lambda: crowd(shard['kind'], shard['n'], shard['other']))
        return
    if shard['what'] == 'mixed':
        for i in range(len(laminates('quick'))):
            rec.state()
            rec.run({'mixed': i}, lambda: mixed(i))
        return
    w, t, i = shard['what'], shard['tier'], shard['i']
    u = materials(t) if w == 'material' else laminates(t)
    mk = make if w == 'material' else make_lam
    key = (lambda r: r[:2]) if w == 'material' else lam_key
    objs = [mk(r) for r in u]
    for j in range(i, len(u)):
        if rec.full:
            return
        want = key(u[i]) == key(u[j])
        rec.state()
        rec.step(4)
        rec.outcome((w, want))
        case = {'pair': [w, t, i, j, 'none']}
        rec.run(case, lambda: compare(objs[i], objs[j], want, '%s and %s' % (u[i], u[j])))
        if want:
            rec.count('equal_pairs')
            for warm in ('none', 'first', 'both'):
                rec.step(4)
                case = {'pair': [w, t, i, j, warm]}
                rec.run(case, lambda: one_pair(w, t, i, j, warm))


def replay(case, rec):
    if 'names' in case:
        rec.run(case, lambda: names([tuple(x) for x in case['names']]))
    elif 'crowd' in case:
        rec.run(case, lambda: crowd(*case['crowd']))
    elif 'mixed' in case:
        rec.run(case, lambda: mixed(case['mixed']))
    else:
        rec.run(case, lambda: one_pair(*case['pair']))
