"""C29 materials, plates and the computed results of laminates are fixed: in every state reached by a history of
reads, every attempt to assign (another value, the same one, nothing) or to delete one of their data is refused
with AttributeError, and afterwards all data read as before and every answer is that of a fresh object."""
import itertools

from mc.c06 import Graph, ops, plain, same
from mc.core import Fail

ID = 'C29'
KINDS = ['list', 'single', 'lp', 'unnamed']
ORTHO = ('e1', 'e2', 'v12', 'g12', 'thickness', 't1', 'c1', 't2', 'c2', 's', 'v21', 'name', 'Q_0')
ISO = ('e', 'v', 'g', 'thickness', 't', 'c', 's', 'name', 'Q_0', 'e1', 'e2', 'v12', 'v21', 'g12', 't1', 't2', 'c1', 'c2')
LAM = ('z_position', 'Q_layup', 'T_layup', 'A', 'B', 'D', 'ABD', 'xiA', 'xiD')
LP = ('z_position', 'A', 'B', 'D', 'ABD', 'xiA', 'xiD')
PLATE = ('dproperty', 'a', 'b', 'constraints', 'Nxx', 'Nyy', 'Nxy', 'm', 'n')
VALUES = ['other', 'same', 'nothing', 'deleted']
SKIP = ('other_plate', 'buckle1')
HIST = {'quick': 1, 'thorough': 2}


def read_ops(kind):
    return {k: v for k, v in ops(kind).items() if k not in SKIP}


def data(kind):
    """(how to get the object, attribute)"""
    out = [(('mat', 'o'), k) for k in ORTHO] + [(('mat', 'i'), k) for k in ISO] + [(('plate',), k) for k in PLATE]
    return out + [(('lam',), k) for k in (LP if kind == 'lp' else LAM)] + [(('lam2',), k) for k in LAM]


def find(g, path):
    v = getattr(g, path[0])
    return v[path[1]] if len(path) > 1 else v


def show(v):
    return plain(v) if not hasattr(v, 'stacking') else ('laminate', id(v))


def another(v, k):
    if isinstance(v, str):
        return {'PINNED': 'CLAMPED'}.get(v, v + 'x')
    if isinstance(v, bool) or v is None:
        return 1
    if isinstance(v, (int, float)):
        return v + 1 if isinstance(v, int) else v * 1.5 + .25
    if isinstance(v, dict):
        return dict.fromkeys(v, 'free')
    if hasattr(v, 'stacking'):
        return Graph('single').lam2
    return [x * 2 for x in v]


def attempt(g, path, k, how):
    o = find(g, path)
    if not hasattr(type(o), k):
        return  # no such data
    before = show(getattr(o, k))
    try:
        if how == 'deleted':
            delattr(o, k)
        else:
            v = getattr(o, k)
            setattr(o, k, v if how == 'same' else None if how == 'nothing' else another(v, k))
    except AttributeError:
        refused = True
    else:
        refused = False
    if not refused:
        raise Fail('%s of %s: %s value accepted' % (k, '.'.join(path), how))
    msg = same(show(getattr(o, k)), before, k)
    if msg:
        raise Fail('%s of %s after a refused assignment: %s' % (k, '.'.join(path), msg))


def answers(g, kind, tab, what):
    for op, f in read_ops(kind).items():
        msg = same(f(g), tab[op], op)
        if msg:
            raise Fail('%s: %s' % (what, msg))


def table(kind):
    return {op: f(Graph(kind)) for op, f in read_ops(kind).items()}


_tab = {}


def known(kind):
    if kind not in _tab:
        _tab[kind] = table(kind)
    return _tab[kind]


def every(kind, hist, how, back):
    """all attempts one after another, in the state after hist"""
    g = Graph(kind)
    for op in hist:
        read_ops(kind)[op](g)
    d = data(kind)
    for path, k in d[::-1] if back else d:
        attempt(g, path, k, how)
    answers(g, kind, known(kind), '%s attempts after %s' % (how, hist))


def single(kind, path, k, how, early):
    """one attempt on objects that are fresh, or that were read completely"""
    g = Graph(kind)
    if early:
        answers(g, kind, known(kind), 'before')
    attempt(g, path, k, how)
    answers(g, kind, known(kind), 'after an attempt on %s of %s (%s)' % (k, '.'.join(path), how))


def BOUNDS(tier):
    return {'data': {k: len(data(k)) for k in KINDS}, 'attempts': VALUES, 'history_of_reads': HIST[tier], 'reads': {k: list(read_ops(k)) for k in KINDS}}


def shards(tier):
    return [{'kind': k, 'how': h, 'len': HIST[tier], 'part': p} for k in KINDS for h in VALUES for p in ('every', 'fresh', 'read')]


def explore(shard, rec):
    kind, how = shard['kind'], shard['how']
    if not rec.run({'table': kind}, lambda: known(kind) and None):
        return
    if shard['part'] != 'every':
        for path, k in data(kind):
            if rec.full:
                return
            rec.state()
            rec.step(2)
            early = shard['part'] == 'read'
            rec.run({'kind': kind, 'path': list(path), 'data': k, 'how': how, 'early': early}, lambda: single(kind, path, k, how, early))
        return
    for n in range(shard['len'] + 1):
        for hist in itertools.product(read_ops(kind), repeat=n):
            for back in (0, 1):
                if rec.full:
                    return
                rec.state()
                rec.step(n + len(data(kind)))
                rec.run({'kind': kind, 'hist': list(hist), 'how': how, 'back': back}, lambda: every(kind, hist, how, back))


def replay(case, rec):
    if 'table' in case:
        rec.run(case, lambda: known(case['table']) and None)
    elif 'hist' in case:
        rec.run(case, lambda: every(case['kind'], case['hist'], case['how'], case['back']))
    else:
        rec.run(case, lambda: single(case['kind'], case['path'], case['data'], case['how'], case['early']))
