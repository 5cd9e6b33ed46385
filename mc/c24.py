"""C24 interrupted computations: an exception (a key pressed, memory running out) is raised at every
statement of the package that an operation executes, one execution per statement and occurrence; after it
every result of every object concerned must be what a fresh object gives, and an operation that goes on
regardless must give its usual answer.  States reached by faults are merged by the whole instance state of
the objects and the module state of the package; the first and last occurrence of every source line is also
run unmerged, in a process of its own, followed by reads on the same objects and on new ones."""
import os
import sys
import types

import numpy as np

from mc import core
from mc.c06 import Graph, canon, in_child, ops, plain, same, stateful, surface
from mc.core import Fail

ID = 'C24'
ROOT = os.path.join(os.path.abspath(core.REPO), 'composipy', '')
KINDS = ['list', 'single', 'lp']
SKIP = ('buckle1', 'other_plate', 'eq', 'names')
PRIOR = {'quick': ['A', 'ABD', 'stress', 'buckle5'], 'thorough': ['A', 'Q', 'D', 'ABD', 'xiD', 'stress', 'margin', 'buckle5', 'load1']}
PRIORED = ['A', 'B', 'D', 'ABD', 'xiA', 'xiD', 'Q', 'T', 'Q0', 'stress', 'buckle5']
CAP = 300


class Interrupt(BaseException):
    """stands for KeyboardInterrupt"""


class NoMemory(MemoryError):
    pass


FAULTS = {'interrupt': Interrupt, 'memory': NoMemory}


def fault(f, k, kind='interrupt'):
    """run f, raising at the k-th statement of the package (k = 0: never) -> (outcome, value, lines seen)"""
    n = [0]
    lines = []

    def trace(frame, event, arg):
        if not frame.f_code.co_filename.startswith(ROOT):
            return None
        if event == 'line':
            n[0] += 1
            if k == 0:
                lines.append((frame.f_code.co_filename, frame.f_lineno))
            elif n[0] == k:
                raise FAULTS[kind]()
        return trace
    old = sys.gettrace()
    sys.settrace(trace)
    try:
        v = f()
        out = 'done'
    except (Interrupt, NoMemory):
        v, out = None, 'fault'
    except ValueError as exc:
        if not isinstance(exc.__context__, (Interrupt, NoMemory)):
            raise
        v, out = None, 'fault'
    finally:
        sys.settrace(old)
    return out, v, lines


def all_ops(kind):
    o = {k: v for k, v in ops(kind).items() if k not in SKIP}
    if kind != 'single':
        o.pop('K_ABD')
    else:
        o['plot'] = lambda g: surface(g.plate)
    return o


def table(kind):
    return {k: f(Graph(kind)) for k, f in all_ops(kind).items()}


def world():
    """module and class state of the package"""
    seen = set()

    def walk(v, depth=0):
        if isinstance(v, (int, float, str, bool, type(None), bytes, np.generic)):
            return v
        if isinstance(v, np.ndarray):
            return ('a', v.shape, v.tobytes())
        if isinstance(v, (list, tuple, set, frozenset)):
            return ('l',) + tuple(walk(x, depth + 1) for x in v) if len(v) < 300 else ('l', len(v))
        if isinstance(v, dict):
            return ('d',) + tuple((repr(a), walk(b, depth + 1)) for a, b in v.items()) if len(v) < 300 else ('d', len(v))
        if isinstance(v, type):
            if v in seen or not str(v.__module__).startswith('composipy'):
                return v.__name__
            seen.add(v)
            return (v.__name__,) + tuple((a, walk(b, depth + 1)) for a, b in vars(v).items() if not a.startswith('__'))
        info = getattr(v, 'cache_info', None)
        if info is not None:
            return tuple(info())
        return type(v).__name__
    out = []
    for name in sorted(sys.modules):
        if name.split('.')[0] == 'composipy':
            for a, v in vars(sys.modules[name]).items():
                if not a.startswith('__') and not isinstance(v, types.ModuleType):
                    out.append((name, a, walk(v)))
    return hash(tuple(out))


def reads(g, O, tab, names, what):
    for n in names:
        m = same(O[n](g), tab[n], n)
        if m:
            raise Fail('%s: %s' % (what, m))


def short(line):
    return '%s:%d' % (line[0][len(ROOT):], line[1])


LIGHT = lambda O: [n for n in O if n not in ('K_ABD', 'plot')]


def trial(kind, prior, op, k, exc, tab, after):
    """-> objects after the fault"""
    g = Graph(kind)
    O = all_ops(kind)
    for p in prior:
        stateful(kind)[p](g) if p in stateful(kind) else O[p](g)
    if 'load1' in prior:
        tab = load_table(kind)
    out, v, _ = fault(lambda: O[op](g), k, exc)
    what = '%s%s stopped at statement %d' % ('after %s, ' % prior if prior else '', op, k)
    if out == 'done':
        m = same(v, tab[op], op)
        if m:
            raise Fail('%s goes on and gives another answer: %s' % (what, m))
    if after:
        names = LIGHT(O)
        if op in ('K_ABD', 'plot'):
            names = [op] + names
        if after == 'plot':
            names = ['plot'] + names
        reads(g, O, tab, names[::-1] if after == 'backward' else names, what)
    return g


_lt = {}


def load_table(kind):
    if kind not in _lt:
        t = {}
        for k, f in all_ops(kind).items():
            g = Graph(kind)
            stateful(kind)['load1'](g)
            t[k] = f(g)
        _lt[kind] = t
    return _lt[kind]


def alone(kind, op, k, exc, tab):
    def body():
        trial(kind, [], op, k, exc, tab, 'backward')
        O = all_ops(kind)
        reads(Graph(kind), O, tab, LIGHT(O), 'new objects, after %s stopped at statement %d' % (op, k))
    in_child(body)


# functions without objects ------------------------------------------------------------------
def functions():
    from composipy.nastranapi import build_pcomp, build_sequence
    from composipy.optimize import maximize_buckling_load, minimize_panel_weight
    o = {'maxiter': 2}
    return {
        'sequence': lambda: build_sequence('[\\pm45_2/0/(30/90)_2]s'),
        'pcomp': lambda: build_pcomp([0, 45, 90], [1, 2, 3], .2),
        'maximise': lambda: float(maximize_buckling_load(1., 1.5, 1., 129500., 9370., .38, 5240., Nxx=-1., m=1, n=1, options=o).fun),
        'maximise natural': lambda: float(maximize_buckling_load(1., 1.5, 1., 129500., 9370., .38, 5240., Nyy=-1., m=1, n=1, options=o, penalty=False).fun),
        'minimise': lambda: float(minimize_panel_weight(1., 1.5, 129500., 9370., .38, 5240., Nxx=-500., m=1, n=1, options=o).x[0]),
    }


def call_again(name, k, exc):
    def body():
        F = functions()
        out, v, _ = fault(F[name], k, exc)
        for n, want in (([(name, fn_table()[name])] if out == 'fault' else []) + list(fn_table().items())):
            m = same(plain(v if out == 'done' and n == name else F[n]()), want, n)
            if m:
                raise Fail('%s stopped at statement %d: %s' % (name, k, m))
    in_child(body)


_ft = {}


def fn_table():
    if not _ft:
        _ft.update({k: plain(f()) for k, f in functions().items()})
    return _ft


def occurrences(lines):
    """statement numbers of the first and last occurrence of every source line"""
    first, last = {}, {}
    for i, l in enumerate(lines, 1):
        first.setdefault(l, i)
        last[l] = i
    return sorted(set(first.values()) | set(last.values()))


def BOUNDS(tier):
    return {'faults_per_history': 1, 'operations': {k: list(all_ops(k)) for k in KINDS}, 'functions': list(functions()),
            'preceding_operations': PRIOR[tier], 'faults': list(FAULTS), 'state_cap': CAP}


TASKS_PER_CHILD = 1


def shards(tier):
    out = []
    for kind in KINDS:
        O = all_ops(kind)
        heavy = ['K_ABD', 'plot', 'K_D', 'buckle5']
        for op in sorted(O, key=lambda n: heavy.index(n) if n in heavy else 9):
            parts = {'K_ABD': 8, 'plot': 4, 'K_D': 2, 'buckle5': 2}.get(op, 1)
            for part in range(parts):
                out.append({'kind': kind, 'op': op, 'prior': [], 'part': part, 'of': parts, 'tier': tier})
        for p in PRIOR[tier]:
            if p not in O and p not in stateful(kind):
                continue
            for op in PRIORED:
                if op in O and op != p:
                    out.append({'kind': kind, 'op': op, 'prior': [p], 'part': 0, 'of': 1, 'tier': tier})
    # a plot shows what an earlier analysis left behind, and what the interrupted operation did to it
    for op in ('K_ABD', 'plot', 'K_D', 'buckle5'):
        for p in ('buckle5', 'plot'):
            for part in range(4):
                out.insert(0, {'kind': 'single', 'op': op, 'prior': [p], 'part': part, 'of': 4, 'tier': tier, 'plotted': True})
    for name in functions():
        for part in range(4):
            out.append({'kind': 'function', 'op': name, 'part': part, 'of': 4})
    return out


def explore(shard, rec):
    op, part, of = shard['op'], shard['part'], shard['of']
    if shard['kind'] == 'function':
        box = []
        if not rec.run({'probe': op}, lambda: box.append(fault(functions()[op], 0)[2])):
            return
        rec.run({'table': 'functions'}, lambda: fn_table() and None)
        for i, k in enumerate(occurrences(box[0])):
            for exc in FAULTS:
                if i % of == part and not rec.full:
                    rec.state()
                    rec.step()
                    rec.run({'function': op, 'k': k, 'exc': exc}, lambda: call_again(op, k, exc))
        return
    kind, prior = shard['kind'], shard['prior']
    tab = {}
    if not rec.run({'table': kind}, lambda: tab.update(table(kind))):
        return

    def probe():
        g = Graph(kind)
        O = all_ops(kind)
        for p in prior:
            stateful(kind)[p](g) if p in stateful(kind) else O[p](g)
        return fault(lambda: O[op](g), 0)[2]
    box = []
    if not rec.run({'probe': op, 'kind': kind}, lambda: box.append(probe())):
        return
    lines = box[0]
    seen = set()
    case = lambda k, exc, **kw: dict({'kind': kind, 'prior': prior, 'op': op, 'k': k, 'exc': exc, 'line': short(lines[k - 1])}, **kw)
    if shard.get('plotted'):
        for i, k in enumerate(occurrences(lines) if shard['tier'] == 'quick' else range(1, len(lines) + 1)):
            if i % of == part and not rec.full:
                rec.state()
                rec.step()
                rec.run(case(k, 'interrupt', plotted=True), lambda: trial(kind, prior, op, k, 'interrupt', tab, 'plot') and None)
        return
    if not prior:
        for i, k in enumerate(occurrences(lines)):
            if i % of == part and not rec.full:
                exc = list(FAULTS)[i % 2] if shard['tier'] == 'quick' else None
                for e in ([exc] if exc else FAULTS):
                    rec.state()
                    rec.step()
                    rec.count('executions_in_a_process_of_their_own')
                    rec.run(case(k, e, alone=True), lambda: alone(kind, op, k, e, tab))
    for k in range(1, len(lines) + 1):
        if k % of != part or rec.full:
            continue
        box = []
        rec.step()
        if not rec.run(case(k, 'interrupt'), lambda: box.append(trial(kind, prior, op, k, 'interrupt', tab, None))):
            continue
        key = hash((canon(box[0]), world()))
        if key in seen:
            continue
        if len(seen) >= CAP:
            rec.count('state_cap_hit')
            continue
        seen.add(key)
        rec.state()
        rec.outcome(key)
        rec.run(case(k, 'interrupt', read=True), lambda: trial(kind, prior, op, k, 'interrupt', tab, 'forward') and None)


def replay(case, rec):
    if 'function' in case:
        rec.run(case, lambda: call_again(case['function'], case['k'], case['exc']))
    elif 'line' in case:
        tab = table(case['kind'])
        if case.get('alone'):
            rec.run(case, lambda: alone(case['kind'], case['op'], case['k'], case['exc'], tab))
        else:
            rec.run(case, lambda: trial(case['kind'], case['prior'], case['op'], case['k'], case['exc'], tab, 'plot' if case.get('plotted') else 'forward') and None)
    elif case.get('table') == 'functions':
        rec.run(case, lambda: fn_table() and None)
    else:
        rec.run(case, lambda: table(case.get('kind') or case['table']) and None)
