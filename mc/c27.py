"""C27 answers belong to the caller: writing into one changes no other answer, earlier or later.

Traces over one object graph (c06.Graph): some reads, each answer of which is kept, then one more read whose
answer is written into - every writable part of it, in each of several ways - then every read there is, in
one order and in the reverse.  Answers read after the write are compared with those of a fresh graph; answers
kept from before it must still be what they were, after the write and after every later call."""
import contextlib
import io
import itertools

import numpy as np

from mc import c06
from mc.core import Fail

ID = 'C27'
ASSUMPTIONS = ['an answer that refuses to be written into (read-only) cannot change anything and is passed over',
               'attributes that give the arguments back (angles, plies, edges) are not answers: they are the object']
KINDS = ['list', 'single', 'lp']
WRITES = ['zero', 'scale', 'last', 'longer']
DEPTH = {'quick': 1, 'thorough': 2}
SLOW = ('K_ABD', 'maximise', 'minimise', 'other_plate', 'plot')


def raw(kind):
    """name -> the answer itself, as handed out"""
    r = {'A': lambda g: g.lam.A, 'B': lambda g: g.lam.B, 'D': lambda g: g.lam.D, 'ABD': lambda g: g.lam.ABD,
         'xiA': lambda g: g.lam.xiA, 'xiD': lambda g: g.lam.xiD,
         'Q0': lambda g: [m.Q_0 for m in g.mat.values()], 'U': lambda g: [m.Invariants() for m in g.mat.values()],
         'eps0': lambda g: g.st.epsilon0(),
         'K_D': lambda g: list(g.plate.calc_K_KG_D()), 'K_ABD': lambda g: list(g.plate.calc_K_KG_ABD()),
         'buckle5': lambda g: list(g.plate.buckling_analysis()),
         'buckle1': lambda g: list(g.plate.buckling_analysis(num_eigvalues=1)),
         'other_lam': lambda g: [g.lam2.ABD, g.lam2.D, g.lam2.Q_layup, g.lam2.xiD],
         'other_plate': lambda g: list(g.plate2.calc_K_KG_D()) + list(g.plate2.buckling_analysis(num_eigvalues=2)),
         'sequence': sequence, 'maximise': lambda g: vars_of(maximise()), 'minimise': lambda g: vars_of(minimise())}
    if kind != 'lp':
        r.update({'Q': lambda g: g.lam.Q_layup, 'T': lambda g: g.lam.T_layup, 'z': lambda g: g.lam.z_position,
                  'strain': lambda g: g.st.calculate_strain(), 'stress': lambda g: g.st.calculate_stress(),
                  'margin': lambda g: g.st.calculate_maxstressmargin()})
    return r


def sequence(g):
    from composipy.nastranapi import build_sequence
    return [build_sequence('[\\pm45_2/0/(30/90)_2]s'), build_sequence('[45/(0)_3]')]


def maximise():
    from composipy.optimize import maximize_buckling_load
    return maximize_buckling_load(1., 1.5, 1., 129500., 9370., .38, 5240., Nxx=-1., Nxy=.3, m=2, n=2)


def minimise():
    from composipy.optimize import minimize_panel_weight
    return minimize_panel_weight(1., 1.5, 129500., 9370., .38, 5240., Nxx=-1., Nxy=.3, m=2, n=2, x0=[.1, 0., 0.])


def vars_of(res):
    return [res.x, res.jac]


def reads(kind):
    """the reads that follow: as in C06, with the plot and the calls above"""
    o = c06.ops(kind)
    o['plot'] = lambda g: c06.surface(g.plate)
    o['sequence'] = lambda g: c06.plain(sequence(g))
    o['maximise'] = lambda g: ['%.4g' % v for v in [maximise().fun]]
    o['minimise'] = lambda g: ['%.4g' % v for v in [minimise().fun]]
    return o


def leaves(v):
    """every container of an answer that may be written into"""
    if isinstance(v, (list, tuple)):
        for x in v:
            yield from leaves(x)
    elif isinstance(v, dict):
        for x in v.values():
            yield from leaves(x)
    if isinstance(v, (list, dict, np.ndarray)) or hasattr(v, 'iloc'):
        yield v


def write(answer, how):
    """writes into every part of an answer; the number of parts that could be written into"""
    n = 0
    for v in list(leaves(answer)):
        try:
            if isinstance(v, np.ndarray):
                if not v.size or not v.flags.writeable:
                    continue
                if how == 'zero':
                    v[...] = 0
                elif how == 'scale':
                    v *= 1000.
                elif how == 'last':
                    v.flat[-1] += 17.
                else:
                    v.sort(axis=-1)
            elif hasattr(v, 'iloc'):
                for c in v.columns:
                    if v[c].dtype.kind == 'f':
                        if how == 'zero':
                            v[c] = 0.
                        elif how == 'scale':
                            v[c] *= 1000.
                        elif how == 'last':
                            v.loc[v.index[-1], c] = 17.
                        else:
                            v.iloc[:, list(v.columns).index(c)] = v[c].to_numpy()[::-1].copy()
            elif isinstance(v, list):
                if how == 'zero':
                    v.clear()
                elif how == 'scale':
                    v[:] = [x * 1000. if isinstance(x, float) else x for x in v]
                elif how == 'last':
                    v[-1:] = []
                else:
                    v.append(v[0] if v else None)
            n += 1
        except (ValueError, TypeError, AttributeError):
            continue  # an answer that refuses to be changed
    return n


def exact(v):
    if isinstance(v, np.ndarray):
        return ('a', v.shape, v.tolist().__repr__())
    if hasattr(v, 'to_dict'):
        return ('f', repr([(str(c), list(v[c])) for c in v.columns]))
    if isinstance(v, (list, tuple)):
        return ('l',) + tuple(exact(x) for x in v)
    return repr(v)


def order(kind, rev):
    names = list(reads(kind))
    return names[::-1] if rev else names


def trace(kind, hist, op, how, rev, table, rec):
    g = c06.Graph(kind)
    R, O = raw(kind), reads(kind)
    kept = []
    for h in hist:
        v = R[h](g)
        kept.append((h, v, exact(v)))
        rec.step()
    answer = R[op](g)
    rec.step()
    for h, v, was in kept:
        if exact(v) != was:
            raise Fail('the answer of %s changed when %s was called' % (h, op))
    if not write(answer, how):
        rec.count('answers_that_refuse')
    for h, v, was in kept:
        if exact(v) != was:
            raise Fail('the answer of %s changed when that of %s was written into (%s)' % (h, op, how))
    now = exact(answer)
    for o in order(kind, rev):
        if hist and o in SLOW and o != op and o not in hist:
            continue  # the slow reads follow every write without reads before
        m = c06.same(O[o](g), table[o], o)
        rec.step()
        if m:
            raise Fail('after writing into the answer of %s (%s): %s' % (op, how, m))
        for h, v, was in kept:
            if exact(v) != was:
                raise Fail('the answer of %s changed when %s was called' % (h, o))
        if exact(answer) != now:
            raise Fail('the answer of %s changed when %s was called' % (op, o))
    rec.outcome((kind, op, how))


def table_of(kind):
    return {o: f(c06.Graph(kind)) for o, f in reads(kind).items()}


def hists(kind, op, tier):
    names = list(raw(kind))
    yield ()
    for d in range(1, DEPTH[tier] + 1):
        for h in itertools.product([n for n in names if (n not in SLOW or n == op) and (d == 1 or op not in SLOW)], repeat=d):
            yield h


def BOUNDS(tier):
    return {'graphs': KINDS, 'answers': {k: list(raw(k)) for k in KINDS}, 'ways_to_write': WRITES,
            'reads_before': DEPTH[tier], 'reads_after': 'all, in two orders'}


def shards(tier):
    return [{'kind': k, 'op': o, 'tier': tier} for k in KINDS for o in raw(k)]


TABLES = {}


def prepare(tier):
    for k in KINDS:
        try:
            TABLES[k] = table_of(k)
        except Exception:
            TABLES[k] = None  # told case by case


def explore(shard, rec):
    kind, op = shard['kind'], shard['op']
    n = 0
    for hist in hists(kind, op, shard['tier']):
        for how in WRITES:
            for rev in ([False, True] if len(hist) <= 1 and op not in SLOW else [len(hist) % 2 == 0]):
                if len(hist) == 2 and how != WRITES[n % len(WRITES)]:
                    n += 1
                    continue
                n += 1
                rec.state()
                case = {'kind': kind, 'hist': list(hist), 'op': op, 'how': how, 'rev': rev}
                rec.run(case, lambda: one(case, rec))
                if rec.full:
                    return


def one(case, rec):
    kind = case['kind']
    if TABLES.get(kind) is None:
        TABLES[kind] = table_of(kind)
    with contextlib.redirect_stdout(io.StringIO()):
        trace(kind, case['hist'], case['op'], case['how'], case['rev'], TABLES[kind], rec)


def replay(case, rec):
    rec.run(case, lambda: one(case, rec))
