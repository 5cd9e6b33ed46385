"""C25 copies: every way of copying an object (copy, deepcopy, pickle in every protocol) at every state that
a history of reads leads to; the copy and the original are then read in every order of a set, the load of one
is changed, and every answer is compared with the one of a fresh object.  States are merged by the whole
instance state of the original after the history."""
import copy
import itertools
import pickle

from composipy import LaminateProperty, LaminateStrength, PlateStructure

from mc.c06 import Graph, U_material, canon, in_child, modes, ops, plain, same, stateful, surface
from mc.core import Fail
from mc.cover import cover

ID = 'C25'
KINDS = ['list', 'single', 'lp']  # of c06; here also one of unnamed materials
KINDS += ['unnamed']
METHODS = {'copy': copy.copy, 'deepcopy': copy.deepcopy}
for _p in range(pickle.HIGHEST_PROTOCOL + 1):
    METHODS['pickle %d' % _p] = lambda v, _p=_p: pickle.loads(pickle.dumps(v, _p))
TARGETS = ['materials', 'laminate', 'plate', 'strength', 'all', 'together']
SKIP = ('K_ABD', 'buckle1', 'other_plate', 'eq')
HIST = {'quick': 1, 'thorough': 2}
LOADED = ('eps0', 'strain', 'stress', 'margin')


def all_ops(kind):
    # the plot comes last and, in the reversed order, first: then it shows the modes the object has kept
    return {k: v for k, v in ops(kind).items() if k not in SKIP} | {'plot': lambda g: surface(g.plate)}


def table(kind):
    t = {}
    for op, f in all_ops(kind).items():
        t[op] = f(Graph(kind))
        if op in LOADED:
            g = Graph(kind)
            stateful(kind)['load1'](g)
            t[op, 'load1'] = f(g)
    return t


class Twin:
    """the objects of a graph with some of them replaced by copies"""

    def __init__(self, g, target, method):
        m = METHODS[method]
        self.__dict__.update(g.__dict__)
        if target in ('materials', 'all'):
            self.mat = {k: m(v) for k, v in g.mat.items()}
        if target in ('laminate', 'all'):
            self.lam, self.lam2 = m(g.lam), m(g.lam2)
        if target in ('plate', 'all'):
            self.plate = m(g.plate)
        if target in ('strength', 'all'):
            self.st = m(g.st)
        if target == 'together':
            self.mat, self.lam, self.lam2, self.plate, self.st = m((g.mat, g.lam, g.lam2, g.plate, g.st)) if method != 'copy' else \
                [m(x) for x in (g.mat, g.lam, g.lam2, g.plate, g.st)]


def read(g, kind, tab, names, what, load=None):
    O = all_ops(kind)
    for n in names:
        want = tab.get((n, load), tab[n])
        msg = same(O[n](g), want, n)
        if msg:
            raise Fail('%s: %s' % (what, msg))


def one(kind, target, method, hist, order, tab):
    g = Graph(kind)
    O, S = all_ops(kind), stateful(kind)
    for op in hist:
        O[op](g)
    t = Twin(g, target, method)
    names = list(O) if order % 2 == 0 else list(O)[::-1]
    # a figure costs more than the rest together
    if order % 2 == 0 or target in ('materials', 'laminate', 'strength') or hist and hist[-1] not in ('buckle5', 'plot', 'K_D', 'A'):
        names.remove('plot')
    apart = target in ('strength', 'all', 'together')
    what = '%s by %s after %s' % (target, method, hist)
    if order < 2:
        read(t, kind, tab, names, 'copy of ' + what)
        read(g, kind, tab, names, 'original, copied were ' + what)
    else:
        read(g, kind, tab, names, 'original, copied were ' + what)
        read(t, kind, tab, names, 'copy of ' + what)
    for a, b, wa, wb in ((g, t, 'original', 'copy'), (t, g, 'copy', 'original')):
        if not apart:
            break
        S['load1'](a)
        read(b, kind, tab, LOADS(kind), '%s after the load of the %s changed, %s' % (wb, wa, what))
        read(a, kind, tab, LOADS(kind), '%s with another load, %s' % (wa, what), 'load1')
        a.st.Nxx, a.st.Mxy = b.st.Nxx, b.st.Mxy
    if not (t.lam == g.lam and t.lam2 == g.lam2 and all(t.mat[k] == g.mat[k] for k in g.mat)):
        raise Fail('copy and original are not equal: ' + what)
    if [m.name for m in t.mat.values()] != [m.name for m in g.mat.values()]:
        raise Fail('names of the copies: ' + what)
    if kind != 'lp' and [[m.name for m in x.lam.plies] + [m.name for m in x.plate.dproperty.plies] + [m.name for m in x.st.dproperty.plies]
                         for x in (t,)] != [[m.name for m in g.lam.plies] * 3]:
        raise Fail('names of the plies of the copies: ' + what)
    if [plain(getattr(t.plate, k)) for k in ('a', 'b', 'constraints', 'Nxx', 'Nyy', 'Nxy', 'm', 'n')] != \
            [plain(getattr(g.plate, k)) for k in ('a', 'b', 'constraints', 'Nxx', 'Nyy', 'Nxy', 'm', 'n')]:
        raise Fail('plate data of the copy: ' + what)


def LOADS(kind):
    return [n for n in LOADED if n in all_ops(kind)]


def elsewhere(kind, method, hist, tab):
    """a pickled graph opened in another process"""
    g = Graph(kind)
    for op in hist:
        all_ops(kind)[op](g)
    data = pickle.dumps((g.mat, g.lam, g.lam2, g.plate, g.st), int(method.split()[1]))

    def body():
        t = Twin(g, 'none', method)
        t.mat, t.lam, t.lam2, t.plate, t.st = pickle.loads(data)
        read(t, kind, tab, list(all_ops(kind))[::-1], 'opened in another process after %s' % (hist,))
    in_child(body)


# every plate of a covering set of its arguments, every strength object after every set of assignments
DIMS = [[(2., 1.3), (.9, 2.2)], [(-1., .3, .5), (.2, -2., -.7)], [(2, 3), (3, 1), (1, 2)],
        [('pinned', 'clamped', 'free', 'pinned'), ('clamped', ['TX', 'TZ'], ['TX', 'TY', 'TZ', 'RX'], 'free'), 'PINNED', 'CLAMPED'],
        ['plies', 'one', 'parameters', 'bending_only', 'many']]
READS = ['attributes', 'K_D', 'K_ABD', 'factors', 'surface']
NAMES = ('Nxx', 'Nyy', 'Nxy', 'Mxx', 'Myy', 'Mxy')
SET = (7., 11., -13., .4, -.6, .9)


def laminate(form):
    m = U_material()
    return LaminateProperty(*{'plies': lambda: ([30, -50, 0], [m, U_material(e1=99000.), U_material(t=.4)]), 'one': lambda: ([30, -50], m),
                              'parameters': lambda: ({'xiA': [.1, -.2, .3, .05], 'xiD': [.2, .1, -.4, .15], 'T': 1.3}, m),
                              'bending_only': lambda: ({'xiD': [.3, .1, -.4, .15], 'T': 1.3}, m),
                              'many': lambda: ([0, 45, -45, 90, 90, -45, 45, 0, 10], m)}[form]())


def answers(p, form, op):
    if op == 'attributes':
        return [plain(getattr(p, k)) for k in ('a', 'b', 'constraints', 'Nxx', 'Nyy', 'Nxy', 'm', 'n')] + [plain(p.dproperty.D)]
    if op == 'K_D':
        return plain(p.calc_K_KG_D())
    if op == 'K_ABD':
        return plain(p.calc_K_KG_ABD()) if form != 'bending_only' else None
    if op == 'factors':
        return modes(p, 2)
    return surface(p)


def plates(config, method):
    (ab, N, mn, bc, form) = [d[i] for d, i in zip(DIMS, config)]
    make = lambda: PlateStructure(laminate(form), *ab, bc if isinstance(bc, str) else dict(zip(('x0', 'xa', 'y0', 'yb'), bc)), *N, *mn)
    want = {}
    for op in READS:
        want[op] = answers(make(), form, op)
    for before in [None] + READS:
        p = make()
        if before:
            answers(p, form, before)
        c = METHODS[method](p)
        c2 = METHODS[method](c)
        for op in READS:
            for x, who in ((c, 'copy'), (p, 'original'), (c2, 'copy of the copy')):
                msg = same(answers(x, form, op), want[op], op)
                if msg:
                    raise Fail('%s of a plate that answered %s: %s' % (who, before, msg))


def strengths(bits, method):
    """the loads with their bit set are assigned after the object was made"""
    def make():
        return LaminateStrength(laminate('plies'), -10., -5., -3., -.4, -.2, -.1)

    def look(s):
        return [plain(s.epsilon0()), plain(s.calculate_strain()), plain(s.calculate_stress()), plain(s.calculate_maxstressmargin()),
                [getattr(s, k) for k in NAMES]]
    loads = [v if bits >> i & 1 else w for i, (v, w) in enumerate(zip(SET, (-10., -5., -3., -.4, -.2, -.1)))]
    want = look(LaminateStrength(laminate('plies'), *loads))
    for early in (0, 1):
        s = make()
        if early:
            look(s)
        for i, k in enumerate(NAMES):
            if bits >> i & 1:
                setattr(s, k, SET[i])
        c = METHODS[method](s)
        for x, who in ((c, 'copy'), (s, 'original'), (METHODS[method](c), 'copy of the copy')):
            msg = same(look(x), want, 'answers')
            if msg:
                raise Fail('%s of a strength object with loads assigned%s: %s' % (who, ' after it was read' * early, msg))


def BOUNDS(tier):
    return {'plates': len(cover([len(d) for d in DIMS], 2 if tier == 'quick' else 3)), 'sets_of_assigned_loads': 64, 'methods': list(METHODS), 'copied': TARGETS, 'history_length': HIST[tier], 'operations': {k: list(all_ops(k)) for k in KINDS},
            'orders_of_reading': 4}


def shards(tier):
    return [{'kind': k, 'target': t, 'method': m, 'len': HIST[tier]} for k in KINDS for t in TARGETS for m in METHODS
            if k != 'unnamed' or tier != 'quick' or m in ('copy', 'deepcopy', 'pickle 2')] + \
        [{'plates': m, 'depth': 2 if tier == 'quick' else 3} for m in METHODS] + [{'strengths': m} for m in METHODS]


def explore(shard, rec):
    if 'plates' in shard:
        for config in cover([len(d) for d in DIMS], shard['depth']):
            if rec.full:
                return
            rec.state()
            rec.step(6)
            rec.run({'plate': list(config), 'method': shard['plates']}, lambda: plates(config, shard['plates']))
        return
    if 'strengths' in shard:
        for bits in range(64):
            if rec.full:
                return
            rec.state()
            rec.step(2)
            rec.run({'assigned': bits, 'method': shard['strengths']}, lambda: strengths(bits, shard['strengths']))
        return
    kind, target, method = shard['kind'], shard['target'], shard['method']
    tab = {}
    if not rec.run({'table': kind}, lambda: tab.update(table(kind))):
        return
    seen = set()
    for n in range(shard['len'] + 1):
        for hist in itertools.product(all_ops(kind), repeat=n):
            if rec.full:
                return
            box = []

            def go():
                g = Graph(kind)
                for op in hist:
                    all_ops(kind)[op](g)
                box.append(canon(g))
            rec.step(n)
            if not rec.run({'kind': kind, 'hist': list(hist)}, go) or box[0] in seen:
                continue
            seen.add(box[0])
            rec.state()
            rec.outcome(box[0])
            for order in range(4):
                rec.step(2)
                case = {'kind': kind, 'target': target, 'method': method, 'hist': list(hist), 'order': order}
                rec.run(case, lambda: one(kind, target, method, list(hist), order, tab))
            if target == 'together' and method.startswith('pickle'):
                rec.run({'kind': kind, 'method': method, 'hist': list(hist), 'elsewhere': 1}, lambda: elsewhere(kind, method, list(hist), tab))


def replay(case, rec):
    if 'table' in case:
        rec.run(case, lambda: table(case['table']) and None)
    elif 'plate' in case:
        rec.run(case, lambda: plates(case['plate'], case['method']))
    elif 'assigned' in case:
        rec.run(case, lambda: strengths(case['assigned'], case['method']))
    elif 'target' in case:
        rec.run(case, lambda: one(case['kind'], case['target'], case['method'], case['hist'], case['order'], table(case['kind'])))
    elif 'elsewhere' in case:
        rec.run(case, lambda: elsewhere(case['kind'], case['method'], case['hist'], table(case['kind'])))
    else:
        def go():
            g = Graph(case['kind'])
            for op in case['hist']:
                all_ops(case['kind'])[op](g)
        rec.run(case, go)
