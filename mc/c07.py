"""C07 concurrent use: real threads of the real code under a controlled scheduler; every schedule with at
most P preemptions, at statement, call and bytecode granularity.  Oracle: each answer equals the
one obtained alone, so does every answer read afterwards, and nothing raises or blocks."""
import itertools

from mc import sched
sched.patch_locks()

from composipy import IsotropicMaterial, LaminateProperty, LaminateStrength, OrthotropicMaterial, PlateStructure
from composipy.nastranapi import pcomp_generator
from composipy.optimize import maximize_buckling_load, minimize_panel_weight

from mc.c06 import in_child, plain, same
from mc.core import Fail

ID = 'C07'
TASKS_PER_CHILD = 1
ASSUMPTIONS = ['schedules are sequentially consistent interleavings (the interpreter lock), switched at statements or at '
               'bytecode instructions of the package; calls into numpy and scipy are atomic',
               'two threads (three where stated); preemptions bounded as stated']
O1 = (129500., 9370., .38, 5240., .2, 1500., 1200., 50., 250., 70.)
O2 = (39000., 8600., .28, 3800., .55, 1080., 620., 39., 128., 89.)
I1 = (71000., .33, 26692., .4, 300., 280., 180.)
BC = {'x0': ['TX', 'TY', 'TZ'], 'xa': ['TX', 'TZ', 'RZ'], 'y0': ['TZ', 'TY'], 'yb': ['TX', 'TZ', 'RX']}


class World:
    """a pool of objects; two copies (index 0 and 1) that differ in everything, and objects shared below them"""

    def __init__(self, plies=1):
        self.m = [OrthotropicMaterial(*O1), OrthotropicMaterial(*O2)]
        self.iso = [IsotropicMaterial(*I1), IsotropicMaterial(70000., .3, 20000., 1.6, 310, 290, 170)]
        if plies == 1:
            self.lam = [LaminateProperty([30], [self.m[0]]), LaminateProperty([-65], [self.m[1]])]
            self.lam_same = LaminateProperty([-50], [self.m[0]])
        else:
            self.lam = [LaminateProperty([30, -50], [self.m[0], self.iso[0]]), LaminateProperty([-65, 10], [self.m[1], self.m[0]])]
            self.lam_same = LaminateProperty([0, 50], [self.m[0], self.iso[0]])
        self.lp = [LaminateProperty({'xiA': [.1, -.2, .3, .05], 'xiD': [.2, .1, -.4, .15], 'T': 1.3}, self.m[0]),
                   LaminateProperty({'xiA': [-.3, .2, .1, .0], 'xiD': [-.5, .0, .2, -.1], 'T': 0.7}, self.m[1])]
        self.st = [LaminateStrength(self.lam[0], 10, -3, 4, .5, .2, -.1), LaminateStrength(self.lam[1], -7, 2, 5, .1, -.4, .3)]
        self.st_same = LaminateStrength(self.lam[0], -1, 8, 2, -.3, .6, .2)
        self.pl = [PlateStructure(self.lam[0], 2., 1.3, BC, -1., .3, .5, m=1, n=1),
                   PlateStructure(self.lam[1], .7, 1.9, 'CLAMPED', .2, -1., .1, m=1, n=1)]
        self.pl_same = PlateStructure(self.lam[0], 3., 1.1, 'PINNED', -2., 0., .5, m=1, n=1)
        self.pl_lp = PlateStructure(self.lp[0], 3., 1.1, 'PINNED', -2., 0., .5, m=1, n=1)


def margins(s):
    d = s.calculate_maxstressmargin()
    return plain(d[['margin_t1', 'margin_c1', 'margin_t2', 'margin_c2', 'margin_s']])


LAM = {k: (lambda o, k=k: getattr(o, k)) for k in ('z_position', 'Q_layup', 'T_layup', 'A', 'B', 'D', 'ABD', 'xiA', 'xiD')}
LPO = {k: LAM[k] for k in ('A', 'B', 'D', 'ABD', 'xiA', 'xiD') if k != 'B'}
MAT = {'Q_0': lambda o: o.Q_0, 'Invariants': lambda o: o.Invariants(), 'name': lambda o: o.name, 'repr': repr}
PLA = {'K_D': lambda o: o.calc_K_KG_D(), 'K_ABD': lambda o: o.calc_K_KG_ABD(), 'buckling': lambda o: o.buckling_analysis()[0]}
STR = {'epsilon0': lambda o: o.epsilon0(), 'strain': lambda o: o.calculate_strain(), 'stress': lambda o: o.calculate_stress(), 'margin': margins}


def call(table, op, pick):
    return lambda w: (lambda: plain(table[op](pick(w))))


def ops():
    """name -> (factory: world -> thunk).  Names are grouped: object . operation"""
    d = {}
    for i in (0, 1):
        for k in MAT:
            if not (k in ('name', 'repr')):
                d['m%d.%s' % (i, k)] = call(MAT, k, lambda w, i=i: w.m[i])
                d['iso%d.%s' % (i, k)] = call(MAT, k, lambda w, i=i: w.iso[i])
        for k in LAM:
            d['lam%d.%s' % (i, k)] = call(LAM, k, lambda w, i=i: w.lam[i])
        for k in LPO:
            d['lp%d.%s' % (i, k)] = call(LPO, k, lambda w, i=i: w.lp[i])
        for k in PLA:
            d['pl%d.%s' % (i, k)] = call(PLA, k, lambda w, i=i: w.pl[i])
        for k in STR:
            d['st%d.%s' % (i, k)] = call(STR, k, lambda w, i=i: w.st[i])
    for k in LAM:
        d['lams.%s' % k] = call(LAM, k, lambda w: w.lam_same)
    for k in PLA:
        d['pls.%s' % k] = call(PLA, k, lambda w: w.pl_same)
        d['pll.%s' % k] = call(PLA, k, lambda w: w.pl_lp)
    del d['pll.K_ABD']
    for k in STR:
        d['sts.%s' % k] = call(STR, k, lambda w: w.st_same)
    for i, s in enumerate(['[\\pm45_2/0_3/(90/-30)_2]s', '[10/(0/20)_3/\\pm30]']):
        d['seq%d' % i] = lambda w, s=s: (lambda: plain(pcomp_generator.build_sequence(s)))
    for i, (lay, mid, t) in enumerate([([10, 20, -30], 7, .2), ([0., 45., 90., 5.], 12, .125)]):
        d['card%d' % i] = lambda w, a=(lay, mid, t, i + 1): (lambda: plain(pcomp_generator.build_pcomp(a[0], a[1], a[2], pid=a[3])))
    d['max0'] = lambda w: (lambda: float(round(maximize_buckling_load(1.2, .8, 1., 129500, 9370, .38, 5240, Nxx=-1., m=1, n=1, options={'maxiter': 2}).fun, 8)))
    d['max1'] = lambda w: (lambda: float(round(maximize_buckling_load(.7, 1.5, 2., 39000, 8600, .28, 3800, Nyy=-1., m=1, n=1, penalty=False, options={'maxiter': 2}).fun, 8)))
    d['min0'] = lambda w: (lambda: float(round(minimize_panel_weight(1.2, .8, 129500, 9370, .38, 5240, Nxx=-1., m=1, n=1, options={'maxiter': 2}).x[0], 8)))
    d['min1'] = lambda w: (lambda: float(round(minimize_panel_weight(.7, 1.5, 39000, 8600, .28, 3800, Nyy=-.5, Nxx=.1, m=1, n=1, options={'maxiter': 2}).x[0], 8)))
    return d


OPS = ops()
_alone = {}


def alone(name, plies):
    if (name, plies) not in _alone:
        _alone[name, plies] = OPS[name](World(plies))()
    return _alone[name, plies]


# ------------------------------------------------------------------------------- one execution
def execute(names, segments, order, grain, plies, files=None):
    want = [alone(n, plies) for n in names]
    w = World(plies)
    r = sched.Run([OPS[n](w) for n in names], segments, order, grain, files)()
    for n, e in zip(names, r.err):
        if isinstance(e, Fail):
            raise e
        if e is not None:
            raise Fail('%s: %s: %s' % (n, type(e).__name__, e))
    for n, got, ref in zip(names, r.out, want):
        m = same(got, ref, n)
        if m:
            raise Fail('a thread gets another answer than alone: ' + m)
    for n, ref in zip(names, want):
        if not n.startswith(('max', 'min')):
            m = same(OPS[n](w)(), ref, n)
            if m:
                raise Fail('an answer after both threads ended: ' + m)
    return r


class Brief:
    """what the enumeration needs to know of a run that happened in another process"""

    def __init__(self, r):
        self.steps, self.total, self.switches, self.realised, self.short = r.steps, r.total, r.switches, r.realised, r.short


def cold(names, segments, order, grain, plies, files=None):
    """the same in a process in which the package has never been used"""
    for n in names:
        if (n, plies) not in _alone:
            _alone[n, plies] = in_child(lambda: OPS[n](World(plies))())
    return in_child(lambda: Brief(execute(names, segments, order, grain, plies, files)))


def creation(kinds, segments, order, grain):
    made = [None] * len(kinds)

    def make(i, k):
        def go():
            made[i] = OrthotropicMaterial(*O1) if k == 'o' else IsotropicMaterial(*I1)
            return made[i].name
        return go
    r = sched.Run([make(i, k) for i, k in enumerate(kinds)], segments, order, grain)()
    for e in r.err:
        if e is not None:
            raise e if isinstance(e, Fail) else Fail('%s: %s' % (type(e).__name__, e))
    for k in set(kinds):
        names = [n for n, q in zip(r.out, kinds) if q == k]
        if len(set(names)) != len(names):
            raise Fail('materials created in different threads share the default name %s' % names)
    for m, n in zip(made, r.out):
        if m.name != n:
            raise Fail('default name changed from %s to %s' % (n, m.name))
    return r


# ------------------------------------------------------------------------------- enumeration
def schedules(run, n, bound, rec, case):
    """every schedule with at most `bound` preemptions; `run(segments, order)` -> Run.  Stops a branch when the
    preemption is beyond the end of its thread."""
    def one(segments, order):
        box = {}

        def go():
            box['r'] = run(segments, order)
        c = dict(case, segments=segments, order=list(order))
        known = len(rec.fails)
        good = rec.run(c, go)
        if not good and len(rec.fails) > known:  # the same schedule must fail again
            if not rec.run(c, go):
                del rec.fails[known + 1:]
                rec.count('failures_reproduced')
            elif 'no progress' in rec.fails[known]['what']:  # a stalled machine
                del rec.fails[known:]
            # else: depends on what earlier schedules left behind in the process; the answer was wrong all the same
        r = box.get('r')
        rec.count('schedules')
        if r is not None:
            rec.step(r.total)
            rec.state(r.switches + 1)
            rec.outcome((tuple(case.get('ops') or case['create']), case['grain'], tuple(r.steps)))
        return good, r

    def grow(prefix):
        """extend by one more preemption"""
        last = prefix[-1][0] if prefix else None
        for t in range(n):
            if t == last:
                continue
            k = 1
            while not rec.full:
                seg = prefix + [[t, k]]
                stop = False
                for order in orders(t):
                    good, r = one(seg, order)
                    if r is None or not r.realised or r.short:
                        stop = True
                        break
                if stop:
                    break
                if len(seg) < bound:
                    grow(seg)
                k += 1

    def orders(last):
        return [o for o in itertools.permutations(range(n)) if o[0] != last]
    if rec.full:
        return
    for o in itertools.permutations(range(n)) if not case.get('cold') else ():
        try:  # the interpreter instruments a function for tracing when it is first traced
            run([], o)
        except Exception:
            pass
    for o in itertools.permutations(range(n)):
        good, r = one([], o)
        _, again = one([], o)
        if r is not None and again is not None:
            rec.count('replayed_twice')
            rec.count('replays_identical', int(r.steps == again.steps))
    if bound:
        grow([])


def pairs(tier):
    """(operations, grain, bound, plies, files)"""
    out = []
    two = tier == 'thorough'
    cwr = itertools.combinations_with_replacement

    def add(ops, grain, bound, plies=1, files=None):
        out.append((list(ops), grain, bound, plies, files))
    # one laminate
    for x, y in cwr(['lam0.%s' % k for k in LAM], 2):
        small = (x == y and 'ABD' not in x) or not ({x, y} - {'lam0.Q_layup', 'lam0.T_layup', 'lam0.A', 'lam0.D'})
        add((x, y), 'line', 2 if two or small else 1)
        add((x, y), 'call', 2)
        add((x, y), 'opcode', 1)
        if two or x == y:
            add((x, y), 'line', 1, 2)
            add((x, y), 'call', 2, 2)
    for x, y in cwr(['lp0.%s' % k for k in LPO], 2):
        small = 'ABD' not in (x + y)
        add((x, y), 'line', 2 if two or small else 1)
        add((x, y), 'call', 2)
        if two or small or x == y:
            add((x, y), 'opcode', 1)
    # one material
    for a in ('m0', 'iso0'):
        add((a + '.Q_0', a + '.Q_0'), 'opcode', 2)
        add((a + '.Q_0', a + '.Invariants'), 'opcode', 2 if two else 1)
        add((a + '.Invariants', a + '.Invariants'), 'opcode', 2 if two else 1)
        for k in ('Q_0', 'Invariants'):
            add((a + '.Q_0', a + '.' + k), 'line', 2)
    # one plate; the calls below it
    st = ['structure.py', 'property.py']
    for x, y in cwr(['pl0.%s' % k for k in PLA], 2):
        add((x, y), 'line', 1, 1, None if two else st)
        add((x, y), 'call', 2 if two or 'ABD' not in x + y else 1, 1, st)
        if two:
            add((x, y), 'opcode', 1, 1, st + ['build_k.py'])
            if 'ABD' not in x + y:
                add((x, y), 'line', 2, 1, st)
    # one strength object
    for x, y in cwr(['st0.%s' % k for k in STR], 2):
        if two or 'margin' not in x + y:
            add((x, y), 'line', 1)
        add((x, y), 'call', 2 if 'margin' not in x + y and (two or 'epsilon0' in x + y) else 1)
        if two and 'margin' not in x + y:
            add((x, y), 'opcode', 1)
    # objects above the same laminate, and laminates above the same material
    for x, y in [('pl0.K_D', 'pls.K_D'), ('pl0.buckling', 'pls.buckling'), ('pl0.K_ABD', 'pls.K_D'), ('pl0.K_D', 'lam0.ABD'), ('pl0.K_D', 'st0.stress'),
                 ('st0.stress', 'sts.strain'), ('st0.margin', 'sts.margin'), ('st0.stress', 'lam0.T_layup'), ('st0.strain', 'lam0.A'),
                 ('lam0.A', 'lams.A'), ('lam0.Q_layup', 'lams.D'), ('lam0.D', 'lp0.D'), ('lam0.Q_layup', 'm0.Q_0'), ('pll.K_D', 'pl0.K_D'), ('pll.K_D', 'lp0.ABD')]:
        f = (st + ['material.py']) if 'pl' in x else None
        if two or 'margin' not in x:
            add((x, y), 'line', 1, 1, f)
        if two:
            add((x, y), 'line', 1, 2, f)
        add((x, y), 'call', 2 if two else 1, 2)
    # separate objects: anything shared would have to be hidden in a class or a module
    for x, y in [('m0.Q_0', 'm1.Q_0'), ('iso0.Q_0', 'iso1.Q_0'), ('m0.Invariants', 'iso1.Invariants'), ('lam0.z_position', 'lam1.z_position'),
                 ('lam0.Q_layup', 'lam1.Q_layup'), ('lam0.T_layup', 'lam1.T_layup'), ('lam0.A', 'lam1.A'), ('lam0.B', 'lam1.B'), ('lam0.D', 'lam1.D'),
                 ('lam0.ABD', 'lam1.ABD'), ('lam0.xiA', 'lam1.xiA'), ('lam0.xiD', 'lam1.xiD'), ('lp0.A', 'lp1.A'), ('lp0.D', 'lp1.D'), ('lp0.ABD', 'lp1.ABD'),
                 ('lp0.D', 'lam1.D'), ('pl0.K_D', 'pl1.K_D'), ('pl0.K_ABD', 'pl1.K_ABD'), ('pl0.K_D', 'pl1.K_ABD'), ('pl0.buckling', 'pl1.buckling'),
                 ('st0.epsilon0', 'st1.epsilon0'), ('st0.strain', 'st1.strain'), ('st0.stress', 'st1.stress'), ('st0.margin', 'st1.margin'), ('st0.strain', 'st1.stress'),
                 ('seq0', 'seq1'), ('card0', 'card1'), ('seq0', 'card0')]:
        small = x[:2] in ('m0', 'is') or x[3:] in ('.A', '.D')
        add((x, y), 'call', 2 if 'pl' not in x and 'st' not in x else 1)
        if two or ('margin' not in x and 'K_ABD' not in y):
            add((x, y), 'line', 2 if small else 1)
        if two or not ('pl' in x or 'st' in x or 'seq' in x or 'ABD' in x):
            if 'margin' not in x:
                add((x, y), 'opcode', 1)
    opt = ['_maximize_buckling.py', '_minimize_panel_weight.py']
    for x, y in [('max0', 'max1'), ('min0', 'min1'), ('max0', 'min1')]:
        if two or x[:3] == y[:3]:
            add((x, y), 'call', 1, 1, opt + (['utils.py'] if two else []))
        if two:
            add((x, y), 'line', 1, 1, opt + ['utils.py'])
    # three threads
    for x in ('lam0.A', 'lam0.Q_layup', 'lp0.D', 'm0.Q_0', 'iso0.Q_0'):
        add((x, x, x), 'line', 2 if two else 1)
        add((x, x, x), 'call', 2)
    return out


def BOUNDS(tier):
    ps = pairs(tier)
    return {'thread_groups': len(ps), 'threads': [2, 3], 'preemptions': [1, 2], 
            'groups_by_grain_and_preemptions': {'%s/%d' % (g, b): sum(1 for p in ps if p[1] == g and p[2] == b)
                                                for g in ('line', 'opcode', 'call') for b in (1, 2)}}


def shards(tier):
    out = [{'ops': o, 'grain': g, 'bound': b, 'plies': p, 'files': f} for o, g, b, p, f in pairs(tier)]
    # first use in the process: tables built lazily
    fs = ['structure.py', 'property.py', 'functions.py', 'material.py', 'strength.py', 'pcomp_generator.py']
    for o in [('pl0.K_D', 'pl0.K_D'), ('pl0.K_D', 'pl1.K_D'), ('pl0.K_ABD', 'pl1.K_D'), ('pl0.buckling', 'pl1.buckling'), ('lam0.ABD', 'lam1.ABD'), ('lam0.Q_layup', 'lams.T_layup'),
              ('lp0.D', 'lp1.A'), ('m0.Q_0', 'm1.Q_0'), ('iso0.Invariants', 'm1.Invariants'), ('st0.stress', 'st1.stress'), ('st0.strain', 'st0.stress'), ('seq0', 'seq1')]:
        big = o[0][:2] in ('pl', 'st')
        out.append({'ops': list(o), 'grain': 'line' if tier != 'quick' or not big else 'call', 'bound': 1, 'plies': 1, 'files': fs, 'cold': True})
    for kinds in ('oo', 'ii', 'oi', 'ooo'):
        out.append({'create': kinds, 'grain': 'opcode', 'bound': 1 if len(kinds) == 3 or tier == 'quick' else 2})
        out.append({'create': kinds, 'grain': 'line', 'bound': 2 if tier == 'thorough' else 1})
    return out


def runner(s):
    if 'create' in s:
        return lambda seg, order: creation(s['create'], seg, order, s['grain'])
    how = cold if s.get('cold') else execute
    return lambda seg, order: how(s['ops'], seg, order, s['grain'], s['plies'], s['files'])


def explore(shard, rec):
    n = len(shard.get('ops') or shard['create'])
    schedules(runner(shard), n, shard['bound'], rec, shard)


def replay(case, rec):
    rec.run(case, lambda: runner(case)(case['segments'], case['order']) and None)
