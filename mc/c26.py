"""C26 the process around the package.  (a) every call, also one that refuses its arguments, leaves the settings of the process
(numpy, pandas, matplotlib, warnings, random state, directory, environment, streams, ...) as it found them: every call
under every setting, and every ordered pair of calls, with the whole of those settings compared before and
after.  (b) the answers are the same under every setting, those made by the running program and those made when
the interpreter starts (hash seed, optimisation, directory, locale, threads of the numeric library)."""
import contextlib
import decimal
import gc
import io
import itertools
import locale
import logging
import os
import pickle
import random
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import warnings

import numpy as np

from composipy import LaminateProperty, LaminateStrength, PlateStructure

from mc import core
from mc.c06 import Graph, in_child, ops, plain, same
from mc.core import Fail

ID = 'C26'
KINDS = ['list', 'single', 'lp']
FREE = {'display.precision'}  # changed on purpose by the strength tables


# ------------------------------------------------------------------------- calls
def refusals(start):
    """every refused and accepted single argument of the constructors (the universe of C19)"""
    from mc import c19
    n = 0
    for kind in c19.KINDS:
        for p in list(c19.KINDS[kind][1])[start::3]:
            for tag, _, _ in c19.values(kind, p):
                c19.one(kind, {p: tag}, 'all')
                n += 1
    if start == 0:
        for case in c19.extra():
            c19.EXTRA[case['do']](*case['args'])
            n += 1
    return n


def refused(f, *a, **kw):
    try:
        f(*a, **kw)
    except (ValueError, KeyError, TypeError, IndexError, np.linalg.LinAlgError) as exc:
        return type(exc).__name__
    return 'accepted'


def wrong(g):
    """calls that end in an error"""
    from composipy.nastranapi import build_pcomp, build_sequence
    P, S = PlateStructure, LaminateStrength
    zero = type(g.mat['o'])(1., 1., .3, 1., 0.)
    return [refused(build_pcomp, [0, 45], [1], .2), refused(build_pcomp, [0, 45], 1, [.2]), refused(build_pcomp, [0, 45], 1, .2, sout='MAYBE'),
            refused(build_sequence, '[0/x]'), refused(build_sequence, '[1_2_3]'),
            refused(P(g.lam, 1., 1., {'x0': 'clamped'}, m=1, n=1).calc_K_KG_D), refused(P(g.lam, 1., 1., 'CLAMPED', Nxx=-1., m=40, n=1).buckling_analysis),
            refused(S(LaminateProperty([0], zero), 1.).epsilon0), refused(S(LaminateProperty([0], zero), 1.).calculate_maxstressmargin),
            refused(P(LaminateProperty([0], zero), 1., 1., Nxx=-1., m=2, n=2).buckling_analysis)]


def ties(g):
    """answers that are a choice among equals: critical modes of plies without stress, edges listed as sets"""
    iso, orth = g.mat['i'], g.mat['o']
    bare = type(orth)(129500., 9370., .38, 5240., .2)
    out = [plain(LaminateStrength(LaminateProperty(w, m), *N).calculate_maxstressmargin()) for w, m, N in (
        ([0, 90], orth, ()), ([0, 90, 0], iso, ()), ([0], bare, ()), ([0], bare, (1., -1., 1.)), ([30, 0], [bare, iso], (1., 1., 0, 0, 0, 1.)))]
    e = {'TX', 'TY', 'TZ', 'RX', 'RZ'}
    p = PlateStructure(g.lam, 2., 1.3, {'x0': e, 'xa': frozenset(['TZ', 'RY']), 'y0': e - {'TX'}, 'yb': {'RZ', 'RX'}}, -1., .3, m=2, n=2)
    return out + [plain(p.calc_K_KG_ABD()), [g.lam == LaminateProperty([30, -50, 0, 90], orth), orth == bare, iso == orth]]


def surface(p):
    """the surface that is drawn, by a spy that touches no setting"""
    import matplotlib.pyplot as plt
    from mpl_toolkits.mplot3d import axes3d
    got = []
    old, show, have = axes3d.Axes3D.plot_surface, plt.show, set(plt.get_fignums())

    def spy(self, X, Y, Z, *a, **k):
        got.append(tuple(np.array(v, float) for v in (X, Y, Z)))
        return old(self, X, Y, Z, *a, **k)
    axes3d.Axes3D.plot_surface, plt.show = spy, lambda *a, **k: None
    try:
        p.plot_eigenvalue(ngridx=3, ngridy=4)
    finally:
        axes3d.Axes3D.plot_surface, plt.show = old, show
        for n in set(plt.get_fignums()) - have:
            plt.close(n)
    if len(got) != 1:
        raise Fail('%d surfaces drawn' % len(got))
    X, Y, Z = got[0]
    return [plain(X), plain(Y), plain(Z / Z.flat[np.argmax(np.abs(Z))])]


def best(which, **kw):
    import matplotlib.pyplot as plt
    from composipy import optimize
    have, show = set(plt.get_fignums()), plt.show
    plt.show = lambda *a, **k: None
    try:
        if which == 'min':
            r = optimize.minimize_panel_weight(1., 1.5, 129500., 9370., .38, 5240., m=2, n=2, **kw)
            return float(r.x[0])
        r = optimize.maximize_buckling_load(1., 1.5, 1., 129500., 9370., .38, 5240., m=2, n=2, **kw)
        return float(r.fun)
    finally:
        plt.show = show
        for n in set(plt.get_fignums()) - have:
            plt.close(n)


def calls(kind):
    o = {k: v for k, v in ops(kind).items() if k not in ('buckle1', 'other_plate')}
    if kind != 'single':
        o.pop('K_ABD')
    else:
        o['plot'] = lambda g: surface(g.plate)
        o['repr'] = lambda g: [repr(g.mat['o']), repr(g.mat['i']), repr(g.lam2)]
        o['wrong'] = wrong
        from composipy.nastranapi import build_pcomp, build_sequence
        o['ties'] = ties
        o['sequence'] = lambda g: build_sequence('[\\pm45_2/0/(30/90)_2/22.5]s')
        o['pcomp'] = lambda g: [build_pcomp([0, 45, -30.5], [1, 2, 3], .2), build_pcomp([0, 12.25], 7, [.1, .3], 8, -.25, 'YES')]
        o['maximise'] = lambda g: best('max', Nxx=-1., Nxy=.4)
        o['maximise natural'] = lambda g: best('max', Nxx=-1., Nyy=-.4, penalty=False)
        o['maximise plot'] = lambda g: best('max', Nyy=-1., plot=True, points_to_plot=4)
        o['minimise'] = lambda g: best('min', Nxx=-500., Nxy=200., x0=[10., 0., 0.])
        for i in range(3):
            o['refusals %d' % i] = lambda g, i=i: refusals(i)
        o['aloud'] = lambda g: plain(np.array(g.plate.buckling_analysis(silent=False)[0], float))
    return o


OPTIM = ('maximise', 'maximise natural', 'maximise plot', 'minimise')
NOISY = ('maximise plot', 'aloud')  # calls asked to report, or known to


def compare(got, want, what):
    op = what.split('.')[-1]
    if op in OPTIM:
        if abs(got - want) > 2e-3 * abs(want):
            raise Fail('%s: %s, %s expected' % (what, got, want))
        return
    m = same(got, want, what)
    if m:
        raise Fail(m)


# ------------------------------------------------------------------------- settings
def picture():
    """the settings of the process"""
    import matplotlib
    import pandas
    import pandas._config.config as pc
    import builtins

    def flat(d, pre=''):
        for k, v in d.items():
            if isinstance(v, dict):
                yield from flat(v, pre + k + '.')
            elif pre + k not in FREE:
                yield pre + k, repr(v)
    st = np.random.get_state()
    return {
        'numpy error handling': np.geterr(), 'numpy error call': repr(np.geterrcall()), 'numpy buffer size': np.getbufsize(),
        'numpy print options': {k: repr(v) for k, v in np.get_printoptions().items()},
        'numpy random state': (st[0], st[1].tobytes(), st[2:]), 'random state': random.getstate(),
        'pandas options': dict(flat(pc._global_config)),
        'matplotlib settings': {k: repr(v) for k, v in matplotlib.rcParams.items()}, 'matplotlib interactive': matplotlib.is_interactive(),
        'matplotlib backend': matplotlib.get_backend(),
        'warning filters': [repr(f) for f in warnings.filters], 'showwarning': repr(warnings.showwarning),
        'directory': cwd(), 'files in the directory': sorted(os.listdir('.')) if cwd() else None, 'environment': dict(os.environ),
        'sys.path': list(sys.path), 'sys.argv': list(sys.argv), 'recursion limit': sys.getrecursionlimit(), 'switch interval': sys.getswitchinterval(),
        'tracing': (repr(sys.gettrace()), repr(sys.getprofile())), 'hooks': (repr(sys.excepthook), repr(sys.displayhook), repr(threading.excepthook)),
        'streams': tuple(map(id, (sys.stdin, sys.stdout, sys.stderr))), 'signals': {s: repr(signal.getsignal(s)) for s in
                                                                                 (signal.SIGINT, signal.SIGTERM, signal.SIGFPE, signal.SIGUSR1, signal.SIGPIPE)},
        'locale': locale.setlocale(locale.LC_ALL), 'decimal': repr(decimal.getcontext()), 'threads': threading.active_count(),
        'collector': (gc.isenabled(), gc.get_threshold()), 'builtins': sorted(n for n in vars(builtins) if n != '_'),
        'logging': (logging.root.level, len(logging.root.handlers), logging.root.manager.disable), 'float display': repr(getattr(np, 'float_output', None)),
        'open figures': figures(),
        'dont write bytecode': sys.dont_write_bytecode, 'numpy errstate object': np.geterr()['divide'],
    }


def figures():
    """what the caller has drawn"""
    if 'matplotlib.pyplot' not in sys.modules:
        return {}
    import matplotlib.pyplot as plt
    from matplotlib._pylab_helpers import Gcf
    return {m.num: [id(m.canvas.figure), m.canvas.figure.get_label(), str(m.canvas.figure.get_size_inches()), m.canvas.figure._suptitle is None,
                    [[a.get_title(), a.get_xlabel(), str(a.get_position()), len(a.lines), len(a.collections), len(a.texts), a.get_xlim(), a.get_ylim()] for a in m.canvas.figure.axes]]
            for m in Gcf.get_all_fig_managers()} | {'current': plt.get_fignums() and Gcf.get_active().num}


def draw_own():
    import matplotlib.pyplot as plt
    f = plt.figure('mine')
    f.add_subplot().plot([1, 2], [3, 1])
    plt.title('mine')
    plt.figure(7).add_subplot(projection='3d')
    plt.figure('mine')


def cwd():
    try:
        return os.getcwd()
    except FileNotFoundError:
        return None


def differences(a, b):
    out = []
    for k in a:
        if a[k] != b[k]:
            if isinstance(a[k], dict) and isinstance(b[k], dict):
                out += ['%s: %s is %s, was %s' % (k, n, str(b[k].get(n))[:80], str(a[k].get(n))[:80]) for n in sorted(set(a[k]) | set(b[k]), key=str) if a[k].get(n) != b[k].get(n)][:3]
            else:
                out.append('%s: %s, was %s' % (k, str(b[k])[:120], str(a[k])[:120]))
    return '; '.join(out)


def gone():
    d = tempfile.mkdtemp(prefix='mcgone.')
    os.chdir(d)
    os.rmdir(d)


def rc(**kw):
    import matplotlib
    matplotlib.rcParams.update(kw)


def pandas_option(k, v):
    import pandas
    pandas.set_option(k, v)


def generators(s):
    np.random.seed(s)
    random.seed(s)


def interactive():
    import matplotlib.pyplot as plt
    plt.ion()


def digits():
    decimal.getcontext().prec = 3
    decimal.getcontext().rounding = decimal.ROUND_UP


SETTINGS = {
    'none': lambda: None,
    'numpy errors ignored': lambda: np.seterr(all='ignore'),
    'numpy errors warned': lambda: np.seterr(all='warn'),
    'numpy errors mixed': lambda: np.seterr(divide='ignore', over='warn', under='ignore', invalid='warn'),
    'numpy errors called': lambda: (np.seterrcall(lambda *a: None), np.seterr(all='call')),
    'numpy print': lambda: np.set_printoptions(precision=2, suppress=True, threshold=3, linewidth=30, floatmode='fixed', sign='+'),
    'pandas display': lambda: (pandas_option('display.precision', 9), pandas_option('display.max_rows', 2), pandas_option('display.width', 20)),
    'pandas chained': lambda: pandas_option('mode.chained_assignment', None),
    'pandas no numexpr': lambda: (pandas_option('compute.use_numexpr', False), pandas_option('compute.use_bottleneck', False)),
    'pandas strings': lambda: pandas_option('future.infer_string', False),
    'warnings ignored': lambda: warnings.simplefilter('ignore'),
    'warnings always': lambda: warnings.simplefilter('always'),
    'random 0': lambda: generators(0), 'random 7': lambda: generators(7),
    'decimal': digits,
    'locale': lambda: locale.setlocale(locale.LC_ALL, 'C.utf8'),
    'locale C': lambda: locale.setlocale(locale.LC_ALL, 'C'),
    'directory gone': gone,
    'recursion': lambda: sys.setrecursionlimit(4321),
    'collector off': gc.disable,
    'collector always': lambda: gc.set_threshold(1, 1, 1),
    'matplotlib grid': lambda: rc(**{'axes.grid': True, 'figure.figsize': (2., 3.), 'image.cmap': 'gray', 'lines.linewidth': 7., 'axes.unicode_minus': False}),
    'matplotlib interactive': interactive,
    'figures open': draw_own,
    'logging': lambda: logging.basicConfig(level=5, stream=io.StringIO()),
    'logging off': lambda: logging.disable(50),
    'other thread': lambda: None,
    'signals': lambda: signal.signal(signal.SIGUSR1, signal.SIG_IGN),
    'no standard input': lambda: setattr(sys, 'stdin', None),
    'environment': lambda: os.environ.update(OMP_NUM_THREADS='3', LANG='xx', TZ='Asia/Tokyo', COLUMNS='10', NO_COLOR='1', PYTHONWARNINGS='ignore'),
    'locked numpy print': lambda: np.set_printoptions(formatter={'float_kind': lambda v: 'f'}, nanstr='?', infstr='!'),
}
for _c in ('divide', 'over', 'under', 'invalid'):
    SETTINGS['numpy %s warned' % _c] = lambda _c=_c: np.seterr(**dict(dict.fromkeys(('divide', 'over', 'under', 'invalid'), 'ignore'), **{_c: 'warn'}))
STARTS = {'default': ([], {}), 'O': (['-O'], {}), 'OO': (['-OO'], {}), 'bytes': (['-b'], {}), 'dev': (['-X', 'dev'], {}), 'utf8': (['-X', 'utf8'], {}),
          'C locale': ([], {'LC_ALL': 'C', 'LANG': 'C'}), 'timezone': ([], {'TZ': 'Asia/Tokyo'}), 'svg': ([], {'MPLBACKEND': 'svg'}), 'pdf': ([], {'MPLBACKEND': 'pdf'}),
          'threads': ([], {'OPENBLAS_NUM_THREADS': '4', 'OMP_NUM_THREADS': '4'}), 'no home': ([], {'HOME': '/nonexistent'}), 'columns': ([], {'COLUMNS': '20'}),
          'no user site': (['-s'], {}), 'unbuffered': (['-u'], {}), 'ascii': ([], {'PYTHONIOENCODING': 'ascii'}), 'free float repr': ([], {'PYTHONFAULTHANDLER': '1'})}


def hash_seeds(tier):
    return list(range(1, 9 if tier == 'quick' else 65)) + [4294967295]


def warm():
    """what is loaded and set up once (fonts, lazily imported modules) before the first picture"""
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    from mpl_toolkits.mplot3d import axes3d
    import pandas
    import scipy.optimize
    import scipy.linalg
    f = plt.figure()
    f.add_subplot(projection='3d')
    f.clf()
    plt.contour([[1., 2.], [3., 4.]])
    plt.close('all')
    pandas.DataFrame({'a': [1., 2.]}).idxmin(axis=1)


def under(setting, fn):
    if setting == 'other thread':
        box = []

        def body():
            try:
                box.append(('ok', fn()))
            except BaseException as exc:
                box.append(('raise', exc))
        t = threading.Thread(target=body)
        t.start()
        t.join()
        if box[0][0] == 'raise':
            raise box[0][1]
        return box[0][1]
    return fn()


def watched(kind, hist, setting, tab):
    """the calls of hist one after another, the picture compared around each"""
    g = Graph(kind)
    O = calls(kind)
    what = ' under "%s"' % setting if setting != 'none' else ''

    def body():
        for i, op in enumerate(hist):
            out = io.StringIO()
            with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
                before = picture()
                got = O[op](g)
                d = differences(before, picture())
            if d:
                raise Fail('%s%s%s changed: %s' % (op, ' after %s' % (hist[:i],) if i else '', what, d))
            if out.getvalue() and op not in NOISY:
                raise Fail('%s%s prints %r' % (op, what, out.getvalue()[:100]))
            compare(got, tab[op], '%s%s.%s' % ('after %s' % (hist[:i],) if i else '', what, op))
    under(setting, body)


def scratch(setting):
    warm()
    d = tempfile.mkdtemp(prefix='mcdir.')
    os.chdir(d)
    SETTINGS[setting]()
    return d


def group(kind, hists, setting, tab):
    """all of hists in one process (each on its own objects)"""
    def body():
        d = scratch(setting)
        bad = []
        try:
            for h in hists:
                try:
                    watched(kind, h, setting, tab)
                except Fail as exc:
                    bad.append((h, str(exc)))
                except Exception as exc:
                    if not core._through_repo(exc.__traceback__) and isinstance(exc, core.OWN):
                        raise
                    bad.append((h, 'unexpected %s: %s' % (type(exc).__name__, exc)))
                if bad:
                    break
        finally:
            os.chdir('/')
            shutil.rmtree(d, ignore_errors=True)
        return bad
    return in_child(body)


def answers():
    warm()
    d = tempfile.mkdtemp(prefix='mcdir.')
    os.chdir(d)
    try:
        t = {}
        for k in KINDS:
            for op, f in calls(k).items():
                with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
                    t[k, op] = f(Graph(k))
        return t
    finally:
        os.chdir('/')
        shutil.rmtree(d, ignore_errors=True)


_tab = []


def expected():
    if not _tab:
        _tab.append(in_child(answers))
    return _tab[0]


IMPORTED = """
import sys
import numpy, scipy.linalg, scipy.optimize, pandas, matplotlib.pyplot
from mpl_toolkits.mplot3d import axes3d
from mc.c26 import picture, differences, warm
warm()
for n in [n for n in sys.modules if n.split('.')[0] == 'composipy']:
    del sys.modules[n]
numpy.seterr(all='call'); numpy.set_printoptions(precision=3); pandas.set_option('display.max_rows', 7)
a = picture()
import composipy, composipy.nastranapi, composipy.optimize, composipy.core.strength
d = differences(a, picture())
assert not d, d
"""


def start(flags, env, seed):
    e = dict(os.environ, PYTHONPATH=os.pathsep.join([os.path.abspath(core.REPO), core.ROOT]), PYTHONHASHSEED=str(seed), **env)
    d = tempfile.mkdtemp(prefix='mcstart.')
    try:
        r = subprocess.run([sys.executable, '-B', '-W', 'ignore'] + flags + ['-m', 'mc.c26', os.path.join(d, 'answers')], env=e, cwd=d, stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, timeout=300)
        try:
            with open(os.path.join(d, 'answers'), 'rb') as fh:
                return pickle.load(fh)
        except FileNotFoundError:
            raise core.HarnessError(r.stderr.decode()[-2000:])
    finally:
        shutil.rmtree(d, ignore_errors=True)


def one_start(name, seed):
    flags, env = STARTS[name]
    tag, got = start(flags, env, seed)
    what = 'interpreter started with "%s", hash seed %s' % (name, seed)
    if tag != 'ok':
        raise Fail('%s: %s' % (what, got))
    want = expected()
    for (k, op), v in want.items():
        compare(got[k, op], v, '%s, %s.%s' % (what, k, op))


def importing():
    d = tempfile.mkdtemp(prefix='mcstart.')
    e = dict(os.environ, PYTHONPATH=os.pathsep.join([os.path.abspath(core.REPO), core.ROOT]))
    try:
        r = subprocess.run([sys.executable, '-B', '-W', 'ignore', '-c', IMPORTED], env=e, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=300)
        err = r.stderr.decode()
        if r.returncode:
            if 'AssertionError' in err:
                raise Fail('importing the package changed ' + err.strip().splitlines()[-1])
            raise core.HarnessError(err[-2000:])
        if r.stdout:
            raise Fail('importing the package prints %r' % r.stdout[:100])
    finally:
        shutil.rmtree(d, ignore_errors=True)


# ------------------------------------------------------------------------- exploration
HEAVY = ('K_ABD', 'refusals 0', 'refusals 1', 'refusals 2', 'maximise plot', 'maximise natural', 'minimise', 'maximise')


def BOUNDS(tier):
    return {'settings': list(SETTINGS), 'starts': list(STARTS), 'hash_seeds': len(hash_seeds(tier)), 'calls': {k: list(calls(k)) for k in KINDS},
            'history_length': 2, 'histories_of_length_2': 'all under no setting' if tier == 'quick' else 'all under every setting', 'watched': list(picture())}


def shards(tier):
    out = [{'import': 1}]
    out += [{'start': n, 'seed': 0} for n in STARTS] + [{'start': 'default', 'seed': s} for s in hash_seeds(tier)]
    out += [{'start': n, 'seed': 5} for n in ('O', 'OO')]
    for s in SETTINGS:
        for k in KINDS:
            out.append({'kind': k, 'setting': s, 'len': 1})
            if s == 'none' or tier != 'quick':
                light = [o for o in calls(k) if o not in HEAVY or tier != 'quick' and s == 'none']
                out += [{'kind': k, 'setting': s, 'len': 2, 'first': o} for o in light]
    return out


def hists(shard):
    k = shard['kind']
    O = list(calls(k))
    if shard['len'] == 1:
        return [[o] for o in O]
    return [[shard['first'], o] for o in O if o not in HEAVY]


def prepare(tier):
    try:
        expected()
    except Exception:
        pass  # reported by the shards


def explore(shard, rec):
    if 'import' in shard:
        rec.state()
        rec.step()
        rec.run({'import': 1}, importing)
        return
    if 'start' in shard:
        rec.state()
        rec.step(len(expected()))
        rec.outcome(('start', shard['start'], shard['seed']))
        rec.run({'start': shard['start'], 'seed': shard['seed']}, lambda: one_start(shard['start'], shard['seed']))
        return
    k, s = shard['kind'], shard['setting']
    H = hists(shard)

    def go():
        tab = {op: v for (kk, op), v in expected().items() if kk == k}
        bad = group(k, H, s, tab)
        if bad:
            raise Fail('%s: %s' % (bad[0][0], bad[0][1]))
    rec.state(len(H))
    rec.step(sum(map(len, H)))
    for h in H:
        rec.outcome((k, s) + tuple(h))
    rec.run(shard, go)
    rec.count('settings_compared', sum(map(len, H)) * len(picture()))


def replay(case, rec):
    explore(case, rec)


if __name__ == '__main__':
    if not os.path.abspath(sys.modules['composipy'].__file__).startswith(os.path.join(os.path.abspath(core.REPO), '')):
        sys.exit('composipy was not imported from ' + core.REPO)
    try:
        res = ('ok', answers())
    except Fail as exc:
        res = ('fail', str(exc))
    except Exception as exc:
        if not core._through_repo(exc.__traceback__):
            raise
        res = ('raise', '%s: %s' % (type(exc).__name__, exc))
    with open(sys.argv[1], 'wb') as fh:
        pickle.dump(res, fh)
