"""C19 input validation: every argument of every constructor x every value of an alphabet of unusable and
usable values, in every context of a set, and every pair of arguments; oracle: the reference rule table
(a real number inside its physical range, a whole number not below 1, matching lengths, required keys)."""
import itertools
import math

import numpy as np

from composipy import IsotropicMaterial, LaminateProperty, LaminateStrength, OrthotropicMaterial, PlateStructure

from mc.core import Fail

ID = 'C19'
ASSUMPTIONS = ['zero moduli, infinite values, booleans and numeric strings are not specified and not explored']


class Odd:
    pass


NOT_NUMBERS = {'none': None, 'text': 'abc', 'empty text': '', 'list': [], 'list of one': [1.], 'tuple': (2.,), 'dict': {}, 'set': {1},
               'object': Odd(), 'class': float, 'complex': 1 + 2j, 'real complex': complex(1, 0), 'array': np.array([1., 2.]), 'function': len, 'bytes': b'x',
               'nan': float('nan'), 'numpy nan': np.float64('nan'), 'nan text': 'nan'}
NEGATIVE = [-1, -1., -1e-300, -1e30, -5e-324, np.float64(-0.25), np.int64(-3), -math.inf]
POSITIVE = [1, 1.5, 1e-12, 1e30, 12345678.9, np.float64(3.25), np.float32(0.5), np.int64(7), np.int32(2)]
RATIO_OK = [-0.5, 0.5, 0, 0., -0.25, 0.3, np.float64(0.5), np.float32(-0.5), np.nextafter(0.5, 0), np.nextafter(-0.5, 0)]
RATIO_BAD = [0.51, -0.51, 1, -1, np.nextafter(0.5, 1), np.nextafter(-0.5, -1), math.inf, -math.inf, 1e30, np.float64(0.6)]
REAL = POSITIVE + [x for x in NEGATIVE if math.isfinite(x)] + [0, 0.]
COUNT_OK = [1, 2, 3, 1.0, 4.0, np.int64(2), np.int32(3), np.float64(5.)]
COUNT_BAD = [0, -1, -7, 0.0, 1.5, 2.0000001, 0.999999, -2.0, np.int64(0), np.float64(1.25), math.inf, -math.inf]

# rule -> (usable, unusable)
RULES = {'modulus': (POSITIVE, NEGATIVE), 'length': (POSITIVE, NEGATIVE), 'allowable': (POSITIVE + [0, 0.], NEGATIVE),
         'ratio': (RATIO_OK, RATIO_BAD), 'real': (REAL, []), 'count': (COUNT_OK, COUNT_BAD)}
O = dict(e1=129500., e2=9370, v12=.38, g12=5240., thickness=.2, t1=1500, c1=1200., t2=50., c2=250., s=70.)
I = dict(e=71000., v=.33, g=26692., thickness=.4, t=300., c=280., s=180.)
P = dict(a=300., b=200., Nxx=-1., Nyy=.5, Nxy=.25, m=2, n=3)
KINDS = {
    'ortho': (O, dict(e1='modulus', e2='modulus', v12='ratio', g12='modulus', thickness='length', t1='allowable', c1='allowable',
                      t2='allowable', c2='allowable', s='allowable')),
    'iso': (I, dict(e='modulus', v='ratio', g='modulus', thickness='length', t='allowable', c='allowable', s='allowable')),
    'plate': (P, dict(a='length', b='length', Nxx='real', Nyy='real', Nxy='real', m='count', n='count')),
}
REQUIRED = {'ortho': ['e1', 'e2', 'v12', 'g12', 'thickness'], 'iso': ['e', 'v', 'g', 'thickness'], 'plate': ['a', 'b']}
_lam = None


def lam():
    global _lam
    if _lam is None:
        _lam = LaminateProperty([0, 45], OrthotropicMaterial(**O))
    return _lam


CONTEXTS = ['all', 'required', 'positional']


def build(kind, args, context, touched):
    base, _ = KINDS[kind]
    if context == 'required':
        kw = {k: v for k, v in args.items() if k in REQUIRED[kind] or k in touched}
    else:
        kw = dict(args)
    if context == 'positional' and kind != 'plate':
        a, kw = list(kw.values()), {}
    elif context == 'positional':
        a = [kw.pop('a'), kw.pop('b'), 'PINNED'] + [kw.pop(k) for k in list(kw)]
    else:
        a = []
    if kind == 'ortho':
        return OrthotropicMaterial(*a, **kw), kw
    if kind == 'iso':
        return IsotropicMaterial(*a, **kw), kw
    return PlateStructure(lam(), *a, **kw), kw


def values(kind, p):
    """[(tag, value, usable)]"""
    ok, bad = RULES[KINDS[kind][1][p]]
    out = [('ok %d' % i, v, True) for i, v in enumerate(ok)]
    out += [('range %d' % i, v, False) for i, v in enumerate(bad)]
    out += [(k, v, False) for k, v in NOT_NUMBERS.items()]
    return out


def one(kind, picks, context):
    """picks: {argument: tag}"""
    args = dict(KINDS[kind][0])
    good = True
    for p, tag in picks.items():
        v, u = next((v, u) for t, v, u in values(kind, p) if t == tag)
        args[p] = v
        good = good and u
    try:
        obj, _ = build(kind, args, context, picks)
    except ValueError as exc:
        if good:
            raise Fail('%s refused: %s' % ({p: args[p] for p in picks}, exc))
        return None
    except Exception as exc:
        raise Fail('%s for %s: %s' % (type(exc).__name__, {p: args[p] for p in picks}, exc))
    if not good:
        raise Fail('%s(%s) was accepted' % (kind, {p: args[p] for p in picks}))
    for p in args:
        if context == 'required' and p not in REQUIRED[kind] and p not in picks:
            continue
        got = getattr(obj, p)
        want = int(args[p]) if KINDS[kind][1][p] == 'count' else float(args[p])
        if got != want or isinstance(got, (bool, str)):
            raise Fail('%s is %r after construction with %r' % (p, got, args[p]))
        if KINDS[kind][1][p] == 'count' and not isinstance(got, (int, np.integer)):
            raise Fail('%s is %r, not a whole number' % (p, got))
    return None


PROPERTY = {'none': None, 'text': 'laminate', 'class': LaminateProperty, 'list': [0, 45], 'array': np.eye(6), 'object': Odd(), 'dict': {'D': np.eye(3)}}


def wrong_property(tag, context):
    bad = PROPERTY.get(tag)
    if tag == 'material':
        bad = OrthotropicMaterial(**O)
    elif tag == 'strength':
        bad = LaminateStrength(lam())
    elif tag == 'plate':
        bad = PlateStructure(lam(), 1., 1.)
    elif tag == 'list of laminate':
        bad = [lam()]
    try:
        PlateStructure(bad, *([1., 1.] if context else [300, 200., 'CLAMPED', -1, 0, 0, 2, 2]))
    except ValueError:
        return None
    raise Fail('a plate was built with %s as its property' % tag)


def plies(n, k, form):
    m = OrthotropicMaterial(**O)
    seq, mats = [0, 45, 90, -45, 30, 60, 10, 20][:n], [m] * k
    if form == 'tuple':
        seq, mats = tuple(seq), tuple(mats)
    elif form == 'array':
        seq = np.array(seq)
    elif form == 'mixed':
        mats = [m if i % 2 else IsotropicMaterial(**I) for i in range(k)]
    try:
        l = LaminateProperty(seq, mats)
    except ValueError:
        if n == k:
            raise Fail('%d plies with %d materials refused' % (n, k))
        return None
    if n != k:
        raise Fail('%d angles were accepted with %d materials' % (n, k))
    if len(l.layup) != n:
        raise Fail('%d plies in the laminate' % len(l.layup))
    return None


def keys(names):
    full = {'xiA': [.1, .2, .3, .1], 'xiB': [0., 0., 0., 0.], 'xiD': [.2, .1, -.3, .0], 'T': 1.5}
    st = {k: full[k] for k in names}
    try:
        LaminateProperty(st, OrthotropicMaterial(**O))
    except KeyError:
        if 'xiD' in st and 'T' in st:
            raise Fail('keys %s refused' % names)
        return None
    if not ('xiD' in st and 'T' in st):
        raise Fail('lamination parameters with only %s were accepted' % names)
    return None


def pair_values(kind, p):
    """a smaller alphabet for pairs"""
    keep = ['ok 0', 'ok 1', 'ok 2', 'ok 3', 'range 0', 'range 2', 'range 5', 'none', 'text', 'list', 'nan', 'complex']
    have = [t for t, _, _ in values(kind, p)]
    return [t for t in keep if t in have]


def BOUNDS(tier):
    return {'constructors': list(KINDS), 'contexts': CONTEXTS, 'not_numbers': len(NOT_NUMBERS), 'arguments_at_once': 2 if tier == 'quick' else 3,
            'plies_by_materials': '0..6 x 0..6', 'key_sets': 16}


def shards(tier):
    out = [{'kind': k, 'arg': p} for k in KINDS for p in KINDS[k][1]]
    out += [{'kind': k, 'pair': [p, q]} for k in KINDS for p, q in itertools.combinations(KINDS[k][1], 2)]
    if tier != 'quick':
        out += [{'kind': k, 'pair': list(t)} for k in KINDS for t in itertools.combinations(KINDS[k][1], 3)]
    return out + [{'lam': 1}]


def explore(shard, rec):
    if 'arg' in shard:
        for tag, _, u in values(shard['kind'], shard['arg']):
            for c in CONTEXTS:
                if rec.full:
                    return
                rec.state()
                rec.step()
                rec.outcome((shard['kind'], shard['arg'], tag, u))
                case = {'kind': shard['kind'], 'picks': {shard['arg']: tag}, 'context': c}
                rec.run(case, lambda: one(shard['kind'], case['picks'], c))
    elif 'pair' in shard:
        k, ps = shard['kind'], shard['pair']
        for tags in itertools.product(*[pair_values(k, p) for p in ps]):
            if rec.full:
                return
            rec.state()
            rec.step()
            case = {'kind': k, 'picks': dict(zip(ps, tags)), 'context': 'all'}
            rec.run(case, lambda: one(k, case['picks'], 'all'))
    else:
        for case in extra():
            rec.state()
            rec.step()
            rec.run(case, lambda: EXTRA[case['do']](*case['args']))


EXTRA = {'property': wrong_property, 'plies': plies, 'keys': keys}


def extra():
    for tag in list(PROPERTY) + ['material', 'strength', 'plate', 'list of laminate']:
        for c in (0, 1):
            yield {'do': 'property', 'args': [tag, c]}
    for n, k, f in itertools.product(range(7), range(7), ['list', 'tuple', 'array', 'mixed']):
        if n or k:
            yield {'do': 'plies', 'args': [n, k, f]}
    for r in range(5):
        for names in itertools.combinations(['xiA', 'xiB', 'xiD', 'T'], r):
            yield {'do': 'keys', 'args': [list(names)]}


def replay(case, rec):
    if 'do' in case:
        rec.run(case, lambda: EXTRA[case['do']](*case['args']))
    else:
        rec.run(case, lambda: one(case['kind'], case['picks'], case['context']))
