"""C16 PCOMP card: every laminate size and every form of the arguments up to a bound; the text is read
back by a reference reader of NASTRAN free-field bulk data (10 fields per line, continuation in field 10
of the parent and field 1 of the child) and must describe exactly the plies given."""
import copy
import itertools

import numpy as np

from mc.core import Fail

ID = 'C16'
SIZES = {'quick': list(range(1, 13)) + [17, 24, 33, 64, 101], 'thorough': list(range(1, 41)) + [64, 99, 100, 101, 200, 1001]}
DATA = ['different', 'equal', 'pairs', 'mirrored', 'extreme', 'distinct']
PIDS = [1, 77, 1000001]
Z0 = ['', -0.4, 0, 1.25]
TFORM = ['scalar', 'list', 'tuple', 'ndarray']
MFORM = ['scalar', 'list', 'tuple', 'ndarray']
SFORM = ['default', 'FIBER', 'YES', 'NO', 'list', 'tuple']
SEQ = ['list', 'tuple', 'ndarray']


def BOUNDS(tier):
    return {'plies': SIZES[tier], 'ply_data': DATA, 'material_forms': MFORM, 'thickness_forms': TFORM, 'output_forms': SFORM,
            'sequence_forms': SEQ, 'property_ids': PIDS, 'offsets': Z0}


def read_card(text):
    """-> pid, z0, [(mid, t, theta, sout)]"""
    lines = [l for l in text.split('\n') if l.strip()]
    rows = []
    for i, line in enumerate(lines):
        f = [x.strip() for x in line.split(',')]
        if len(f) > 10:
            raise Fail('line %r has %d fields' % (line, len(f)))
        mark = f[9] if len(f) == 10 else ''
        if i and not (f[0] == '' or f[0][0] == '+'):
            raise Fail('line %r does not continue the card' % line)
        if i:
            up = rows[-1][1]
            if up != f[0]:
                raise Fail('continuation %r does not match %r' % (f[0], up))
        if mark and mark[0] != '+':
            raise Fail('field 10 of %r is not a continuation mark' % line)
        data = (f[1:9] + [''] * 8)[:8]
        for x in data:
            if '+' in x and not x.replace('+', '').replace('.', '').replace('e', '').isdigit():
                raise Fail('field %r of line %r' % (x, line))
        rows.append((data, mark))
    if lines[0].split(',')[0].strip() != 'PCOMP':
        raise Fail('card name %r' % lines[0])
    head = rows[0][0]
    if any(head[2:]):
        raise Fail('header fields %s are set' % head)
    plies = []
    for data, _ in rows[1:]:
        for q in (data[:4], data[4:]):
            if any(q):
                plies.append(q)
            elif data is not rows[-1][0] or q is data[:4]:
                raise Fail('a ply is missing in %s' % data)
    return head[0], head[1], plies


def num(x):
    return x if isinstance(x, str) else float(x)


def make(n, sf, mf, tf, of, data):
    angles = [[0, 45, -45, 90, 22.5, -30.0][(i * 5 + n) % 6] for i in range(n)]
    mids = [11 + (i * 3) % 7 for i in range(n)]
    ts = [0.125 + 0.05 * (i % 4) for i in range(n)]
    so = ['YES' if (i * i + n) % 3 == 0 else 'NO' for i in range(n)]
    if data == 'equal':
        angles, mids, ts, so = ([v[0]] * n for v in (angles, mids, ts, so))
    elif data == 'pairs':
        angles, mids, ts, so = ([v[i // 2] for i in range(n)] for v in (angles, mids, ts, so))
    elif data == 'mirrored':
        angles, mids, ts, so = ([v[min(i, n - 1 - i)] for i in range(n)] for v in (angles, mids, ts, so))
    elif data == 'extreme':
        angles = [[-179.123456789, 1e-05, 360, -90.0, 123456.789][(i + n) % 5] for i in range(n)]
        mids = [[99999999, 1, 10 ** 6, 12345678][(i * 3 + n) % 4] for i in range(n)]
        ts = [[1e-05, 0.123456789012, 25.0, 1e3, 2e-07][(i * 2 + n) % 5] for i in range(n)]
    elif data == 'distinct':
        angles, mids, ts = [1.25 * i - 70 for i in range(n)], [1001 + i for i in range(n)], [0.1 + i / 1000 for i in range(n)]
    conv = {'list': list, 'tuple': tuple, 'ndarray': np.array}
    seq = conv[sf](angles)
    midi, wm = (7, [7] * n) if mf == 'scalar' else (conv[mf](mids), mids)
    ti, wt = (0.2, [0.2] * n) if tf == 'scalar' else (conv[tf](ts), ts)
    if of in ('default', 'FIBER'):
        sout, wo = of, ['YES' if i in (0, n - 1) else 'NO' for i in range(n)]
    elif of in ('YES', 'NO'):
        sout, wo = of, [of] * n
    else:
        sout, wo = conv[of](so), so
    return seq, midi, ti, sout, angles, wm, wt, wo


def one(n, sf, mf, tf, of, data, pid, z0):
    from composipy.nastranapi import build_pcomp
    seq, midi, ti, sout, angles, wm, wt, wo = make(n, sf, mf, tf, of, data)
    kw = {}
    if of != 'default':
        kw['sout'] = sout
    if pid != 1:
        kw['pid'] = pid
    if z0 != '':
        kw['z0'] = z0
    before = copy.deepcopy((seq, midi, ti, sout))
    text = build_pcomp(seq, midi, ti, **kw)
    if repr(before) != repr((seq, midi, ti, sout)):
        raise Fail('arguments were changed')
    p, z, plies = read_card(text)
    if int(p) != pid:
        raise Fail('property id %s instead of %s' % (p, pid))
    if (z == '') != (z0 == '') or (z != '' and float(z) != z0):
        raise Fail('offset %r instead of %r' % (z, z0))
    want = list(zip(map(float, wm), map(float, wt), map(float, angles), wo))
    got = [(float(a), float(b), float(c), d) for a, b, c, d in plies]
    if got != want:
        raise Fail('card describes %s, plies are %s' % (got[:10], want[:10]))


def mismatch(n, k, what):
    """per-ply lists of the wrong length are refused"""
    from composipy.nastranapi import build_pcomp
    seq = [45] * n
    kw = dict(midi=1, ti=0.2)
    kw[what] = {'midi': [1] * k, 'ti': [0.1] * k, 'sout': ['YES'] * k}[what]
    try:
        build_pcomp(seq, **kw)
    except ValueError:
        return None
    return '%d values of %s accepted for %d plies' % (k, what, n)


def shards(tier):
    return [{'n': n} for n in SIZES[tier][::-1]] + [{'n': 0}]


def explore(shard, rec):
    n = shard['n']
    if n == 0:
        for what in ('midi', 'ti', 'sout'):
            for a, k in itertools.product(range(1, 7), range(0, 8)):
                if a != k:
                    rec.state()
                    rec.step()
                    rec.run({'mismatch': [a, k, what]}, lambda: mismatch(a, k, what))
        return
    for i, c in enumerate(itertools.product(SEQ, MFORM, TFORM, SFORM, DATA if n < 13 else DATA[n % 3::3])):
        for pid, z0 in ((PIDS[i % 3], Z0[i % 4]), (PIDS[(i + 1) % 3], Z0[(i // 3) % 4])):
            if rec.full:
                return
            rec.state()
            rec.step(n)
            rec.outcome((n, c[3], pid))
            rec.run({'c': [n, *c, pid, z0]}, lambda: one(n, *c, pid, z0))


def replay(case, rec):
    if 'c' in case:
        rec.run(case, lambda: one(*case['c']))
    else:
        rec.run(case, lambda: mismatch(*case['mismatch']))
