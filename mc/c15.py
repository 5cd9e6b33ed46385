r"""C15 stacking notation: every well-formed string up to a number of tokens over a small alphabet of
units, groups and marks; a reference reader of the grammar

    string := '[' item ('/' item)* ']' ['s']      item := unit | '(' unit ('/' unit)* ')_' count
    unit   := ['\pm'] angle ['_' count]           count := digits | '{' digits '}'

steps through the same tokens."""
import itertools

from mc.core import Fail

ID = 'C15'
# (text, meaning)
ANGLES = [('0', [0.]), ('45', [45.]), ('-30', [-30.]), ('22.5', [22.5]), ('90', [90.]), ('135', [135.]), ('-67.5', [-67.5]), ('7', [7.]), ('-5', [-5.]), ('101.25', [101.25]),
          ('+45', [45.]), ('.5', [.5]), ('45.', [45.]), ('-0.5', [-.5]), ('+7.5', [7.5]), ('015', [15.])]


def units(angles, counts):
    out = []
    for (t, v) in angles:
        out.append((t, v))
        for c, n in counts:
            out.append(('%s_%s' % (t, c), v * n))
        if t.startswith('+'):
            continue
        out.append(('\\pm' + t, [v[0], -v[0]]))
        for c, n in counts:
            out.append(('\\pm%s_%s' % (t, c), [v[0], -v[0]] * n))
    return out


C_SMALL = [('2', 2), ('{3}', 3)]
C_ALL = [('1', 1), ('2', 2), ('{1}', 1), ('{2}', 2), ('3', 3), ('{13}', 13), ('12', 12), ('10', 10), ('{20}', 20), ('100', 100)]
U_ALL = units(ANGLES, C_ALL)
C_LARGE = [('{137}', 137), ('256', 256), ('{1000}', 1000)]
U_SMALL = units([ANGLES[1], ANGLES[4]], C_SMALL)[:6] + [('-30', [-30.]), ('0_{2}', [0., 0.]), ('22.5', [22.5]), ('\\pm-67.5', [-67.5, 67.5])]
U_TINY = [('45', [45.]), ('\\pm30_2', [30., -30., 30., -30.]), ('0_2', [0., 0.])]


def groups(us, size, counts):
    out = []
    for n in range(1, size + 1):
        for w in itertools.product(us, repeat=n):
            body = '(' + '/'.join(t for t, _ in w) + ')'
            plies = list(itertools.chain.from_iterable(v for _, v in w))
            for c, k in counts:
                out.append(('%s_%s' % (body, c), plies * k))
    return out


SPACES = [('', ''), (' ', '  '), ('\t', '\n')]


def ITEMS(kind, tier):
    big = tier != 'quick'
    if kind == 'one':
        return (U_ALL + groups(U_SMALL, 3 if big else 2, C_ALL) + units(ANGLES, C_LARGE)[1:] + groups(U_SMALL, 1, C_LARGE)), 1
    if kind == 'two':
        return U_ALL + groups(U_TINY, 2, [('1', 1), ('{2}', 2)]), 2
    if kind == 'deep':
        return U_TINY + groups(U_TINY[:2], 2, [('2', 2)])[:4], 7 if big else 5
    return U_SMALL + groups(U_TINY, 2, C_SMALL)[::3], 4 if big else 3


def BOUNDS(tier):
    return {k: {'items': len(ITEMS(k, tier)[0]), 'length': ITEMS(k, tier)[1]} for k in ('one', 'two', 'deep', 'mix')} | {
        'blanks': {'items': len(gapped()), 'length': 3 if tier == 'quick' else 4,
                   'positions': 'none, every one, every two (length 1-2; all lengths when thorough), all'}}


def shards(tier):
    out = []
    for kind in ('one', 'two', 'deep', 'mix'):
        n = len(ITEMS(kind, tier)[0])
        for lo in range(0, n, max(1, n // 16)):
            out.append({'kind': kind, 'lo': lo, 'hi': min(n, lo + max(1, n // 16)), 'tier': tier})
    for n in range(1, 4 if tier == 'quick' else 5):
        out.append({'kind': 'blanks', 'n': n, 'tier': tier})
    return out


GAP = '~'  # a place where blanks may stand


def gapped():
    us = [('45', [45.]), ('-30_2', [-30., -30.]), ('\\pm~60', [60., -60.]), ('\\pm~15_{2}', [15., -15., 15., -15.])]
    out = list(us)
    for w in [us[:1], us[2:3], us[:2], us[1:3], us[2:], us[:3]]:
        plies = list(itertools.chain.from_iterable(v for _, v in w))
        out.append(('(~' + '~/~'.join(t for t, _ in w) + '~)_2', plies * 2))
    return out


def blanks(n, tier, rec):
    """strings of n items with blanks at one gap, at every two gaps, and everywhere"""
    for w in itertools.product(gapped(), repeat=n):
        if n == 3 and tier == 'quick' and any('(' in t for t, _ in w[1:]):
            continue
        if n == 4 and sum('(' in t for t, _ in w) != 1:
            continue
        text = '~[~' + '~/~'.join(t for t, _ in w) + '~]~'
        plies = list(itertools.chain.from_iterable(v for _, v in w))
        for mark in ('', 's'):
            parts = (text + mark + (GAP if mark else '')).split(GAP)
            gaps = range(len(parts) - 1)
            want = plies + plies[::-1] if mark else plies
            rec.state()
            rec.outcome(tuple(want))
            sets = [()] + [(g,) for g in gaps] + [tuple(gaps)]
            if n < 3 or tier != 'quick':
                sets += list(itertools.combinations(gaps, 2))
            for k, on in enumerate(sets):
                blank = ' ' if k % 4 else '  '
                s = parts[0] + ''.join((blank if g in on else '') + parts[g + 1] for g in gaps)
                rec.step()
                rec.run({'text': s, 'want': want}, lambda: one(s, want))
                if rec.full:
                    return


def one(text, want):
    from composipy.nastranapi import build_sequence
    got = build_sequence(text)
    if [float(x) for x in got] != want:
        raise Fail('%r gives %s, means %s' % (text, list(got)[:60], want[:60]))


def explore(shard, rec):
    if shard['kind'] == 'blanks':
        return blanks(shard['n'], shard['tier'], rec)
    items, depth = ITEMS(shard['kind'], shard['tier'])
    i = 0
    for head in items[shard['lo']:shard['hi']]:
        for n in range(depth):
            for w in itertools.product(items, repeat=n):
                body = [head] + list(w)
                inner = '/'.join(t for t, _ in body)
                plies = list(itertools.chain.from_iterable(v for _, v in body))
                rec.state()
                for mark, want in (('', plies), ('s', plies + plies[::-1]), ('S', plies + plies[::-1])):
                    if mark == 'S' and i % 3:
                        continue
                    pre, post = SPACES[i % 3] if n < 2 else ('', '')
                    text = pre + '[' + inner + ']' + mark + post
                    rec.step()
                    rec.outcome(tuple(want))
                    rec.run({'text': text, 'want': want}, lambda: one(text, want))
                    i += 1
                    if rec.full:
                        return


def replay(case, rec):
    rec.run(case, lambda: one(case['text'], case['want']))
