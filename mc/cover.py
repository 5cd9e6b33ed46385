"""rows over a product of dimensions in which every combination of values of any t dimensions occurs
(a covering array, built greedily and without randomness; the claim is verified when it is built)"""
import itertools

_memo = {}


def cover(sizes, t=3):
    """list of index tuples"""
    key = (tuple(sizes), t)
    if key in _memo:
        return _memo[key]
    d = len(sizes)
    t = min(t, d)
    order = sorted(range(d), key=lambda i: -sizes[i])
    size = [sizes[i] for i in order]
    rows = [list(r) for r in itertools.product(*(range(s) for s in size[:t]))]
    for c in range(t, d):
        groups = list(itertools.combinations(range(c), t - 1))
        need = set()
        for g in groups:
            for vals in itertools.product(*(range(size[i]) for i in g)):
                for v in range(size[c]):
                    need.add((g, vals, v))
        use = [0] * size[c]
        for r in rows:
            proj = [(g, tuple(r[i] for i in g)) for g in groups]
            best, gain = None, -1
            for v in sorted(range(size[c]), key=lambda v: (use[v], v)):
                n = sum(p + (v,) in need for p in proj)
                if n > gain:
                    best, gain = v, n
            r.append(best)
            use[best] += 1
            need.difference_update(p + (best,) for p in proj)
        # rows for what is left, packed together
        extra = []
        for g, vals, v in sorted(need):
            if (g, vals, v) not in need:
                continue
            for e in extra:
                if e[c] == v and all(e[i] in (None, x) for i, x in zip(g, vals)):
                    break
            else:
                e = [None] * c + [v]
                extra.append(e)
            for i, x in zip(g, vals):
                e[i] = x
            for g2 in groups:
                if all(e[i] is not None for i in g2):
                    need.discard((g2, tuple(e[i] for i in g2), v))
        for k, e in enumerate(extra):
            rows.append([(k + j) % size[j] if x is None else x for j, x in enumerate(e)])
    for g in itertools.combinations(range(d), t):
        have = {tuple(r[i] for i in g) for r in rows}
        assert len(have) == _prod(size[i] for i in g)
    back = [order.index(i) for i in range(d)]
    _memo[key] = [tuple(r[i] for i in back) for r in rows]
    return _memo[key]


def _prod(it):
    p = 1
    for x in it:
        p *= x
    return p
