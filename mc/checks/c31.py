"""C31: distances, cosines, similarity ranks and neighbours equal their definitions.

All matrices of up to 3 rows over small values incl. zero rows and ties, both axes, all metrics,
storages; all permutations of rows; all small symmetric matrices for ranks and neighbours.
"""
import itertools
import math

import numpy as np
import scipy.sparse as sp

from mc import env, mats

ID = 'C31'
LEVEL = 'model_checking'
ASSUMPTIONS = ['the cosine distance between a zero row and another row is 1 and their similarity 0',
               'ranks of equal values may be given in any order',
               'the order of neighbours with equal values is free']
BOUNDS = ('all 1x2..3x2 and 2x3 matrices over {0,1,-2} (thorough {0,1,2,-2}), float variants, x 7 metrics x 2 axes x '
          'storages; ranks and neighbours of all symmetric matrices of <=3 items over 4 off-diagonal values and of 4 '
          'items over 3, of 3 items with values that hardly differ, all neighbour counts, both directions; 12x11, 11x30 and 40x12 matrices; ranks of 11, 12 and 40 items with '
          'and without ties')
METRICS = ['cosine', 'cos', 'euclidean', 'cityblock', 'manhattan', 'l1', 'l2']
R, C = ['b', '\u00e9', 'a', 'c', 'w'] + ['w%d' % i for i in range(60)], ['x', 'b', 'y'] + ['w%d' % i for i in range(60, 0, -1)]
TOL = 1e-7


def norm(v):
    return math.sqrt(sum(x * x for x in v))


def cosine(u, v):
    if not norm(u) or not norm(v):
        return 0.0
    return sum(a * b for a, b in zip(u, v)) / (norm(u) * norm(v))


def dist(metric, u, v):
    if metric in ('cosine', 'cos'):
        return 0.0 if u == v and norm(u) else 1 - cosine(u, v)
    d = [abs(a - b) for a, b in zip(u, v)]
    return sum(d) if metric in ('cityblock', 'manhattan', 'l1') else math.sqrt(sum(x * x for x in d))


def near(x, y):
    return abs(x - y) <= TOL * max(1.0, abs(y))


def vectors(case):
    from nephosem.specutils import mxcalc
    n, m, pat, fmt = case['n'], case['m'], case['pat'], case['fmt']
    scale = case['scale']
    pat = [v * scale for v in pat]
    dense = fmt == 'dense'
    rows, cols = R[:n], C[:m]
    ref = mats.from_pattern(rows, cols, [v if dense else (v or None) for v in pat], dense)
    mx = mats.real(ref, fmt, int if scale == 1 else float)
    image = mats.snap(mx)
    for axis in (0, 1):
        items = rows if axis == 0 else cols
        vec = {x: [ref.val(x, c) if axis == 0 else ref.val(c, x) for c in (cols if axis == 0 else rows)] for x in items}
        for metric in ('sim',) + tuple(METRICS):
            got = mxcalc.compute_cosine(mx, axis=axis) if metric == 'sim' else \
                mxcalc.compute_distance(mx, axis=axis, metric=metric)
            if axis == 0 and metric == 'cosine':
                got2 = mxcalc.compute_distance(mx)
                if mats.arr(got2).tolist() != mats.arr(got).tolist():
                    return 'the defaults are not axis 0 and cosine'
            if list(got.row_items) != items or list(got.col_items) != items:
                return '%s: labels %r %r, expected %r' % (metric, got.row_items, got.col_items, items)
            for a, b in itertools.product(items, items):
                x = got[a, b]
                if metric == 'sim':
                    want = 1.0 if a == b else cosine(vec[a], vec[b])
                else:
                    want = 0.0 if a == b else dist(metric, vec[a], vec[b])
                tol = 1e-6 if metric in ('euclidean', 'l2') else TOL      # squared differences cancel
                if abs(x - want) > tol * max(1.0, abs(want)):
                    return '%s of %s and %s (axis %d) is %r, expected %r' % (metric, a, b, axis, x, want)
        if axis == 0 and not mats.arr(mxcalc.compute_cos(mx)).tolist() == mats.arr(mxcalc.compute_cosine(mx)).tolist():
            return 'compute_cos differs from compute_cosine'
    if mats.snap(mx) != image:
        return 'the matrix was changed'
    return None


def symmetric(n, vals, diag):
    a = [[diag] * n for _ in range(n)]
    for (i, j), v in zip(itertools.combinations(range(n), 2), vals):
        a[i][j] = a[j][i] = v
    return a


def ranks(case):
    from nephosem import TypeTokenMatrix as T
    from nephosem.specutils import mxcalc
    a = case['a']
    n = len(a)
    items = [R[i] for i in case['order']]
    m = T(np.array(a, dtype=float), list(items), list(items))
    image = mats.snap(m)
    for rev in (False, True):
        got = mxcalc.compute_simrank(m, reverse=rev)
        if list(got.row_items) != items or list(got.col_items) != items:
            return 'ranks: labels %r' % got.row_items
        g = mats.arr(got).tolist()
        for i in range(n):
            if sorted(g[i]) != list(range(1, n + 1)):
                return 'ranks of row %d are %r' % (i, g[i])
            for j, k in itertools.permutations(range(n), 2):
                before = a[i][j] < a[i][k] if rev else a[i][j] > a[i][k]
                if before and g[i][j] > g[i][k]:
                    return 'reverse=%r: values %r have ranks %r' % (rev, a[i], g[i])
    if mats.arr(mxcalc.compute_simrank(m)).tolist() != mats.arr(mxcalc.compute_simrank(m, reverse=False)).tolist():
        return 'the default is not reverse=False'
    for i in range(n):
        for desc in (False, True):
            for k in range(1, n + 2):
                got = m.most_similar(items[i], k=k, descending=desc)
                others = [x for x in items if x != items[i]]
                val = {x: a[i][items.index(x)] for x in others}
                want = sorted(val.values(), reverse=desc)[:k]
                if len(set(got)) != len(got) or any(x not in val for x in got):
                    return '%d neighbours of %s: %r' % (k, items[i], got)
                if [val[x] for x in got] != want:
                    return '%d neighbours (descending=%r) of %s: %r with values %r, expected %r' % (
                        k, desc, items[i], got, [val[x] for x in got], want)
        if n > 1 and len(m.most_similar(items[i])) != min(10, n - 1):
            return 'the default number of neighbours'
    if mats.snap(m) != image:
        return 'the matrix was changed'
    return None


def hugerank(case):
    """Ranks and neighbours of 300 items."""
    from nephosem import TypeTokenMatrix as T
    from nephosem.specutils import mxcalc
    n = case['n']
    i, j = np.meshgrid(np.arange(n), np.arange(n), indexing='ij')
    a = {'spread': ((i * j * 7919) % 100003) / 7., 'near': 0.5 + (i + j) * 1e-9, 'far': -(np.abs(i - j) ** 1.5)}[case['how']]
    a = (a + a.T) / 2
    items = ['w%d' % (x * 7 % n) for x in range(n)]
    m = T(a.copy(), items, items)
    for rev in (False, True):
        g = mats.arr(mxcalc.compute_simrank(m, reverse=rev))
        if not (np.sort(g, axis=1) == np.arange(1, n + 1)).all():
            return 'the ranks of some row are not 1 to %d' % n
        by = np.take_along_axis(a, np.argsort(g, axis=1), axis=1)
        d = np.diff(by, axis=1)
        if (d < 0).any() if rev else (d > 0).any():
            return 'reverse=%r: ranks do not follow the values' % rev
    for desc in (False, True):
        for x in (0, 1, n // 2, n - 1):
            for k in (1, 9, 10, 11, 255, 256, 257, n - 1, n):
                got = m.most_similar(items[x], k=k, descending=desc)
                at = [items.index(y) for y in got]
                want = sorted(np.delete(a[x], x), reverse=desc)[:k]
                if x in at or [a[x, y] for y in at] != want:
                    return '%d neighbours of %s (descending=%r): %r' % (k, items[x], desc, got)
    return None


def shards(tier):
    return [('vec', f, i, 4) for f in ('csr', 'csc', 'dense') for i in range(4)] + \
        [('large', f) for f in ('csr', 'csc', 'dense', 'unsorted', 'dups')] + [('hugerank', i) for i in range(3)] + [('largerank', i, 4) for i in range(4)] + [('rank', i, 4) for i in range(4)]


def cases(shard, tier):
    if shard[0] == 'hugerank':
        for n in (130, 260, 300):
            yield {'kind': 'huge', 'n': n, 'how': ('spread', 'near', 'far')[shard[1]]}
    elif shard[0] == 'large':
        for n, m in ((12, 11), (11, 30), (40, 12)):
            for p in range(4):
                pat = [[i % 7 - 2, i * i % 11, 0 if i % 5 else i + 1, (i // m) % 3 * ((i % m) % 4)][p] for i in range(n * m)]
                for scale in (1, 0.3):
                    yield {'kind': 'vec', 'n': n, 'm': m, 'pat': pat, 'fmt': shard[1], 'scale': scale}
    elif shard[0] == 'largerank':
        num = 0
        for n in (11, 12, 40):
            for p in range(4):
                vals = [[i * 0.5 for i in range(n * n)], [(i * 7919) % 1009 for i in range(n * n)], [i % 4 for i in range(n * n)],
                        [-i % 13 / 4.0 for i in range(n * n)]][p]
                for diag in (0, 1):
                    for order in (list(range(n)), list(range(n))[::-1], list(range(n // 2, n)) + list(range(n // 2))):
                        num += 1
                        if num % shard[2] == shard[1]:
                            yield {'kind': 'rank', 'a': symmetric(n, vals, diag), 'order': order}
    elif shard[0] == 'vec':
        _, f, i, k = shard
        vals = (0, 1, -2) if tier == 'quick' else (0, 1, 2, -2)
        num = 0
        for n, m in ((1, 2), (2, 1), (2, 2), (3, 2), (2, 3)):
            for pat in itertools.product(vals, repeat=n * m):
                for scale in (1, 0.3):
                    num += 1
                    if num % k != i or (f == 'csc' and n * m > 4) or (scale != 1 and n * m == 6 and tier == 'quick' and num % 3):
                        continue
                    yield {'kind': 'vec', 'n': n, 'm': m, 'pat': pat, 'fmt': f, 'scale': scale}
    else:
        _, i, k = shard
        num = 0
        for base, eps in ((0.9, 1e-9), (0.5, -1e-12), (-0.25, 2e-8), (1.0, 3e-16), (1e9, 1), (0.0, 5e-324), (1e-30, 1e-38), (0.1, 1e-5)):
            for v in itertools.product((base, base + eps, base + 2 * eps), repeat=3):       # hardly different values
                for diag in (0, 1):
                    num += 1
                    if num % k == i:
                        yield {'kind': 'rank', 'a': symmetric(3, v, diag), 'order': (0, 1, 2)}
        for n, vals in ((2, (0, 0.5, -1, 2)), (3, (0, 0.5, -1, 2)), (4, (0.25, -1, 3))):
            for v in itertools.product(vals, repeat=n * (n - 1) // 2):
                for diag in (0, 1):
                    for order in itertools.permutations(range(n)) if n < 4 or tier != 'quick' else [(0, 1, 2, 3), (2, 0, 3, 1)]:
                        num += 1
                        if num % k == i:
                            yield {'kind': 'rank', 'a': symmetric(n, v, diag), 'order': order}


RUN = {'vec': vectors, 'rank': ranks, 'huge': hugerank}


def run_shard(shard, ctx):
    env.load()
    for case in cases(shard, ctx.tier):
        ctx.ran()
        ctx.trans(16 if case['kind'] == 'vec' else 2 + 2 * len(case.get('a', ())))
        ctx.state(repr(case))
        ok, d = ctx.attempt(lambda: RUN[case['kind']](case), 'sim:' + case['kind'], case)
        if ok and d:
            ctx.fail('sim:' + case['kind'], '%s in %r' % (d, case), case)
        ctx.sample(case, 1)


def replay(case, ctx):
    env.load()
    ok, d = ctx.attempt(lambda: RUN[case['kind']](case), 'replay', case)
    if ok and d:
        ctx.fail('replay', d, case)
