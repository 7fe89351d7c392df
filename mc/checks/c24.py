"""C24: merging matrices adds values cell by cell over the union of labels.

All pairs of small matrices with label lists from a set of equal, permuted, overlapping, nested and
disjoint ones, all storages, integer and fractional values; all triples over a smaller set;
TypeTokenMatrix.merge, merge_two_matrices, merge_matrices, and the conversions between nested
dictionaries and sparse matrices.
"""
import itertools

import numpy as np
import scipy.sparse as sp

from mc import env, mats, wide
from mc.mats import EX, Ref

ID = 'C24'
LEVEL = 'model_checking'
ASSUMPTIONS = ['merging only matrices without any stored value raises ValueError (documented as empty input)',
               'merge_two_matrices with different row labels is not implemented and says so',
               'only sparse matrices are merged']
BOUNDS = ('all pairs of matrices from 7 row label lists x 6 column label lists x 5 fill patterns x 2 storages x '
          'int / fractional; all triples over 24 (thorough 60) matrices in any order; all nested dictionaries over 2x2 '
          'labels with values {absent, 0, 1, 0.5, -2}; 2, 3, 7, 11 and 12 matrices of 10 to 30 labels a side in several orders, '
          'with values beyond 2^31; wide matrices of 300 to 70 000 labels')
ROWL = [['b', 'a'], ['a', 'b'], ['a', 'c'], ['a'], ['d', 'c'], ['c', 'a', 'b'], ['\u00e9']]
COLL = [['y', 'x'], ['x', 'y'], ['x', 'z'], ['x'], ['w', 'v'], ['z', 'x', 'y']]
PATS = [lambda i, n: i + 1, lambda i, n: None if i % 2 else 3 + i, lambda i, n: EX if i == 0 else (7 if i == n - 1 else None),
        lambda i, n: None, lambda i, n: -1 if i == n - 1 else None]


def matrix(spec):
    r, c, p, fmt, dt = spec
    rows, cols = ROWL[r], COLL[c]
    n = len(rows) * len(cols)
    pat = [PATS[p](i, n) for i in range(n)]
    if dt == 'frac':
        pat = [v if v in (None, EX) else v + 0.5 for v in pat]
    elif dt == 'mixed':
        pat = [v if v in (None, EX) or i % 2 == 0 else v + 0.25 for i, v in enumerate(pat)]
    ref = mats.from_pattern(rows, cols, pat)
    return ref, mats.real(ref, fmt, int if dt == 'int' else float)


def union(refs):
    """Reference merge: sums over all cells; labels as sets."""
    cells, stored, rows, cols = {}, set(), [], []
    for r in refs:
        for k, v in r.cells.items():
            cells[k] = cells.get(k, 0) + v
        stored |= r.stored
        rows += [x for x in r.rows if x not in rows]
        cols += [x for x in r.cols if x not in cols]
    return Ref(rows, cols, cells, stored)


def compare(mx, rows, cols, want, exact_pattern=False):
    """Merged values under labels (label order is free, but each label once)."""
    if sorted(rows) != sorted(want.rows) or sorted(cols) != sorted(want.cols):
        return 'labels %r %r, expected %r %r' % (rows, cols, want.rows, want.cols)
    a = np.asarray(mx.toarray())
    if a.shape != (len(rows), len(cols)):
        return 'shape %r' % (a.shape,)
    for i, r in enumerate(rows):
        for j, c in enumerate(cols):
            if a[i, j] != want.val(r, c):
                return 'cell %s %s is %r, expected %r' % (r, c, a[i, j], want.val(r, c))
    return None


def pair(case):
    from nephosem.specutils import mxutils
    ra, a = matrix(case['a'])
    rb, b = matrix(case['b'])
    sa, sb = mats.snap(a), mats.snap(b)
    want = union([ra, rb])
    empty = not want.stored
    for name in ('merge', 'two', 'many'):
        try:
            if name == 'merge':
                m = a.merge(b)
                r, c, x = m.row_items, m.col_items, m.matrix
                for k in list(want.stored)[:2]:
                    if m[k[0], k[1]] != want.val(*k):
                        return 'merged matrix: lookup of %r gives %r' % (k, m[k[0], k[1]])
            elif name == 'two':
                m = mxutils.merge_two_matrices(a, b)
                r, c, x = m.row_items, m.col_items, m.matrix
            else:
                x, r, c = mxutils.merge_matrices([a, b])
        except ValueError as e:
            if empty:
                continue
            raise
        except NotImplementedError:
            if name == 'two' and ra.rows != rb.rows:
                continue
            raise
        e = compare(x, list(r), list(c), want)
        if e:
            return '%s: %s' % (name, e)
    if mats.snap(a) != sa or mats.snap(b) != sb:
        return 'an operand was changed'
    return None


def many(case):
    from nephosem.specutils import mxutils
    rm = [matrix(s) for s in case['m']]
    want = union([r for r, _ in rm])
    try:
        x, r, c = mxutils.merge_matrices([m for _, m in rm])
    except ValueError:
        if want.stored:
            raise
        return None
    e = compare(x, list(r), list(c), want)
    if e:
        return e
    if len(rm) == 3:
        m = rm[0][1]
        try:
            for _, o in rm[1:]:
                m = m.merge(o)
        except ValueError:
            if union([rm[0][0], rm[1][0]]).stored:
                raise
            return None
        return compare(m.matrix, m.row_items, m.col_items, want)
    return None


def dicts(case):
    from nephosem.specutils import mxutils
    rows, cols = case['rows'], case['cols']
    d = {}
    for (r, c), v in zip(itertools.product(rows, cols), case['vals']):
        if v is not None:
            d.setdefault(r, {})[c] = v
    if case.get('hollow'):
        d.setdefault(rows[-1], {})
    order = case['order']
    ro = list(rows) if order == 0 else sorted(rows) if order == 1 else list(rows)[::-1] + ['unused']
    co = list(cols) if order == 0 else ['unused'] + sorted(cols) if order == 1 else list(cols)[::-1]
    image = repr(d)
    vals = [v for v in case['vals'] if v is not None]
    try:
        m = mxutils.transform_dict_to_spmatrix(d, ro, co)
    except ValueError:
        return 'refused' if vals else None
    if repr(d) != image:
        return 'the dictionary was changed'
    if m.shape != (len(ro), len(co)) or m.nnz != len(vals):
        return 'shape %r, %d stored values' % (m.shape, m.nnz)
    a = m.toarray()
    for i, r in enumerate(ro):
        for j, c in enumerate(co):
            if a[i, j] != d.get(r, {}).get(c, 0):
                return 'cell %s %s is %r, expected %r' % (r, c, a[i, j], d.get(r, {}).get(c, 0))
    if all(isinstance(v, int) for v in vals) != (m.dtype.kind in 'iu'):
        return 'data type %s for %r' % (m.dtype, vals)
    for fmt in (m, m.tocsc(), m.tocoo()):
        back = mxutils.transform_spmatrix_to_dict(fmt, ro, co)
        w = {r: v for r, v in d.items() if v}
        if back != w:
            return 'back to a dictionary: %r, expected %r' % (back, w)
    if all(isinstance(v, (int, float)) and not isinstance(v, bool) for v in vals):
        c = m.tocoo()
        two = sp.coo_matrix((np.tile(c.data, 2), (np.tile(c.row, 2), np.tile(c.col, 2))), shape=c.shape)
        w = {r: {x: y + y for x, y in v.items()} for r, v in d.items() if v}
        for x in (two, sp.csr_matrix((np.repeat(m.data, 2), np.repeat(m.indices, 2), m.indptr * 2), shape=m.shape)):
            back = mxutils.transform_spmatrix_to_dict(x, ro, co)
            if back != w:
                return 'cells stored in two parts to a dictionary: %r, expected %r' % (back, w)
            if x.nnz != 2 * len(vals):
                return 'the matrix was changed'
    return None


LABELS = ['w%d' % i for i in range(40)] + ['w', '1', '10', '#', '*', '/', 'nan', '', 'w1/N', '\u00e9', '[0]', 'W1', ' w1']


def big(spec):
    """A matrix of many labels: spec is (number, size, storage, values)."""
    k, size, fmt, vals = spec
    n = len(LABELS)
    rows = [LABELS[(k * 5 + i * 7) % n] for i in range(size)]
    cols = [LABELS[(k * 3 + i * 11 + 1) % n] for i in range(size + k % 3)]
    if k % 4 == 3:
        rows, cols = sorted(rows), sorted(cols, reverse=True)
    f = {'int': lambda i: i % 100 + 1, 'huge': lambda i: 2 ** 31 - 1 - i % 3, 'neg': lambda i: i % 9 - 4,
         'frac': lambda i: i % 8 / 4.0}[vals]
    pat = [f(i * 13 + k) if (i * (k + 3)) % 7 < 3 else None for i in range(len(rows) * len(cols))]
    ref = mats.from_pattern(rows, cols, pat)
    return ref, mats.real(ref, fmt, np.int64 if vals in ('int', 'huge', 'neg') else float)


def large(case):
    from nephosem.specutils import mxutils
    rm = [big(s) for s in case['m']]
    images = [mats.snap(m) for _, m in rm]
    want = union([r for r, _ in rm])
    x, r, c = mxutils.merge_matrices([m for _, m in rm])
    e = compare(x, list(r), list(c), want)
    if e:
        return 'merge_matrices: ' + e
    m = rm[0][1]
    for _, o in rm[1:]:
        m = m.merge(o)
    e = compare(m.matrix, list(m.row_items), list(m.col_items), want)
    if e:
        return 'merge: ' + e
    for k in sorted(want.stored)[::5]:
        if m[k[0], k[1]] != want.val(*k):
            return 'lookup of %r in the merged matrix gives %r' % (k, m[k[0], k[1]])
    a = rm[0][0]
    same = [(a, rm[0][1])] + [(mats.Ref(a.rows, s.cols, {(p, q): s.val(t, q) for p, t in zip(a.rows, s.rows) for q in s.cols}),
                               None) for s, _ in rm[1:2]]
    if len(same) == 2 and len(same[1][0].rows) == len(rm[1][0].rows):
        from nephosem import TypeTokenMatrix
        o = TypeTokenMatrix(rm[1][1].matrix.copy(), list(a.rows), list(rm[1][0].cols))
        m = mxutils.merge_two_matrices(rm[0][1], o)
        e = compare(m.matrix, list(m.row_items), list(m.col_items), union([a, same[1][0]]))
        if e:
            return 'merge_two_matrices: ' + e
    d = {}
    for (p, q) in a.stored:
        d.setdefault(p, {})[q] = a.val(p, q)
    m = mxutils.transform_dict_to_spmatrix(d, a.rows, a.cols)
    if m.toarray().tolist() != a.array():
        return 'dictionary to matrix'
    if mxutils.transform_spmatrix_to_dict(m, a.rows, a.cols) != d:
        return 'matrix to dictionary'
    if [mats.snap(m) for _, m in rm] != images:
        return 'an operand was changed'
    return None


def near(case):
    """Matrices of which the labels are hardly different: one replaced, or two exchanged."""
    from nephosem import TypeTokenMatrix
    from nephosem.specutils import mxutils
    n, ax, how, p = case['n'], case['ax'], case['how'], case['p']
    base, oth = LABELS[:n], LABELS[::-1][:n - 1]
    l = list(base)
    if how == 'new':
        l[p] = 'new'
    else:
        q = (p + (1 if how == 'swap' else n // 2)) % n
        l[p], l[q] = l[q], l[p]
    ms, refs = [], []
    for k, lab in enumerate([base, l, base][:case['count']]):
        rows, cols = (lab, oth) if ax == 0 else (oth, lab)
        ref = mats.from_pattern(rows, cols, [(i * (k + 2) % 11) or None for i in range(len(rows) * len(cols))])
        refs.append(ref)
        ms.append(mats.real(ref, 'csr', int))
    want = union(refs)
    x, r, c = mxutils.merge_matrices(ms)
    e = compare(x, list(r), list(c), want)
    if e:
        return 'merge_matrices: ' + e
    for a, b in ((0, 1), (1, 0)):
        want = union([refs[a], refs[b]])
        m = ms[a].merge(ms[b])
        e = compare(m.matrix, list(m.row_items), list(m.col_items), want)
        if e:
            return 'merge: ' + e
        try:
            m = mxutils.merge_two_matrices(ms[a], ms[b])
        except NotImplementedError:
            if ax == 1:
                raise
            continue
        e = compare(m.matrix, list(m.row_items), list(m.col_items), want)
        if e:
            return 'merge_two_matrices: ' + e
    return None


def specs(rs, cs, ps, fs, ds):
    return list(itertools.product(range(len(ROWL)) if rs is None else rs, range(len(COLL)) if cs is None else cs,
                                  ps, fs, ds))


def shards(tier):
    k = 32
    return [('wide', i) for i in range(8)] + [('pairs', i, k) for i in range(k)] + [('many', i, k) for i in range(k)] + [('dicts', i, 4) for i in range(4)] + \
        [('large', i, 4) for i in range(4)] + [('near', i, 4) for i in range(4)]


def cases(shard, tier):
    kind, i, k = shard
    if kind == 'large':
        num = 0
        for count in (2, 3, 7, 11, 12):
            for size in (10, 13, 30):
                for vals in ('int', 'huge', 'neg', 'frac'):
                    for fmt in ('csr', 'csc', 'unsorted', 'dups'):
                        for order in range(3):
                            num += 1
                            if num % k == i:
                                l = [(j, size, fmt, vals) for j in range(count)]
                                yield {'kind': 'large', 'm': [l, l[::-1], l[count // 2:] + l[:count // 2]][order]}
    elif kind == 'near':
        num = 0
        for n in (3, 9, 12, 20):
            for ax, how, p, count in itertools.product((0, 1), ('new', 'swap', 'far'), range(n), (2, 3)):
                num += 1
                if num % k == i:
                    yield {'kind': 'near', 'n': n, 'ax': ax, 'how': how, 'p': p, 'count': count}
    elif kind == 'pairs':
        left = specs(None, None, range(5), ('csr',), ('int',)) + specs((0, 1, 5), (0, 5), (0, 1), ('csc', 'dups'), ('mixed',))
        if tier == 'quick':
            left = left[::2]
        right = specs(None, None, (0, 2, 3), ('csr',), ('frac',)) + specs((0, 2), None, (1, 4), ('csr', 'coodups'), ('int',))
        for n, (a, b) in enumerate(itertools.product(left, right)):
            if n % k == i:
                yield {'kind': 'pair', 'a': a, 'b': b}
    elif kind == 'many':
        s = specs((0, 1, 2, 4), (0, 2, 3), (0, 1), ('csr',), ('int',))
        if tier != 'quick':
            s += specs((0, 3, 5), (1, 5), (2, 3, 4), ('csc', 'csr'), ('mixed',))
        n = 0
        for r in (1, 3):
            for t in itertools.product(s, repeat=r):
                n += 1
                if n % k == i:
                    yield {'kind': 'many', 'm': t}
        base = specs((0, 2), (0, 4), (0, 1), ('csr',), ('int',))[:5]
        for t in itertools.permutations(base, 4):
            n += 1
            if n % k == i:
                yield {'kind': 'many', 'm': t}
    else:
        n = 0
        for rows, cols in ((['b', 'a'], ['y', 'x']), (['a', 'b'], ['x', 'a'])):
            for vals in itertools.product((None, 0, 1, 0.5, -2), repeat=4):
                for order in range(3):
                    for hollow in (False, True):
                        n += 1
                        if n % k == i:
                            yield {'kind': 'dicts', 'rows': rows, 'cols': cols, 'vals': vals, 'order': order, 'hollow': hollow}


RUN = {'large': large, 'near': near, 'pair': pair, 'many': many, 'dicts': dicts}


def run_shard(shard, ctx):
    env.load()
    if shard[0] == 'wide':
        wide.run(ctx, wide.merging, 'wide', list(wide.cases())[shard[1]::8])
        return
    for case in cases(shard, ctx.tier):
        ctx.ran()
        ctx.trans(3)
        ctx.state(repr(case))
        ok, d = ctx.attempt(lambda: RUN[case['kind']](case), 'merge:' + case['kind'], case)
        if ok and d:
            ctx.fail('merge:' + case['kind'], '%s in %r' % (d, case), case)
        ctx.sample(case, 1)


def replay(case, ctx):
    env.load()
    if 'wide' in case:
        wide.replay(ctx, wide.merging, case)
        return
    ok, d = ctx.attempt(lambda: RUN[case['kind']](case), 'replay', case)
    if ok and d:
        ctx.fail('replay', d, case)
