"""Matrices with 200, 300, 40000 and 70000 labels on one side: label numbers, counts and sums of every width."""
import operator
import os

import numpy as np
import scipy.sparse as sp

SHORT = ['b', 'a', '\u00e9']
FMTS = ('csr', 'csc', 'unsorted', 'dups')


N = MARKS = LONG = CELLS = None


def size(n):
    """Make matrices with n labels on the long side from now on."""
    global N, MARKS, LONG, CELLS
    if N != n:
        N = n
        MARKS = sorted({i for i in (0, 1, 127, 128, 255, 256, 32767, 32768, 65534, 65535, 65536, 65537, n - 2, n - 1) if i < n})
        LONG = ['w%d' % (i * 37 % n) for i in range(n)]
        CELLS = {}


size(70000)


def cells(full):
    """{(short label, long label): value}: the second short label has a value everywhere, if full."""
    if full not in CELLS:
        d = {}
        for k, i in enumerate(MARKS):
            d[SHORT[0], LONG[i]] = k + 1
            if k % 2:
                d[SHORT[2], LONG[i]] = -k
        if full:
            for i, l in enumerate(LONG):
                d[SHORT[1], l] = i % 200 + 100
        CELLS[full] = d
    return dict(CELLS[full])


def make(tall, full, fmt, dtype=int, keep=None):
    """A labelled matrix, its rows, columns and cells."""
    from nephosem import TypeTokenMatrix
    long_ = LONG if keep is None else keep
    rows, cols = (list(long_), list(SHORT)) if tall else (list(SHORT), list(long_))
    ok = None if keep is None else set(keep)
    d = {((l, s) if tall else (s, l)): v for (s, l), v in cells(full).items() if ok is None or l in ok}
    ri, ci = {r: i for i, r in enumerate(rows)}, {c: i for i, c in enumerate(cols)}
    t = sorted((ri[r], ci[c] if fmt != 'unsorted' else -ci[c], v) for (r, c), v in d.items())
    i = np.array([x[0] for x in t], dtype=int)
    j = np.abs(np.array([x[1] for x in t], dtype=int))
    v = np.array([x[2] for x in t], dtype=dtype)
    shape = (len(rows), len(cols))
    if fmt == 'dups':
        i, j, v = np.repeat(i, 2), np.repeat(j, 2), np.column_stack((v - v // 2, v // 2)).ravel()
    if fmt in ('unsorted', 'dups'):
        m = sp.csr_matrix((v, j, np.searchsorted(i, range(shape[0] + 1))), shape=shape)
    else:
        m = sp.coo_matrix((v, (i, j)), shape=shape).asformat(fmt)
    return TypeTokenMatrix(m, rows, cols), rows, cols, d


def got(m):
    """The non-zero cells of a labelled matrix."""
    x = m.matrix
    if not sp.issparse(x):
        x = sp.coo_matrix(x)
    c = x.tocsr().tocoo()
    R, C = m.row_items, m.col_items
    return {(R[i], C[j]): v for i, j, v in zip(c.row.tolist(), c.col.tolist(), c.data.tolist()) if v != 0}


def same(what, m, rows, cols, d):
    if list(m.row_items) != list(rows) or list(m.col_items) != list(cols) or tuple(m.shape) != (len(rows), len(cols)):
        return '%s: other labels or shape' % what
    g = got(m)
    if g != d:
        k = sorted(set(g.items()) ^ set(d.items()))[:3]
        return '%s: %d cells, expected %d; %r' % (what, len(g), len(d), k)
    return None


def pick(rows, cols, d, r=None, c=None):
    r, c = (rows if r is None else r), (cols if c is None else c)
    rs, cs = set(r), set(c)
    return r, c, {k: v for k, v in d.items() if k[0] in rs and k[1] in cs}


def select(case):
    m, rows, cols, d = make(case['tall'], case['full'], case['fmt'])
    ax = 0 if case['tall'] else 1
    long_ = rows if case['tall'] else cols
    at = [long_[i] for i in MARKS]

    def on(l):
        return dict(row=l) if ax == 0 else dict(col=l)
    for what, l in (('marks', at), ('reversed marks', at[::-1]), ('half', long_[1::2]), ('all but the first', long_[1:]),
                    ('rotated', long_[-N // 16:] + long_[:-N // 16])):
        e = same('submatrix of ' + what, m.submatrix(**on(list(l))), *pick(rows, cols, d, *((l, None) if ax == 0 else (None, l))))
        if e:
            return e
    e = same('reorder', m.reorder(long_[::-1], axis=ax), *pick(rows, cols, d, *((long_[::-1], None) if ax == 0 else (None, long_[::-1]))))
    e = e or same('transpose', m.transpose(), cols, rows, {(b, a): v for (a, b), v in d.items()})
    e = e or same('copy', m.copy(), rows, cols, d)
    if e:
        return e
    for axis, items in ((0, rows), (1, cols)):
        n = {}
        for k in d:
            n[k[axis]] = n.get(k[axis], 0) + 1
        for least in (0, 1, len(MARKS) - 1, len(MARKS), 127, 128, 255, 256, 65535, 65536, N - 1, N):
            keep = [x for x in items if n.get(x, 0) > least]
            r = m.drop(axis=axis, n_nonzero=least)
            if not keep:
                if r is not None:
                    return 'drop: something is left'
                continue
            e = same('drop %d %d' % (axis, least), r, *pick(rows, cols, d, *((keep, None) if axis == 0 else (None, keep))))
            if e:
                return e
        keep = [x for x in items if x in n]
        e = same('drop_empty %d' % axis, m.drop_empty(axis=axis), *pick(rows, cols, d, *((keep, None) if axis == 0 else (None, keep))))
        if e:
            return e
    if ax == 0:
        for k in (1, N // 2 + 9, 0.5):
            r = m.sample(k, seed=4)
            l = list(r.row_items)
            if len(l) != (k if k >= 1 else N // 2) or len(set(l)) != len(l):
                return 'sample %r: %d rows' % (k, len(l))
            e = same('sample', r, *pick(rows, cols, d, l))
            if e:
                return e
    for i in MARKS:
        for s in range(3):
            r, c = (long_[i], SHORT[s]) if ax == 0 else (SHORT[s], long_[i])
            ri, ci = (i, s) if ax == 0 else (s, i)
            for a in (m[r, c], m[ri, ci], m[r, ci], m[ri, c]):
                if a != d.get((r, c), 0):
                    return 'cell %s %s is %r' % (r, c, a)
    return None


def arith(case):
    m, rows, cols, d = make(case['tall'], case['full'], case['fmt'])
    for axis, items in ((0, rows), (1, cols)):
        n, s = dict.fromkeys(items, 0), dict.fromkeys(items, 0)
        for k, v in d.items():
            n[k[axis]] += 1
            s[k[axis]] += v
        if list(np.asarray(m.count_nonzero(axis)).ravel().tolist()) != [n[x] for x in items]:
            return 'count_nonzero(%d)' % axis
        t = m.sum(axis=1 - axis)
        t = [t[x] for x in items] if hasattr(t, 'freq_dict') or isinstance(t, dict) else np.asarray(t).ravel().tolist()
        if t != [s[x] for x in items]:
            return 'sum over axis %d' % (1 - axis)
    if m.sum() != sum(d.values()):
        return 'sum is %r, expected %r' % (m.sum(), sum(d.values()))
    filled = {k[0] for k in d}
    empty = [r for r in rows if r not in filled]
    if list(m.empty_rows()) != empty:
        return 'empty_rows'
    for name, f in (('lt', operator.lt), ('le', operator.le), ('gt', operator.gt), ('ge', operator.ge)):
        for t in (3, -3):
            r = f(m, t)
            w = {k: True for k, v in d.items() if f(v, t)}
            e = same('%s %d' % (name, t), r, rows, cols, w)
            e = e or same('product with %s %d' % (name, t), m.multiply(r), rows, cols, {k: d[k] for k in w})
            if e:
                return e
    e = same('product', m.multiply(m.copy()), rows, cols, {k: v * v for k, v in d.items()})
    if e:
        return e
    from nephosem import TypeTokenMatrix
    for axis in (0, 1):
        o = TypeTokenMatrix(m.matrix.copy(), [r + '~' for r in rows] if axis == 0 else rows, [c + '~' for c in cols] if axis == 1 else cols)
        w = dict(d)
        w.update({((r + '~', c) if axis == 0 else (r, c + '~')): v for (r, c), v in d.items()})
        e = same('concatenate %d' % axis, m.concatenate(o, axis=axis), rows + [r + '~' for r in rows] if axis == 0 else rows,
                 cols + [c + '~' for c in cols] if axis == 1 else cols, w)
        if e:
            return e
    if not m.equal(m.copy()):
        return 'not equal to its copy'
    for i in [i for i in (0, 128, 256, 32768, 65536, N - 1) if i < N]:
        l = list(LONG)
        l[i] = 'other'
        o = TypeTokenMatrix(m.matrix.copy(), l if case['tall'] else rows, cols if case['tall'] else l)
        if m.equal(o):
            return 'equal in spite of the label at %d' % i
        o = m.copy()
        x = o.matrix.tolil()
        x[(i, 0) if case['tall'] else (0, i)] = 99
        if m.equal(TypeTokenMatrix(x.asformat(case['fmt'] if case['fmt'] in ('csr', 'csc') else 'csr'), rows, cols)):
            return 'equal in spite of the value at %d' % i
    return None


def store(case, work):
    from nephosem import TypeTokenMatrix
    m, rows, cols, d = make(case['tall'], case['full'], case['fmt'])
    name = os.path.join(work, 'wide')
    m.save(name, pack=case['pack'])
    e = same('loaded', TypeTokenMatrix.load(name, pack=case['pack']), rows, cols, d)
    for f in os.listdir(work):
        if f.startswith('wide'):
            os.remove(os.path.join(work, f))
    return e


def merging(case):
    from nephosem.specutils import mxutils
    m, rows, cols, d = make(case['tall'], case['full'], case['fmt'])
    keep = [LONG[i] for i in range(N) if i % 3 or i in MARKS]
    o, rows2, cols2, d2 = make(case['tall'], case['full'], case['fmt'], keep=keep[::-1])
    w = dict(d)
    for k, v in d2.items():
        w[k] = w.get(k, 0) + v
    w = {k: v for k, v in w.items() if v}
    from nephosem import TypeTokenMatrix
    for what, x in (('merge_matrices', TypeTokenMatrix(*mxutils.merge_matrices([m, o]))),
                    ('merge_matrices', TypeTokenMatrix(*mxutils.merge_matrices([o, m]))), ('merge', m.merge(o))):
        if sorted(x.row_items) != sorted(rows) or sorted(x.col_items) != sorted(cols):
            return what + ': labels'
        e = same(what, x, x.row_items, x.col_items, w)
        if e:
            return e
    x = TypeTokenMatrix(*mxutils.merge_matrices([m, m.copy(), m]))
    e = same('merging equal labels', x, rows, cols, {k: 3 * v for k, v in d.items()})
    if e:
        return e
    if not case['tall']:
        x = mxutils.merge_two_matrices(m, o)
        e = same('merge_two_matrices', x, rows, x.col_items, w)
        if e:
            return e
    n = {}
    for (r, c), v in d.items():
        n.setdefault(r, {})[c] = v
    if mxutils.transform_spmatrix_to_dict(m.matrix, rows, cols) != n:
        return 'to a dictionary'
    return same('from a dictionary', TypeTokenMatrix(mxutils.transform_dict_to_spmatrix(n, rows, cols), rows, cols), rows, cols, d)


def ppmi(case):
    """Positive association with the sums of the matrix."""
    import math
    from nephosem.specutils import mxcalc
    m, rows, cols, d = make(case['tall'], True, case['fmt'])
    m = m.multiply(m > 0)
    d = {k: v for k, v in d.items() if v > 0}
    rs, cs = {}, {}
    for (r, c), v in d.items():
        rs[r] = rs.get(r, 0) + v
        cs[c] = cs.get(c, 0) + v
    from nephosem import Vocab
    N_ = sum(d.values())
    want = {k: max(0.0, math.log(v * N_ / (rs[k[0]] * cs[k[1]]))) for k, v in d.items()}
    vr, vc = Vocab({r: rs.get(r, 0) for r in rows}), Vocab({c: cs.get(c, 0) for c in cols})
    for what, p in (('compute_ppmi', mxcalc.compute_ppmi(m)), ('compute_ppmi', mxcalc.compute_ppmi(m, vr, vc)),
                    ('compute_association', mxcalc.compute_association(m, vr, vc, meas='ppmi'))):
        if list(p.row_items) != rows or list(p.col_items) != cols:
            return what + ': labels'
        g = got(p)
        for k, v in want.items():
            if abs(g.get(k, 0) - v) > 1e-4 * max(1, v):
                return '%s of %r is %r, expected %r' % (what, k, g.get(k, 0), v)
        if set(g) - set(want):
            return '%s: cells that have no frequency' % what
    return None


def cases(packs=False, fulls=(False, True)):
    for n in (200, 300, 40000, 70000):
        for tall in (False, True):
            for full in fulls:
                for fmt in FMTS if n != 40000 else ('csr',):
                    for pack in (True, False) if packs else (None,):
                        yield {'wide': n, 'tall': tall, 'full': full, 'fmt': fmt, 'pack': pack}


def sized(f, case, *more):
    size(case['wide'])
    return f(case, *more)


def run(ctx, f, sig, all_cases, *more):
    for case in all_cases:
        ctx.ran()
        ctx.state(repr(case))
        ctx.trans(10)
        ok, e = ctx.attempt(lambda: sized(f, case, *more), sig, case, 120)
        if ok and e:
            ctx.fail(sig, '%s in a matrix with %d labels: %r' % (e, case['wide'], case), case)


def replay(ctx, f, case, *more):
    ok, e = ctx.attempt(lambda: sized(f, case, *more), 'replay', case, 120)
    if ok and e:
        ctx.fail('replay', e, case)
