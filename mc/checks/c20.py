"""C20: matrix selection keeps every value under its own row and column label.

From a set of small labelled matrices (all fill patterns of 2x2 with explicit zeros, patterns of
1xn, nx1, 2x3, 3x3; five storages), all sequences up to a depth of selection operations, compared
after every step with a dictionary of cells.
"""
import itertools

import numpy as np

from mc import env, mats, wide
from mc.mats import EX, Ref

ID = 'C20'
LEVEL = 'model_checking'
ASSUMPTIONS = ['selecting only unknown or no labels gives None (documented by a warning)',
               'square (symmetric, equal labels) matrices refuse reorder and transpose with NotImplementedError',
               'dropping is supported for sparse matrices only',
               'whether drop_empty drops a row with only explicit zeros is judged in C21']
BOUNDS = ('81 fill patterns of 2x2 and patterns of 1x1, 1x3, 3x1, 2x3, 3x2, 3x3 x sparse row / column / unsorted / '
          'dense storages; all sequences of <=2 (thorough <=3) operations out of ~35 per matrix, with and without '
          'lookups in between; matrices of 5x4 and 4x6 with all ordered selections of rows and of columns, and of 13x12 and '
          '12x12 with all runs, reversed, rotated, with inner labels exchanged, and all pairs; wide matrices of '
          '300, 40 000 and 70 000 labels; lookups and label lists asked again after use of the first answer')
ROWS = ['b', 'a', '\u00e9']
COLS = ['x', 'b', 'a']
VALS = [2, 3, 5, 7, 11, 13, 17, 19, 23]


def sources():
    out = []
    for pat in itertools.product((None, EX, 1), repeat=4):
        p = [VALS[i] if v == 1 else v for i, v in enumerate(pat)]
        out.append((2, 2, p, 'csr'))
        if sum(v == 1 for v in pat) >= 2:
            out.append((2, 2, p, 'csc'))
    for pat in itertools.product((None, 1), repeat=4):
        out.append((2, 2, [VALS[i] if v else None for i, v in enumerate(pat)], 'dense'))
    for n, m in ((1, 1), (1, 3), (3, 1)):
        for pat in itertools.product((None, EX, 1), repeat=n * m):
            p = [VALS[i] if v == 1 else v for i, v in enumerate(pat)]
            for f in ('csr', 'dense'):
                if f == 'csr' or EX not in pat:
                    out.append((n, m, p, f))
    big = [[1, 0, 1, 0, 1, 1], [0, 1, 0, 0, EX, 0], [1, 1, 1, 1, 1, 1], [0, 0, 0, 1, 0, 1], [1, EX, 1, 0, 0, 0]]
    for n, m in ((2, 3), (3, 2)):
        for pat in big:
            p = [None if v == 0 else VALS[i] if v == 1 else v for i, v in enumerate(pat)]
            for f in ('csr', 'csc', 'unsorted', 'dups', 'dense'):
                out.append((n, m, p, f))
    for f in ('csr', 'unsorted', 'dups', 'dense'):
        out.append((3, 3, VALS, f))
    sym = [0, 4, 6, 4, 0, 8, 6, 8, 0]
    out.append((3, 3, sym, 'square'))
    out.append((3, 3, sym, 'symdense'))
    out.append((2, 2, [0, 4, 4, 0], 'square'))
    return out


LR = ['b', 'b/N', 'b1', 'ab', 'b10', 'B', 'b2', 'a', '\u00e9', 'b/N/1', '1', 'b 2', 'zz10']
LC = ['y/N', 'b', 'y', 'y1', 'y10', 'Y', 'x', 'b/N', 'y2', '0', 'xy', '\u00e9']


def large():
    """Larger matrices with labels of which one is the beginning of another."""
    out = []
    for n, m, fmts in ((5, 4, ('csr', 'csc', 'unsorted', 'dups', 'dense')), (4, 6, ('csr', 'dense')), (13, 12, ('csr', 'csc', 'dense')),
                       (12, 12, ('square',))):
        pat = [(i * 7 % 11 - 4) or None for i in range(n * m)]
        ex = [EX if i % 13 == 5 else v for i, v in enumerate(pat)]
        for f in fmts:
            if f == 'square':
                pat = [abs(i // n - i % n) + 1 if i // n != i % n else 0 for i in range(n * m)]
            out.append((n, m, [v or 0 for v in pat] if f in ('dense', 'square') else ex, f))
    return out


def spread(labels):
    """Ordered selections of many labels: runs forwards and backwards, with inner labels exchanged, pairs, gaps."""
    k = len(labels)
    out = []
    for i in range(k):
        for j in range(i + 1, k + 1):
            run = labels[i:j]
            out += [run, run[::-1]]
            if len(run) > 3:
                out += [run[:1] + run[-2:0:-1] + run[-1:], run[1:] + run[:1]]
            if len(run) > 2:
                out.append(run[::2])
    out += [list(p) for p in itertools.permutations(labels, 2)]
    return out


def large_sequences(ref):
    for ax, labels in ((0, ref.rows), (1, ref.cols)):
        sel = [list(p) for r in range(1, len(labels) + 1) for p in itertools.permutations(labels, r)] \
            if len(labels) < 6 else spread(labels)
        full = [x for x in sel if len(x) == len(labels)]
        other = ref.cols if ax == 0 else ref.rows
        for x, l in enumerate(sel):
            yield [('sub', l, None) if ax == 0 else ('sub', None, l)]
            o = other[x % len(other):] + other[:x % len(other)]
            yield [('sub', l, o[::-1]) if ax == 0 else ('sub', o[::-1], l)]
        for l in full:
            yield [('reorder', l, ax)]
            yield [('reorder', l, ax), ('sub', labels[1:], None) if ax == 0 else ('sub', None, labels[1:])]
        for n in range(4):
            yield [('drop', ax, n)]
        for e in (False, True):
            yield [('empty', ax, e)]
    n = len(ref.rows)
    for k in list(range(1, n + 1)) + [0.05, 0.1, 0.3, 0.5, 0.75, 0.99]:
        for seed in range(4):
            yield [('sample', k, seed)]
    yield [('T',)]
    yield [('copy',)]
    if not ref.dense:
        yield [('dense',)]


def build(src):
    n, m, pat, fmt = src
    rows, cols = (ROWS[:n], COLS[:m]) if n < 4 else (LR[:n], LC[:m])
    dense = fmt in ('dense', 'square', 'symdense')
    if fmt == 'square':
        cols = rows
    ref = mats.from_pattern(rows, cols, pat, dense)
    return ref, mats.real(ref, 'dense' if dense else fmt, float if fmt == 'square' else int)


def orders(labels):
    """Selections of labels: all non-empty ordered ones for two, a spread for three."""
    k = len(labels)
    out = [list(p) for r in range(1, k + 1) for p in itertools.permutations(labels, r)]
    if k == 3:
        out = [out[i] for i in (0, 2, 4, 5, 8, 9, 11, 14)]
    out += [['zz'] + labels[-1:], labels[::-1] + ['q', 'zz']]
    return out


def ops(ref):
    """Operations on a matrix with the labels of ref."""
    out = [('copy',), ('deepcopy',), ('T',)]
    ro, co = orders(ref.rows), orders(ref.cols)
    out += [('sub', r, None) for r in ro] + [('sub', None, c) for c in co]
    out += [('sub', ro[i % len(ro)], co[j % len(co)]) for i, j in ((0, -1), (-1, 0), (-3, -3), (1, 1))]
    out += [('sub', ['zz'], None), ('sub', None, ['q']), ('sub', [], None)]
    out += [('twice', 0), ('twice', 1)]
    for ax, labels in ((0, ref.rows), (1, ref.cols)):
        out += [('reorder', list(p), ax) for p in itertools.permutations(labels)]
    for ax in (0, 1):
        for n in (0, 1):
            out.append(('drop', ax, n))
        for e in (False, True):
            out.append(('empty', ax, e))
    out += [('sample', 1, 3), ('sample', len(ref.rows), 0), ('sample', 0.5, 1), ('resample', 2)]
    if not ref.dense:
        out.append(('dense',))
    return out


def run_op(op, m, ref):
    """Returns (message or None, new matrix or None, new ref or None)."""
    k = op[0]
    if k == 'copy':
        return None, m.copy(), ref.select()
    if k == 'deepcopy':
        return None, m.deepcopy(), ref.select()
    if k == 'T':
        if ref.square():
            try:
                r = m.transpose()
            except NotImplementedError:
                return None, None, None
            return None, r, ref.trans()
        return None, m.transpose(), ref.trans()
    if k == 'sub':
        rows, cols = op[1], op[2]
        wr = None if rows is None else [x for x in rows if x in ref.rows]
        wc = None if cols is None else [x for x in cols if x in ref.cols]
        kw = {}
        if rows is not None:
            kw['row'] = list(rows)
        if cols is not None:
            kw['col'] = list(cols)
        r = m.submatrix(**kw)
        if wr == [] or wc == []:
            return ('%r where no label is known' % (r,) if r is not None else None), None, None
        return None, r, ref.select(wr, wc)
    if k == 'twice':
        ax, labels, other = op[1], (ref.cols if op[1] else ref.rows), (ref.rows if op[1] else ref.cols)
        for l in ([labels[0]] * 2, labels + labels, [labels[-1]] + labels, labels[:1] + ['zz'] + labels[::-1] + ['zz']):
            l = [x for x in l if labels]
            for give in (list(l), tuple(l), np.array(l)):
                r = m.submatrix(**({'col': give} if ax else {'row': give}))
                want = [x for x in l if x in labels]
                got, same = (list(r.row_items), list(r.col_items))[::-1 if ax else 1]
                if got != want or same != other:
                    return 'asked for %r, it has %r %r' % (give, r.row_items, r.col_items), None, None
                a = np.asarray(mats.arr(r))
                w = [[ref.val(*((y, x) if ax else (x, y))) for y in other] for x in want]
                if (a.T if ax else a).tolist() != w:
                    return 'asked for %r, the values are %r' % (give, a.tolist()), None, None
        return None, None, None
    if k == 'reorder':
        try:
            r = m.reorder(list(op[1]), axis=op[2])
        except NotImplementedError:
            if ref.square():
                return None, None, None
            raise
        return None, r, ref.select(op[1], None) if op[2] == 0 else ref.select(None, op[1])
    if k in ('drop', 'empty'):
        t = ref if op[1] == 0 else ref.trans()
        try:
            r = m.drop(axis=op[1], n_nonzero=op[2]) if k == 'drop' else m.drop_empty(axis=op[1], explicit=op[2])
        except (NotImplementedError, AttributeError):
            if ref.dense:
                return None, None, None
            raise
        if k == 'drop':
            keep = [x for x in t.rows if sum(t.val(x, c) != 0 for c in t.cols) > op[2]]
        else:
            nz = [x for x in t.rows if any(t.val(x, c) != 0 for c in t.cols)]
            st = [x for x in t.rows if any((x, c) in t.stored for c in t.cols)]
            got = [] if r is None else list(r.row_items if op[1] == 0 else r.col_items)
            if got not in (nz, st):
                return 'kept %r, expected %r' % (got, nz), None, None
            if not ref.square():
                r2 = m.transpose().drop_empty(axis=1 - op[1], explicit=op[2])
                if ([] if r2 is None else list(r2.col_items if op[1] == 0 else r2.row_items)) != got:
                    return 'kept %r, but of the transposed matrix %r' % (got, r2), None, None
            keep = got
        if not keep:
            return ('%r although nothing is left' % (r,) if r is not None else None), None, None
        return None, r, ref.select(keep, None) if op[1] == 0 else ref.select(None, keep)
    if k == 'sample':
        r = m.sample(op[1], seed=op[2])
        n = op[1] if op[1] >= 1 else max(1, int(len(ref.rows) * op[1]))
        got = list(r.row_items)
        if len(got) != n or len(set(got)) != n or [x for x in ref.rows if x in got] != got:
            return 'sampled rows %r' % got, None, None
        r2 = m.sample(op[1], seed=op[2])
        if list(r2.row_items) != got:
            return 'the same seed gives %r and %r' % (got, r2.row_items), None, None
        return None, r, ref.select(got, None)
    if k == 'resample':
        if op[1] > len(ref.rows):
            return None, None, None
        r = m.sample(op[1], seed=5, replace=True)
        got = list(r.row_items)
        if len(got) != op[1] or any(x not in ref.rows for x in got):
            return 'sampled rows %r' % got, None, None
        d = mats.arr(r).tolist()
        if d != [[ref.val(x, c) for c in ref.cols] for x in got] or list(r.col_items) != ref.cols:
            return 'sample with replacement %r %r' % (got, d), None, None
        n = len(ref.rows)
        if n > 1 and all(len(set(m.sample(n, seed=i, replace=True).row_items)) == n for i in range(40)):
            return 'rows drawn with replacement are never drawn twice', None, None
        return None, None, None
    assert k == 'dense'
    r = m.todense()
    return None, r, Ref(ref.rows, ref.cols, ref.cells, dense=True)


def lookups(m, ref):
    """Lookup by label, by index and by slice."""
    R, C = ref.rows, ref.cols
    want = np.array(ref.array())

    def eq(got, w):
        return np.asarray(got).ravel().tolist() == np.asarray(w).ravel().tolist()
    for i, r in enumerate(R):
        for j, c in enumerate(C):
            for a in (r, i):
                for b in (c, j):
                    if not eq(m[a, b], want[i, j]):
                        return 'cell %r is %r, expected %r' % ((a, b), m[a, b], want[i, j])
        for a in (r, i, i - len(R)):
            if not eq(m[a], want[i]):
                return 'row %r is %r, expected %r' % (a, m[a], want[i])
        for s in (slice(None), slice(1, None), slice(None, 1)):
            if not eq(m[r, s], want[i, s]):
                return 'row %r %r is %r' % (r, s, m[r, s])
    for j, c in enumerate(C):
        for b in (c, j):
            if not eq(m[:, b], want[:, j]):
                return 'column %r is %r, expected %r' % (b, m[:, b], want[:, j])
    for s in (slice(None), slice(None, 1), slice(1, None), slice(None, None, 2)):
        if not eq(m[s], want[s]):
            return 'rows %r are %r, expected %r' % (s, m[s], want[s])
        for t in (slice(None), slice(1, None)):
            if not eq(m[s, t], want[s, t]):
                return 'cells %r are %r, expected %r' % ((s, t), m[s, t], want[s, t])
    for a in ('zz', ('zz', C[0]), (R[0], 'zz')):
        try:
            v = m[a]
        except KeyError:
            continue
        return 'unknown label %r gives %r' % (a, v)
    if not np.array_equal(np.asarray(mats.arr(m)), np.asarray(m.get_matrix().toarray() if not ref.dense else m.get_matrix())):
        return 'get_matrix differs'
    if not ref.dense:
        for r in R:
            if sorted(m.get_colloc_contexts(r)) != sorted(c for c in C if (r, c) in ref.stored):
                return 'contexts of %r are %r' % (r, m.get_colloc_contexts(r))
    return None


def quick_lookup(m, ref):
    for r in {ref.rows[0], ref.rows[-1]}:
        c = ref.cols[-1]
        if m[r, c] != ref.val(r, c):
            return 'cell %r is %r, expected %r' % ((r, c), m[r, c], ref.val(r, c))
    if m.item2rowid != {r: i for i, r in enumerate(ref.rows)} or m.item2colid != {c: i for i, c in enumerate(ref.cols)}:
        return 'label indices %r %r' % (m.item2rowid, m.item2colid)
    return None


SEEN = set()


def judge(m, ref, full):
    d = mats.differs(m, ref)
    if d:
        return d
    k = (type(m.matrix), getattr(m.matrix, 'format', ''), ref.key())
    d = quick_lookup(m, ref)
    if d:
        return d
    if full or k not in SEEN:
        SEEN.add(k)
        return lookups(m, ref)
    return None


def run_seq(src, seq, between):
    ref, m = build(src)
    if between:
        d = judge(m, ref, False)
        if d:
            return 'source: ' + d
    hist = [(m, ref)]
    for n, op in enumerate(seq):
        d, m2, ref2 = run_op(op, m, ref)
        if d:
            return '%r: %s' % (op, d)
        for o, oref in hist:
            d = mats.differs(o, oref)
            if d:
                return '%r changed an earlier matrix: %s' % (op, d)
        if ref2 is None:
            return None
        m, ref = m2, ref2
        if between or n + 1 == len(seq):
            d = judge(m, ref, False)
            if d:
                return '%r: %s' % (op, d)
        hist.append((m, ref))
    for o, oref in hist[:-1]:
        d = quick_lookup(o, oref)
        if d:
            return 'afterwards the source of the last operation: ' + d
    return None


def sequences(ref, depth):
    """All operation sequences, the choices after the first op depending on the labels then."""
    if depth == 0:
        yield []
        return
    for op in ops(ref):
        yield [op]
        if depth > 1:
            nxt = predict(op, ref)
            if nxt is not None:
                for rest in sequences(nxt, depth - 1):
                    yield [op] + rest


def predict(op, ref):
    """The labels after op, where they follow from the reference alone (None: sequence ends)."""
    k = op[0]
    if k in ('copy', 'deepcopy'):
        return ref
    if k == 'T':
        return None if ref.square() else ref.trans()
    if k == 'sub':
        wr = None if op[1] is None else [x for x in op[1] if x in ref.rows]
        wc = None if op[2] is None else [x for x in op[2] if x in ref.cols]
        return None if wr == [] or wc == [] else ref.select(wr, wc)
    if k == 'reorder':
        return None if ref.square() else ref.select(op[1], None) if op[2] == 0 else ref.select(None, op[1])
    if k == 'drop':
        if ref.dense:
            return None
        t = ref if op[1] == 0 else ref.trans()
        keep = [x for x in t.rows if sum(t.val(x, c) != 0 for c in t.cols) > op[2]]
        return None if not keep else ref.select(keep, None) if op[1] == 0 else ref.select(None, keep)
    if k == 'dense':
        return Ref(ref.rows, ref.cols, ref.cells, dense=True)
    return None


def shards(tier):
    return [('wide', i) for i in range(8)] + [(i, len(SRC[i])) for i in reversed(range(len(SRC)))]      # the large ones first


SRC = sources() + large()


def run_shard(shard, ctx):
    env.load()
    if shard[0] == 'wide':
        wide.run(ctx, wide.select, 'wide', list(wide.cases())[shard[1]::8])
        return
    src = SRC[shard[0]]
    ref, _ = build(src)
    n, m = len(ref.rows), len(ref.cols)
    simple = n * m == 4 and src[3] in ('csr', 'csc') and EX in src[2] and sum(v is not None for v in src[2]) > 2
    if ctx.tier == 'quick':
        depth = 1 if simple else 2
    else:
        depth = 3 if n * m in (4, 6) and not simple and shard[0] % 3 == 0 else 2
    for seq in sequences(ref, depth) if n < 4 else large_sequences(ref):
        for between in (False, True) if len(seq) > 1 else (True,):
            if between and len(seq) > 1 and ctx.tier == 'quick' and seq[0][0] == 'sub' and seq[1][0] == 'sub':
                continue
            case = {'src': src, 'ops': seq, 'between': between}
            ctx.state(repr((src, seq)))
            ctx.ran()
            ctx.trans(len(seq))
            sig = 'select:%s:%s' % (src[3], seq[-1][0])
            ok, d = ctx.attempt(lambda: run_seq(src, seq, between), sig, case)
            if ok and d:
                ctx.fail(sig, '%s in %r' % (d, case), case)
    ctx.sample({'src': src, 'depth': depth if n < 4 else 'large'}, 1)


def replay(case, ctx):
    env.load()
    if 'wide' in case:
        wide.replay(ctx, wide.select, case)
        return
    ok, d = ctx.attempt(lambda: run_seq(case['src'], case['ops'], case['between']), 'replay', case)
    if ok and d:
        ctx.fail('replay', d, case)
