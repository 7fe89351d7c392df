"""C25: printed and tabular forms of a matrix show every value under its own labels.

All fill patterns of small matrices in every storage and number type x every number of rows and columns asked for x
labels of different kinds (words, labels that look like numbers, 'nan', '...'), and larger matrices, whose forms are read
back and compared with the dictionary of cells.
"""
import itertools
import re

import numpy as np
import scipy.sparse as sp

from mc import env, mats
from mc.mats import EX

ID = 'C25'
LEVEL = 'model_checking'
ASSUMPTIONS = ['labels have no line breaks, no runs of blanks and no blanks at their ends (a printed table could not be read back)',
               'numbers are printed with four decimals or more; how the columns of the table are aligned is free']
BOUNDS = ('all fill patterns (absent, explicit zero, a value) of 1x1, 1x2, 2x1, 2x2, patterns of 2x3 and 3x2 x csr, csc, coo, '
          'unsorted, in parts, dense x int, float, float32, bool x 6 kinds of labels x all 0..4 or no limits of rows and of '
          'columns; matrices of 7x7, 8x7, 7x8, 8x8, 12x9, 30x2 and 2x30 with limits of 1, 6, 7, 8, 9, 29, 30, 31; data '
          'frames with words, numbers, dates as labels, mixed columns, missing values')
FMTS = ['csr', 'csc', 'coo', 'unsorted', 'dups', 'coodups', 'dense']
LABELS = {'words': (['b/N', 'a/V', '\u00e9/A'], ['x', 'b/N', 'y']),
          'numbers': (['007', '1e3', '2010'], ['1.50', '1e2', '-0']),
          'odd': (['nan', 'NaN', '0'], ['inf', 'True', 'NaN']),
          'dots': (['...', '[2, 2]', '..'], ['...', '[2, 2]', '1,5']),
          'same': (['a', 'b', 'c'], ['a', 'b', 'c']),
          'wide': (['\u4e2d\u6587/N', '\u0435\u0301/V', 'x' * 50], ['\u4e2d/N', 'a b', '\u00e9' * 20])}
VALS = {'int': [2, -3, 500, 7, 11, 123456789],
        'float': [0.5, -3.0, 1234567.25, 1e-5, 1 / 3., -0.123456],
        'float32': [0.5, -3.0, 1234.25, 0.25, 16.0, -0.125],
        'bool': [True] * 6}
TYPES = {'int': int, 'float': float, 'float32': np.float32, 'bool': bool}


def labels(n, m, kind):
    R, C = LABELS[kind]
    if n <= 3 and m <= 3:
        return R[:n], C[:m]
    if kind == 'numbers':
        return ['%02d' % i for i in range(n)], ['%d.50' % i for i in range(m)]
    if kind == 'same' and n == m:
        return ['w%d' % i for i in range(n)], ['w%d' % i for i in range(n)]
    return ['w%d/N' % i for i in range(n)], ['c%d' % (i * 7 % m if m % 7 else i) for i in range(m)]


def build(case):
    n, m = case['n'], case['m']
    R, C = labels(n, m, case['labels'])
    dense = case['fmt'] == 'dense'
    vals = VALS[case['dtype']]
    pat = [v if v in (None, EX) else vals[(i * 5 + v) % len(vals)] for i, v in enumerate(case['pat'])]
    if dense:
        pat = [0 if v in (None, EX) else v for v in pat]
    ref = mats.from_pattern(R, C, pat, dense)
    return ref, mats.real(ref, case['fmt'], TYPES[case['dtype']])


def shows(text, v, dtype):
    """Whether text is the printed form of v."""
    if dtype == 'bool':
        return text in ('True', '1') if v else text in ('False', '0')
    try:
        g = float(text)
    except ValueError:
        return False
    if dtype == 'int':
        return g == v and re.match(r'-?\d+$', text) is not None
    return abs(g - v) <= 5.0001e-5


def table(text, ref, dtype, n_rows, n_cols):
    """None, or what is wrong in the printed table."""
    R, C = ref.rows, ref.cols
    n = min(n_rows or len(R), len(R))
    m = min(n_cols or len(C), len(C))
    lines = [re.split(r'  +', l.strip()) for l in text.split('\n')]
    if len(lines) != 1 + n + (n < len(R)):
        return '%d lines' % len(lines)
    head = lines[0]
    width = 1 + m + (m < len(C))
    if any(len(l) != width for l in lines):
        return 'a line of %r has not %d fields' % (text, width)
    if head[0] != str([len(R), len(C)]) or head[1:1 + m] != C[:m]:
        return 'the heading is %r' % head
    for i in range(n):
        l = lines[1 + i]
        if l[0] != R[i]:
            return 'line %d begins with %r, expected %r' % (i + 1, l[0], R[i])
        for j in range(m):
            k = (R[i], C[j])
            if not ref.dense and k not in ref.stored:
                if l[1 + j] != 'NaN':
                    return 'cell %s %s is printed as %r, but is not stored' % (k + (l[1 + j],))
            elif not shows(l[1 + j], ref.val(*k), dtype):
                return 'cell %s %s is printed as %r, the value is %r' % (k + (l[1 + j], ref.val(*k)))
    for l in lines if m < len(C) else []:
        if l[-1] != '...':
            return 'left out columns are not marked in %r' % l
    if n < len(R) and set(lines[-1]) != {'...'}:
        return 'left out rows are marked by %r' % lines[-1]
    return None


def frame(df, ref, dtype):
    if list(df.index) != ref.rows or list(df.columns) != ref.cols:
        return 'the data frame has the labels %r %r' % (list(df.index), list(df.columns))
    if df.values.tolist() != ref.array():
        return 'the data frame has the values %r, expected %r' % (df.values.tolist(), ref.array())
    for i, r in enumerate(ref.rows):
        for j, c in enumerate(ref.cols):
            if df[c][r] != ref.val(r, c):
                return 'the data frame has %r under %s %s' % (df[c][r], r, c)
    return None


def description(text, ref, m):
    size = len(ref.rows) * len(ref.cols) if ref.dense else m.matrix.nnz
    want = [('shape', '%d X %d' % (len(ref.rows), len(ref.cols))), ('sparse', str(not ref.dense)), ('eles', str(size)),
            ('density', '%.2f%%' % (100. * size / (len(ref.rows) * len(ref.cols))))]
    for key, value in want:
        l = [x for x in text.split('\n') if key in x]
        if len(l) != 1 or l[0].split(':', 1)[1].strip() != value:
            return 'described by %r, expected %s' % (l, value)
    return None


def one(case):
    from nephosem import TypeTokenMatrix as T
    ref, m = build(case)
    before = mats.snap(m)
    dt = case['dtype']
    if ref.dense and dt == 'float32':
        dt = 'float32'
    limits = [1, 6, 7, 8, 9, 29, 30, 31, 0, None] if len(ref.rows) > 3 or len(ref.cols) > 3 else [0, 1, 2, 3, 4, None]
    for a, b in itertools.product(limits, limits):
        e = table(m.print_matrix(n_rows=a, n_cols=b), ref, dt, a, b)
        if e:
            return 'print_matrix(%r, %r): %s' % (a, b, e)
    for f in (str, repr, lambda x: x.print_matrix()):
        e = table(f(m), ref, dt, 7, 7)
        if e:
            return 'printed: ' + e
    df = m.dataframe
    e = frame(df, ref, dt) or description(m.describe(), ref, m)
    if e:
        return e
    for back, sparse in ((T.from_dataframe(df), True), (T.from_dataframe(df, issparse=False), False)):
        if sp.issparse(back.matrix) != sparse:
            return 'from_dataframe gives %s' % type(back.matrix)
        w = mats.Ref(ref.rows, ref.cols, ref.cells, None, True)
        e = mats.differs(back, w, pattern=False)
        if e:
            return 'from the data frame: ' + e
        if back.matrix.dtype != m.matrix.dtype:
            return 'from the data frame the numbers are %s, they were %s' % (back.matrix.dtype, m.matrix.dtype)
        e = table(str(back.transpose()) if not w.square() or sparse else str(back), w.trans() if not sparse else
                  mats.Ref(ref.cols, ref.rows, w.trans().cells, None, False), dt, 7, 7)
        if e:
            return 'transposed: ' + e
    if mats.snap(m) != before:
        return 'the matrix was changed'
    return None


def frames():
    """Data frames and the cells a matrix made from them has to have."""
    import pandas as pd
    nan = float('nan')
    yield 'ints', pd.DataFrame({'x': [1, 0], 'y': [0, 5]}, index=['a', 'b'])
    yield 'mixed', pd.DataFrame({'x': [1, 0], 'y': [0.25, 5]}, index=['a', 'b'])
    yield 'bool', pd.DataFrame({'x': [True, False], 'y': [False, False]}, index=['a', 'b'])
    yield 'nan', pd.DataFrame({'x': [1, nan], 'y': [nan, 0.5]}, index=['a', 'b'])
    yield 'order', pd.DataFrame([[1, 2, 3], [4, 5, 6]], index=['z', 'a'], columns=['q', 'c', 'b'])
    yield 'wide', pd.DataFrame([[2 ** 53 + 1, -2 ** 40], [2 ** 62, 7]], index=['z', 'a'], columns=['q', 'c'])
    yield 'fine', pd.DataFrame([[0.1, 1 + 2.0 ** -40], [1e-300, -1e300]], index=['z', 'a'], columns=['q', 'c'])
    yield 'one', pd.DataFrame([[7]], index=['z'], columns=['q'])
    yield 'sliced', pd.DataFrame([[1, 2, 3], [4, 5, 6], [7, 8, 9]], index=['z', 'a', 'k'], columns=['q', 'c', 'b']).loc[['k', 'z'], ['b', 'q']]
    yield 'turned', pd.DataFrame([[1, 2, 3], [4, 5, 6]], index=['z', 'a'], columns=['q', 'c', 'b']).T
    yield 'sorted', pd.DataFrame([[1, 2, 3], [4, 5, 6]], index=['z', 'a'], columns=['q', 'c', 'b']).sort_index()
    big = np.arange(90 * 110).reshape(90, 110) % 97
    yield 'big', pd.DataFrame(big, index=['r%d' % (i * 7 % 90) for i in range(90)], columns=['c%d' % (i * 3 % 110) for i in range(110)])


def from_frame(case):
    from nephosem import TypeTokenMatrix as T
    df = dict(frames())[case['frame']]
    image = df.copy()
    for sparse in (True, False):
        m = T.from_dataframe(df, issparse=sparse)
        if sp.issparse(m.matrix) != sparse or m.row_items != list(image.index) or m.col_items != list(image.columns):
            return 'labels %r %r or storage %s' % (m.row_items, m.col_items, type(m.matrix))
        for r in image.index:
            for c in image.columns:
                g, w = m[r, c], image[c][r]
                if g != w and not (g != g and w != w):
                    return 'cell %s %s is %r, in the data frame %r' % (r, c, g, w)
        back = m.dataframe
        if list(back.index) != list(image.index) or list(back.columns) != list(image.columns) or not np.array_equal(
                back.values.astype(float), image.values.astype(float), equal_nan=True):
            return 'the data frame of the matrix differs'
        if not df.equals(image):
            return 'the data frame was changed'
    return None


def patterns(tier):
    for n, m in ((1, 1), (1, 2), (2, 1), (2, 2)):
        for p in itertools.product((None, EX, 1), repeat=n * m):
            yield n, m, list(p)
    for n, m in ((2, 3), (3, 2)):
        for x, p in enumerate(itertools.product((None, EX, 1), repeat=6)):
            if tier != 'quick' or x % 9 == 4 or x in (0, 728):
                yield n, m, list(p)


def large():
    for n, m in ((7, 7), (8, 7), (7, 8), (8, 8), (12, 9), (30, 2), (2, 30)):
        yield n, m, [(None, EX, 1, 2, None, 3)[(i * i + i // m) % 6] for i in range(n * m)]
        yield n, m, [i % 5 + 1 for i in range(n * m)]


def shards(tier):
    return [('small', f, d) for f in FMTS for d in TYPES] + [('large', f) for f in FMTS] + [('frames',)]


def cases(shard, tier):
    if shard[0] == 'frames':
        for name, _ in frames():
            yield {'kind': 'frame', 'frame': name}
        return
    for n, m, pat in patterns(tier) if shard[0] == 'small' else large():
        for kind in LABELS if shard[0] == 'small' else ('words', 'numbers', 'same'):
            if shard[1] == 'dense' and EX in pat:
                continue
            if tier == 'quick' and n * m > 4 and kind not in ('words', 'numbers'):
                continue
            for dt in (shard[2],) if shard[0] == 'small' else ('int', 'float'):
                yield {'kind': 'one', 'n': n, 'm': m, 'pat': pat, 'fmt': shard[1], 'dtype': dt, 'labels': kind}


def run_case(case):
    return one(case) if case['kind'] == 'one' else from_frame(case)


def run_shard(shard, ctx):
    env.load()
    for case in cases(shard, ctx.tier):
        ctx.ran()
        ctx.state(repr(case))
        ctx.trans(36)
        sig = '%s:%s' % (case['kind'], case.get('labels') or case['frame'])
        ok, d = ctx.attempt(lambda: run_case(case), sig, case)
        if ok and d:
            ctx.fail(sig, '%s in %r' % (d, case), case)
        ctx.sample(case, 1)


def replay(case, ctx):
    env.load()
    ok, d = ctx.attempt(lambda: run_case(case), 'replay', case)
    if ok and d:
        ctx.fail('replay', d, case)
