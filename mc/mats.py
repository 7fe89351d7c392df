"""Reference matrices and their real counterparts."""
import itertools

import numpy as np
import scipy.sparse as sp

EX = 'z'      # explicitly stored zero


class Ref(object):
    """Labels, cells (value under each pair of labels) and which cells are stored."""

    def __init__(self, rows, cols, cells, stored=None, dense=False):
        self.rows, self.cols = list(rows), list(cols)
        self.cells = dict(cells)
        self.dense = dense
        self.stored = None if dense else (set(k for k, v in self.cells.items() if v != 0)
                                          if stored is None else set(stored))

    def key(self):
        return (tuple(self.rows), tuple(self.cols), tuple(sorted(self.cells.items())),
                None if self.stored is None else tuple(sorted(self.stored)), self.dense)

    def val(self, r, c):
        return self.cells.get((r, c), 0)

    def array(self):
        return [[self.val(r, c) for c in self.cols] for r in self.rows]

    def square(self):
        return self.dense and self.rows == self.cols and all(
            self.val(a, b) == self.val(b, a) for a in self.rows for b in self.rows)

    def select(self, rows=None, cols=None):
        return Ref(self.rows if rows is None else rows, self.cols if cols is None else cols,
                   self.cells, self.stored, self.dense)

    def trans(self):
        return Ref(self.cols, self.rows, {(c, r): v for (r, c), v in self.cells.items()},
                   None if self.dense else {(c, r) for r, c in self.stored}, self.dense)

    def map(self, f):
        """Dense or stored-cell-wise map."""
        return Ref(self.rows, self.cols, {k: f(v) for k, v in self.cells.items()}, self.stored, self.dense)


def from_pattern(rows, cols, pat, dense=False):
    """pat: flat sequence of None (absent), EX, or a value."""
    cells, stored = {}, set()
    for (r, c), v in zip(itertools.product(rows, cols), pat):
        if v is None:
            continue
        stored.add((r, c))
        cells[(r, c)] = 0 if v == EX else v
    return Ref(rows, cols, cells, stored, dense)


def storage(ref, fmt, dtype):
    if ref.dense or fmt == 'dense':
        return np.array(ref.array(), dtype=dtype).reshape(len(ref.rows), len(ref.cols))
    ij = [(i, j, ref.val(r, c)) for i, r in enumerate(ref.rows) for j, c in enumerate(ref.cols)
          if (r, c) in ref.stored]
    if fmt in ('dups', 'coodups'):      # each cell is stored in two parts
        half = (lambda v: v) if dtype is bool else \
            (lambda v: 2 if v == 0 else v // 2 if isinstance(v, int) else v / 2)
        two = [(i, j, half(v)) for i, j, v in ij]
        ij = [(i, j, v if dtype is bool else v - half(v)) for i, j, v in ij] + two
        if fmt == 'dups':
            ij.sort(key=lambda t: t[0])
    if fmt == 'unsorted':       # columns of a row stored from right to left
        ij.sort(key=lambda t: (t[0], -t[1]))
    shape = (len(ref.rows), len(ref.cols))
    data = np.array([t[2] for t in ij], dtype=dtype)
    row = np.array([t[0] for t in ij], dtype=int)
    col = np.array([t[1] for t in ij], dtype=int)
    if fmt in ('unsorted', 'dups'):
        indptr = np.searchsorted(row, range(shape[0] + 1))
        return sp.csr_matrix((data, col, indptr), shape=shape)
    m = sp.coo_matrix((data, (row, col)), shape=shape)
    return {'csr': m.tocsr, 'csc': m.tocsc, 'coo': m.copy, 'coodups': m.copy}[fmt]()


def real(ref, fmt='csr', dtype=int):
    from nephosem import TypeTokenMatrix
    return TypeTokenMatrix(storage(ref, fmt, dtype), list(ref.rows), list(ref.cols))


def arr(m):
    x = m.matrix if hasattr(m, 'row_items') else m
    return np.asarray(x.toarray() if sp.issparse(x) else x)


def stored_cells(m):
    coo = m.matrix.tocoo()
    return sorted((m.row_items[i], m.col_items[j]) for i, j in zip(coo.row.tolist(), coo.col.tolist()))


def differs(m, ref, tol=0, pattern=True):
    """None, or how labelled matrix m differs from ref in labels, shape, values or stored cells."""
    if list(m.row_items) != ref.rows or list(m.col_items) != ref.cols:
        return 'labels %r x %r, expected %r x %r' % (m.row_items, m.col_items, ref.rows, ref.cols)
    if tuple(m.shape) != (len(ref.rows), len(ref.cols)):
        return 'shape %r' % (m.shape,)
    got, want = arr(m).tolist(), ref.array()
    if tol == 0:
        if got != want:
            return 'values %r, expected %r' % (got, want)
    elif any(not close(g, w, tol) for a, b in zip(got, want) for g, w in zip(a, b)):
        return 'values %r, expected %r' % (got, want)
    if pattern and ref.stored is not None and sp.issparse(m.matrix):
        want = sorted(k for k in ref.stored if k[0] in ref.rows and k[1] in ref.cols)
        if stored_cells(m) != want:
            return 'stored cells %r, expected %r' % (stored_cells(m), want)
    return None


def close(a, b, tol=1e-9):
    if a != a or b != b:
        return a != a and b != b
    if a in (float('inf'), float('-inf')) or b in (float('inf'), float('-inf')):
        return a == b
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))


def snap(m):
    """An independent image of everything in a labelled matrix."""
    x = m.matrix
    if sp.issparse(x):
        c = x.tocoo()
        d = (x.format, sorted(zip(c.row.tolist(), c.col.tolist(), c.data.tolist())), str(c.data.dtype))
    else:
        d = ('dense', np.array(x).tolist(), str(x.dtype))
    return (list(m.row_items), list(m.col_items), tuple(x.shape), d)
