"""C22: operations never modify their operands and results are independent copies.

Every public operation on every one of a set of matrices (all storages), and every chain of two;
the operands are compared with an image taken before; then each in-place change is made to the
result and the operands compared again, and each change to an operand or argument and the result
compared again.
"""
import itertools
import warnings

import numpy as np
import scipy.sparse as sp

from mc import env, mats
from mc.mats import EX

ID = 'C22'
LEVEL = 'model_checking'
ASSUMPTIONS = ['lookups by label, index or slice may give views of a dense matrix, as numpy does',
               'TypeTokenMatrix(..., deep=False) shares the matrix, as documented',
               'an operation that a kind of matrix does not support leaves everything unchanged']
BOUNDS = ('all ~60 operations and (quick: most) chains of two of them on 12 matrices (4 storages, explicit zeros, symmetric, '
          'single row/column) x 5 in-place changes of the result and of every operand and argument (quick: 2 and 1 for chains)')
R = ['b/N', 'a/N', 'c/N'] + ['w%d' % i for i in range(12)]
C = ['x', 'b/N', 'y'] + ['w%d' % i for i in range(12, 0, -1)]

SRC = [(2, 3, [1, None, 2, 3, EX, None], 'csr'), (2, 3, [1, None, 2, 3, EX, None], 'csc'),
       (2, 3, [1, 4, 2, 3, 5, None], 'unsorted'), (2, 3, [1, 4, EX, 3, 5, None], 'dups'), (2, 3, [1, 0, 2, 3, 0, 5], 'dense'),
       (3, 3, [0, 1, 2, 1, 0, 3, 2, 3, 0], 'square'), (1, 2, [1, 3], 'csr'), (2, 1, [2, None], 'csr'),
       (1, 3, [1, 2, 3], 'dense'), (3, 3, [1, None, 2, None, 1, 3, 4, None, EX], 'csr'),
       (3, 3, [5, 1, 2, 3, 7, 9, 8, 2, 1], 'dense'), (2, 2, [None, None, 3, None], 'csr'), (2, 2, [1, 2, 3, 4], 'csc'),
       (12, 11, [None if i % 3 else i % 13 + 1 for i in range(132)], 'csr'),
       (12, 12, [abs(i // 12 - i % 12) / 8.0 for i in range(144)], 'square'),
       (11, 13, [i % 13 + 1 for i in range(143)], 'dense'), (11, 12, [EX if i % 5 == 0 else i % 4 or None for i in range(132)], 'csc')]


def build(src, dtype=float):
    n, m, pat, fmt = src
    dense = fmt in ('dense', 'square')
    ref = mats.from_pattern(R[:n], R[:m] if fmt == 'square' else C[:m], pat, dense)
    return mats.real(ref, 'dense' if dense else fmt, dtype)


class Unsupported(Exception):
    pass


def table(m):
    """name -> (function of the matrix and its arguments, arguments).  Arguments are operands too."""
    from nephosem import TypeTokenMatrix as T, Vocab
    from nephosem.specutils import mxcalc, mxutils
    rows, cols = list(m.row_items), list(m.col_items)
    v1 = Vocab({r: 20 for r in rows})
    v2 = Vocab({c: 20 for c in cols})
    same = T(m.matrix.copy(), list(rows), list(cols))
    below = T(m.matrix.copy(), [r + '2' for r in rows], list(cols))
    right = T(m.matrix.copy(), list(rows), [c + '2' for c in cols])
    soc = T(sp.csr_matrix(np.arange(1., 1 + 2 * len(cols)).reshape(len(cols), 2)), cols[::-1], ['p', 'q'])
    tw = T(sp.csr_matrix(np.arange(2., 2 + len(cols)).reshape(1, len(cols))), ['b/N'], list(cols))
    t = {}
    t['copy'] = (lambda m: m.copy(), ())
    t['deepcopy'] = (lambda m: m.deepcopy(), ())
    t['rebuild'] = (lambda m: T(m.matrix, m.row_items, m.col_items), ())
    t['todense'] = (lambda m: m.todense(), ())
    t['transpose'] = (lambda m: m.transpose(), ())
    t['get_matrix'] = (lambda m: m.get_matrix(), ())
    t['dataframe'] = (lambda m: m.dataframe, ())
    t['sub:whole'] = (lambda m: m.submatrix(), ())
    t['sub:all'] = (lambda m, a, b: m.submatrix(row=a, col=b), (list(rows), list(cols)))
    t['sub:row'] = (lambda m, a: m.submatrix(row=a), (rows[:1] + ['zz'],))
    t['sub:rows'] = (lambda m, a: m.submatrix(row=a), (list(rows),))
    t['sub:col'] = (lambda m, a: m.submatrix(col=a), (cols[::-1],))
    for ax, l in ((0, rows), (1, cols)):
        t['reorder:%d' % ax] = (lambda m, a, ax=ax: m.reorder(a, axis=ax), (l[::-1],))
        t['reorder:id:%d' % ax] = (lambda m, a, ax=ax: m.reorder(a, axis=ax), (list(l),))
        t['drop:%d' % ax] = (lambda m, ax=ax: m.drop(axis=ax), ())
        for e in (True, False):
            t['drop_empty:%d:%s' % (ax, e)] = (lambda m, ax=ax, e=e: m.drop_empty(axis=ax, explicit=e), ())
        t['sum:%d' % ax] = (lambda m, ax=ax: m.sum(axis=ax), ())
        t['nonzero:%d' % ax] = (lambda m, ax=ax: m.count_nonzero(axis=ax), ())
        t['distance:%d' % ax] = (lambda m, ax=ax: mxcalc.compute_distance(m, axis=ax), ())
        t['euclid:%d' % ax] = (lambda m, ax=ax: mxcalc.compute_distance(m, axis=ax, metric='euclidean'), ())
        t['cosine:%d' % ax] = (lambda m, ax=ax: mxcalc.compute_cosine(m, axis=ax), ())
    t['empty_rows'] = (lambda m: m.empty_rows(), ())
    t['sample'] = (lambda m: m.sample(len(m.row_items), seed=3), ())
    t['gt'] = (lambda m: m > 1, ())
    t['ge'] = (lambda m: m >= -1, ())
    t['lt'] = (lambda m: m < 2, ())
    t['le'] = (lambda m: m <= -1, ())
    t['multiply'] = (lambda m, o: m.multiply(o), (same,))
    t['multiply:self'] = (lambda m: m.multiply(m > 1), ())
    t['equal'] = (lambda m, o: m.equal(o), (same,))
    t['concat:0'] = (lambda m, o: m.concatenate(o, axis=0), (below,))
    t['concat:1'] = (lambda m, o: m.concatenate(o, axis=1), (right,))
    t['merge'] = (lambda m, o: m.merge(o), (below,))
    t['merge:same'] = (lambda m, o: m.merge(o), (same,))
    t['merge_two'] = (lambda m, o: mxutils.merge_two_matrices(m, o), (right,))
    t['merge_two:same'] = (lambda m, o: mxutils.merge_two_matrices(m, o), (same,))
    t['merge_matrices'] = (lambda m, o, q: mxutils.merge_matrices([m, o, q]), (same, below))
    t['merge_matrices:same'] = (lambda m, o: mxutils.merge_matrices([m, o]), (same,))
    t['todict'] = (lambda m, a, b: mxutils.transform_spmatrix_to_dict(m.matrix, a, b), (list(rows), list(cols)))
    t['simrank'] = (lambda m: mxcalc.compute_simrank(m), ())
    t['similar'] = (lambda m: m.most_similar(m.row_items[0], k=1), ())
    for meas in ('ppmi', 'pmi', 'lik', 'chisq', 'zscore', 'dice', 'deltap', 'logratio'):
        t['assoc:' + meas] = (lambda m, a, b, meas=meas: mxcalc.compute_association(m, a, b, N=200, meas=meas), (v1, v2))
    t['ppmi'] = (lambda m, a, b: mxcalc.compute_ppmi(m, a, b), (v1, v2))
    t['ppmi:own'] = (lambda m: mxcalc.compute_ppmi(m), ())
    t['weights'] = (lambda m, w: mxcalc.compute_token_weights(m, w), (tw,))
    t['weights:num'] = (lambda m, w: mxcalc.compute_token_weights(m, w, booleanize=False), (tw,))
    for op in ('addition', 'weightedmean', 'multiplication'):
        for norm in ('l1', 'no'):
            t['vectors:%s:%s' % (op, norm)] = (
                lambda m, s, op=op, norm=norm: mxcalc.compute_token_vectors(m, s, operation=op, normalization=norm), (soc,))
    t['describe'] = (lambda m: m.describe(), ())
    t['print'] = (lambda m: m.print_matrix() + str(m) + repr(m), ())
    t['lookup'] = (lambda m: [m[0], m[rows[0]], m[:, cols[0]], m[:1], m.get_colloc_contexts(rows[0])
                              if sp.issparse(m.matrix) else 0] and None, ())
    return t


NAMES = None


def image(x):
    """An independent image of anything an operation takes or gives."""
    from nephosem import TypeTokenMatrix as T, Vocab
    import pandas as pd
    if isinstance(x, T):
        return mats.snap(x)
    if isinstance(x, Vocab):
        return list(x.freq_dict.items())
    if isinstance(x, pd.DataFrame):
        return [list(x.index), list(x.columns), x.values.tolist()]
    if sp.issparse(x):
        c = x.tocoo()
        return (x.format, sorted(zip(c.row.tolist(), c.col.tolist(), c.data.tolist())))
    if isinstance(x, np.ndarray):
        return x.tolist()
    if isinstance(x, (list, tuple)):
        return [image(e) for e in x]
    if isinstance(x, dict):
        return [(k, image(v)) for k, v in x.items()]
    return x


def changes(x):
    """In-place changes of x: list of functions."""
    from nephosem import TypeTokenMatrix as T, Vocab
    import pandas as pd

    def data():
        mx = x.matrix if isinstance(x, T) else x
        if sp.issparse(mx):
            if mx.nnz:
                mx.data[:] = 1 if mx.dtype == bool and not mx.data[0] else 99
                if mx.dtype == bool:
                    mx.data[:] = False
        else:
            mx[...] = 99 if mx.dtype != bool else ~mx
    out = []
    if isinstance(x, T):
        out = [data, lambda: x.row_items.__setitem__(0, 'new'), lambda: x.col_items.__setitem__(0, 'new'),
               lambda: x.row_items.reverse(), lambda: x.col_items.append('more')]
    elif isinstance(x, Vocab):
        out = [lambda: x.increment('new', 3), lambda: [x.increment(k, 5) for k in x.keys()]]
    elif isinstance(x, pd.DataFrame):
        out = [lambda: x.iloc.__setitem__((slice(None), slice(None)), 99), lambda: x.rename(columns=str.upper, inplace=True)]
    elif sp.issparse(x) or isinstance(x, np.ndarray) and x.ndim:
        out = [data]
    elif isinstance(x, list):
        out = [lambda: x.append('new'), lambda: x.__setitem__(0, 'new')] if x and not isinstance(x[0], T) else []
    elif isinstance(x, tuple):
        out = [f for e in x for f in changes(e)]
    elif isinstance(x, dict):
        out = [lambda: x.update(new=1)] + [f for e in x.values() for f in changes(e)]
    return out


UNSUP = (NotImplementedError, AttributeError, TypeError, ValueError, AssertionError, ZeroDivisionError, IndexError)


def perform(m, names):
    """Apply the chain; returns (operands, results) with operands including every matrix on the way."""
    operands = [m]
    cur = m
    for n in names:
        f, args = table(cur)[n]
        before = [image(o) for o in operands + list(args)]
        try:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                r = f(cur, *args)
        except UNSUP as e:
            r = Unsupported
        after = [image(o) for o in operands + list(args)]
        if before != after:
            i = [a != b for a, b in zip(before, after)].index(True)
            return 'operand %d of %s was changed from %r to %r' % (i, n, before[i], after[i]), None, None
        operands += list(args)
        if r is Unsupported:
            return None, operands, None
        if n != names[-1] or len(operands) == 0:
            operands.append(r)
        cur = r
        last = r
    return None, operands, last


def run_case(case, few=False):
    src, names = tuple(case['src']), list(case['ops'])
    msg, ops, res = perform(build(src), names)
    if msg:
        return msg, False
    if res is None:
        return None, False
    nres = len(changes(res))
    nops = [len(changes(o)) for o in ops]
    # changes of the result leave the operands alone
    for i in range(min(nres, 2) if few else nres):
        if i:
            msg, ops, res = perform(build(src), names)
        before = [image(o) for o in ops]
        changes(res)[i]()
        after = [image(o) for o in ops]
        if before != after:
            k = [a != b for a, b in zip(before, after)].index(True)
            return 'changing the result (change %d) changed operand %d from %r to %r' % (i, k, before[k], after[k]), True
    # changes of an operand leave the result alone
    for j, n in enumerate(nops):
        for i in range(min(n, 1) if few else n):
            msg, ops, res = perform(build(src), names)
            before = image(res)
            changes(ops[j])[i]()
            if image(res) != before:
                return 'changing operand %d (change %d) changed the result' % (j, i), True
    return None, True


def names():
    global NAMES
    if NAMES is None:
        NAMES = sorted(table(build(SRC[0])))
    return NAMES


def shards(tier):
    return [(i, j) for i in range(len(SRC)) for j in range(6)]


def run_shard(shard, ctx):
    env.load()
    from nephosem import TypeTokenMatrix as T
    i, j = shard
    src = SRC[i]
    first = names()
    chains = [(n,) for n in first]
    giving = []
    for n in first:
        _, _, r = perform(build(src), [n])
        if isinstance(r, T):
            giving.append(n)
    # the chains
    light = ('print', 'describe', 'lookup', 'equal', 'similar')
    second = [n for n in first if n not in light]
    if ctx.tier == 'quick':
        g = [n for n in giving if not n.startswith(('assoc', 'vectors', 'drop_empty', 'euclid', 'l', 'ge'))]
        s = [n for n in second if not n.startswith(('assoc', 'vectors', 'sum', 'nonzero', 'euclid', 'gt', 'le'))]
    else:
        g, s = giving, second
    if src[0] < 10:
        chains += list(itertools.product(g, s))
    for k, ch in enumerate(chains):
        if k % 6 != j:
            continue
        case = {'src': src, 'ops': list(ch)}
        ctx.ran()
        sig = 'alias:%s' % ch[-1]
        ok, v = ctx.attempt(lambda: run_case(case, ctx.tier == 'quick' and len(ch) > 1), sig, case)
        if ok:
            msg, did = v
            if did:
                ctx.state(repr(case))
                ctx.trans(len(ch))
            else:
                ctx.count('unsupported')
            if msg:
                ctx.fail(sig, '%s in %r' % (msg, case), case)
    ctx.sample({'src': src, 'ops': list(chains[j])}, 1)


def replay(case, ctx):
    env.load()
    ok, v = ctx.attempt(lambda: run_case(case), 'replay', case)
    if ok and v[0]:
        ctx.fail('replay', v[0], case)
