"""C21: matrix arithmetic, masks, sums and equality follow cell-by-cell definitions.

All 2x2 matrices over {absent, explicit zero, values}, 1xn, nx1 and 2x3 ones, sparse (row, column,
unsorted) and dense, integer, fractional and boolean: every unary operation and threshold, and
every pair for the binary ones.
"""
import itertools
import warnings

import numpy as np

from mc import env, mats, wide
from mc.mats import EX, Ref

ID = 'C21'
LEVEL = 'model_checking'
ASSUMPTIONS = ['absent cells of a sparse matrix never pass a threshold other than 0 (as the tests fix it); for <= 0 '
               'and >= 0 only stored cells are judged',
               'equality of sparse matrices whose explicit zeros differ is not judged, except that different values '
               'are never equal',
               'symmetric matrices with equal labels refuse products, masks and concatenation (NotImplementedError)']
BOUNDS = ('all matrices 2x2 over {absent, explicit zero, -1, 2} (256), 1x1..1x3, 3x1, 2x3 patterns x 3 sparse and the '
          'dense storage x int/float x 9 thresholds x 4 comparisons; all pairs (thorough) or every fifth of the pairs '
          '(quick) of 2x2 matrices for product, mask product, equality, both concatenations; 12x11, 11x13 and 40x12 matrices, '
          'wide matrices of 300 to 70 000 labels, matrices of nearly equal values')
THRESH = [-2, -1, -0.5, 0, 0.5, 1, 2, 2.0, 3]
CMP = {'<': lambda a, b: a < b, '<=': lambda a, b: a <= b, '>': lambda a, b: a > b, '>=': lambda a, b: a >= b}
R2 = ['b', 'a', 'w', '1', '#', '*', ''] + ['w%d' % i for i in range(40)]
C2 = ['x', 'b', 'y', 'w', '10'] + ['w%d' % i for i in range(20, 0, -1)]


def space(tier):
    vals = (None, EX, -1, 2)
    out = [(2, 2, p) for p in itertools.product(vals, repeat=4)]
    out += [(1, 1, p) for p in itertools.product(vals, repeat=1)]
    out += [(1, 2, p) for p in itertools.product(vals, repeat=2)]
    out += [(2, 1, p) for p in itertools.product(vals, repeat=2)]
    out += [(1, 3, p) for p in itertools.product((None, EX, 2), repeat=3)]
    out += [(2, 3, p) for p in itertools.product((None, EX, 3) if tier != 'quick' else (None, 3), repeat=6)]
    return out


FMTS = ['csr', 'csc', 'unsorted', 'dups', 'coodups', 'dense']


def large():
    out = []
    for n, m in ((12, 11), (11, 13), (40, 12), (2, 11), (11, 2)):
        out.append((n, m, [(None, EX, i % 7 - 3, None)[(i * i + i // m) % 4] for i in range(n * m)]))
        out.append((n, m, [(i * 31 % 11 - 4) or None if i // m not in (1, n - 1) else None for i in range(n * m)]))
        out.append((n, m, [2 if i % (m + 1) == 0 else None for i in range(n * m)]))
        out.append((n, m, [i % 5 + 1 for i in range(n * m)]))
    return out


def build(n, m, pat, fmt, dtype):
    if fmt == 'dense':
        pat = [0 if v in (None, EX) else v for v in pat]
    ref = mats.from_pattern(R2[:n], C2[:m], pat, fmt == 'dense')
    return ref, mats.real(ref, fmt, dtype)


def shards(tier):
    k = 24
    out = [('wide', i) for i in range(8)] + [('unary', f, i, k) for f in FMTS for i in range(k)]
    out += [('pairs', fa, fb, i, k) for fa, fb in (('csr', 'csr'), ('csr', 'csc'), ('dups', 'csr'), ('csr', 'coodups'), ('dense', 'dense'), ('csr', 'dense'),
                                                  ('dense', 'csr')) for i in range(k)]
    out += [('fine', f, d) for f in FMTS for d in ('float', 'int')]
    out += [('large', f) for f in FMTS] + [('largepairs', fa, fb) for fa, fb in (('csr', 'csr'), ('unsorted', 'csc'), ('dense', 'dense'),
                                                                                 ('csr', 'dense'), ('dense', 'csr'))]
    return out


def unary(case, ctx):
    n, m, pat, fmt, dt = case['n'], case['m'], [tuple(v) if isinstance(v, list) else v for v in case['pat']], case['fmt'], case['dtype']
    dtype = {'int': int, 'float': float, 'bool': bool}[dt]
    ref, mx = build(n, m, pat, fmt, dtype)
    if dt == 'bool':
        ref = ref.map(lambda v: 1 if v else 0)
    R, C = ref.rows, ref.cols
    before = mats.snap(mx)
    sums = {None: sum(ref.cells.values()), 1: {r: sum(ref.val(r, c) for c in C) for r in R},
            0: {c: sum(ref.val(r, c) for r in R) for c in C}}
    for ax in (None, 0, 1):
        got = mx.sum() if ax is None else mx.sum(axis=ax)
        if got != sums[ax]:
            return 'sum over %r is %r, expected %r' % (ax, got, sums[ax])
        if ax is not None and (not isinstance(got, dict) or list(got) != (R if ax == 1 else C)):
            return 'sum over %r has labels %r' % (ax, list(got))
    for ax, labels in ((0, R), (1, C)):
        got = list(mx.count_nonzero(axis=ax))
        want = [sum((ref.val(a, b) if ax == 0 else ref.val(b, a)) != 0 for b in (C if ax == 0 else R)) for a in labels]
        if got != want:
            return 'count_nonzero(%d) is %r, expected %r' % (ax, got, want)
    if fmt != 'dense':
        nostored = [r for r in R if not any((r, c) in ref.stored for c in C)]
        nonz = [r for r in R if not any(ref.val(r, c) for c in C)]
        got = {e: list(mx.empty_rows(explicit=e)) for e in (True, False)}
        if list(mx.empty_rows()) != got[False]:
            return 'the default of empty_rows is not explicit=False'
        if got != {True: nonz, False: nostored}:
            if got == {True: nostored, False: nonz}:
                ctx.fail('empty_rows:flag-inverted', 'empty_rows(explicit=True) gives the rows without stored values %r '
                         'and explicit=False those without other than zeros %r; the documentation says the reverse'
                         % (nostored, nonz), case)
            else:
                return 'empty_rows %r, expected %r' % (got, {True: nonz, False: nostored})
    d = mats.differs(mx.copy(), ref)
    if d:
        return 'copy: ' + d
    if not mx.equal(mx.copy()):
        return 'a matrix is not equal to its copy'
    if dt != 'bool':
        for o, f in CMP.items():
            for t in THRESH:
                try:
                    with warnings.catch_warnings():
                        warnings.simplefilter('ignore')
                        r = {'<': lambda: mx < t, '<=': lambda: mx <= t, '>': lambda: mx > t, '>=': lambda: mx >= t}[o]()
                        prod = mx.multiply(r)
                except NotImplementedError:
                    if ref.square():
                        continue
                    if fmt == 'dense' and list(R) == list(C):
                        continue
                    raise
                if list(r.row_items) != R or list(r.col_items) != C:
                    return '%s %r: labels %r %r' % (o, t, r.row_items, r.col_items)
                a = mats.arr(r).tolist()
                p = mats.arr(prod).tolist()
                for i, x in enumerate(R):
                    for j, y in enumerate(C):
                        inside = fmt == 'dense' or (x, y) in ref.stored
                        want = bool(f(ref.val(x, y), t)) if inside else False
                        if not inside and t == 0 and o in ('<=', '>='):
                            continue
                        if bool(a[i][j]) != want or a[i][j] not in (0, 1):
                            return 'cell %s %s of (matrix %s %r) is %r, expected %r' % (x, y, o, t, a[i][j], want)
                        if p[i][j] != (ref.val(x, y) if want else 0):
                            return 'cell %s %s of matrix.multiply(matrix %s %r) is %r' % (x, y, o, t, p[i][j])
                if fmt != 'dense':
                    # a stored zero that passes stays stored, nothing that fails is stored
                    st = set(mats.stored_cells(prod))
                    hasex = any(ref.cells[k] == 0 for k in ref.stored)
                    if hasex and not (t == 0 and o in ('<=', '>=')):
                        w = {k for k in ref.stored if f(ref.cells[k], t)}
                        if not w <= st:
                            return 'product with (matrix %s %r) keeps %r of %r' % (o, t, st, w)
    if mats.snap(mx) != before:
        return 'the matrix was changed'
    return None


def pair(case):
    fa, fb, n, m, pa, pb = case['fa'], case['fb'], case['n'], case['m'], case['pa'], case['pb']
    ra, a = build(n, m, pa, fa, int)
    rb, b = build(n, m, pb, fb, float)
    R, C = ra.rows, ra.cols
    sa, sb = mats.snap(a), mats.snap(b)
    try:
        p = a.multiply(b)
    except NotImplementedError:
        if not ra.square() and not rb.square():
            raise
        p = None
    if p is not None:
        want = Ref(R, C, {(r, c): ra.val(r, c) * rb.val(r, c) for r in R for c in C}, None, True)
        d = mats.differs(p, want, pattern=False)
        if d:
            return 'product: ' + d
        if p[R[-1], C[-1]] != want.val(R[-1], C[-1]):
            return 'product cannot be looked up'
    for o in (relabel(b, R[::-1], C), relabel(b, R, C[::-1]), relabel(b, R[1:] + R[:1], C), relabel(b, ['q'] + R[1:], C),
              relabel(b, R, C[:-1] + ['q'])):
        if list(o.row_items) == R and list(o.col_items) == C:
            continue
        try:
            p = a.multiply(o)
        except (ValueError, NotImplementedError, KeyError):
            continue        # refused
        oa = mats.arr(o)
        oc = {(r, c): oa[i, j] for i, r in enumerate(o.row_items) for j, c in enumerate(o.col_items)}
        for r in p.row_items:
            for c in p.col_items:
                if p[r, c] != ra.val(r, c) * oc.get((r, c), 0):
                    return 'multiplied with a matrix with the labels %r %r: cell %s %s is %r' % (
                        o.row_items, o.col_items, r, c, p[r, c])
    if (fa == 'dense') == (fb == 'dense'):
        same = all(ra.val(r, c) == rb.val(r, c) for r in R for c in C)
        ex = fa != 'dense' and ra.stored != rb.stored
        got = bool(a.equal(b))
        if got and not same or not got and same and not ex:
            return 'equal is %r' % got
        import copy
        for other in (relabel(b, ['q'] + R[1:], C), relabel(b, R, ['q'] + C[1:]), relabel(b, R[::-1], C)):
            if a.equal(other) and (list(other.row_items) != R or list(other.col_items) != C):
                return 'equal in spite of other labels %r %r' % (other.row_items, other.col_items)
        for ax in (0, 1):
            o = relabel(b, [r + '~2' for r in R], C) if ax == 0 else relabel(b, R, [c + '~2' for c in C])
            try:
                q = a.concatenate(o, axis=ax)
            except NotImplementedError:
                if ra.square() or rb.square():
                    continue
                raise
            for u in (relabel(o, o.row_items, C[::-1]), relabel(o, o.row_items, C[1:] + C[:1])) if ax == 0 else \
                    (relabel(o, R[::-1], o.col_items), relabel(o, R[1:] + R[:1], o.col_items)):
                if (list(u.col_items) == C) if ax == 0 else (list(u.row_items) == R):
                    continue
                try:
                    q = a.concatenate(u, axis=ax)
                except Exception:
                    continue        # refused
                for x in q.row_items:
                    for y in q.col_items:
                        own = (x.endswith('~2') if ax == 0 else y.endswith('~2'))
                        if q[x, y] != (u[x, y] if own else a[x, y]):
                            return 'concatenation %d with the labels %r %r: cell %s %s is %r' % (
                                ax, u.row_items, u.col_items, x, y, q[x, y])
            cells = {(r, c): ra.val(r, c) for r in R for c in C}
            cells.update({(r + '~2' if ax == 0 else r, c if ax == 0 else c + '~2'): rb.val(r, c) for r in R for c in C})
            w = Ref(R + [r + '~2' for r in R] if ax == 0 else R, C if ax == 0 else C + [c + '~2' for c in C], cells, None, True)
            d = mats.differs(q, w, pattern=False)
            if d:
                return 'concatenation %d: %s' % (ax, d)
            for x in w.rows:
                for y in w.cols:
                    if q[x, y] != w.val(x, y):
                        return 'concatenation %d: cell %s %s is %r' % (ax, x, y, q[x, y])
    if mats.snap(a) != sa or mats.snap(b) != sb:
        return 'an operand was changed'
    return None


FINE = {'float': [0.1, 1 / 3., -0.7, 2.0 ** 30 + 1, 1 + 2.0 ** -40, 1 + 2.0 ** -30, -1e-12, 1e-300, 1e15 + 1, 100.5, -2.0 ** 53 + 1, 1e-7],
        'int': [2 ** 24 + 1, 2 ** 31 - 1, -2 ** 31, 2 ** 31, 2 ** 53 + 1, 127, 128, 255, 256, -32769, 65536, 2 ** 33 + 1]}


def fine(case):
    """Numbers which a narrower number type, a tolerance or a rounding would change."""
    import math
    n, m, fmt, dt = case['n'], case['m'], case['fmt'], case['dtype']
    vals = FINE[dt]
    pat = [vals[(i * case['step'] + case['from']) % len(vals)] if (i % 5 != 3) else None for i in range(n * m)]
    ref, a = build(n, m, pat, fmt, float if dt == 'float' else int)
    R, C = ref.rows, ref.cols
    if dt == 'float' and fmt in ('dups', 'coodups'):
        x = mats.arr(a)      # the parts a cell is stored in add up to this
        ref = Ref(R, C, {(r, c): x[i, j] for i, r in enumerate(R) for j, c in enumerate(C) if (r, c) in ref.cells}, ref.stored, ref.dense)

    def near(g, ws):
        return abs(g - math.fsum(ws)) <= 1e-12 * sum(abs(w) for w in ws) if dt == 'float' else g == sum(ws)
    cell = {(r, c): ref.val(r, c) for r in R for c in C}
    if not near(a.sum(), list(cell.values())):
        return 'sum is %r, expected %r' % (a.sum(), math.fsum(cell.values()))
    for ax, labels, of in ((1, R, lambda x: [cell[x, c] for c in C]), (0, C, lambda x: [cell[r, x] for r in R])):
        got = a.sum(axis=ax)
        for x in labels:
            if not near(got[x], of(x)):
                return 'sum of %r is %r, expected %r' % (x, got[x], math.fsum(of(x)))
        got = list(a.count_nonzero(axis=1 - ax))
        if got != [sum(v != 0 for v in of(x)) for x in labels]:
            return 'count_nonzero(%d) is %r' % (1 - ax, got)
    ts = {t for v in vals for t in ((v, math.nextafter(v, 1e300), math.nextafter(v, -1e300)) if dt == 'float' else (v, v + 1, v - 1))}
    for t in sorted(ts):
        for o, f in CMP.items():
            try:
                r = {'<': lambda: a < t, '<=': lambda: a <= t, '>': lambda: a > t, '>=': lambda: a >= t}[o]()
            except NotImplementedError:
                continue
            g = mats.arr(r)
            p = mats.arr(a.multiply(r))
            for i, x in enumerate(R):
                for j, y in enumerate(C):
                    if fmt != 'dense' and (x, y) not in ref.stored:
                        continue
                    want = bool(f(cell[x, y], t))
                    if bool(g[i][j]) != want:
                        return 'cell %s %s of (matrix %s %r) is %r, where the matrix has %r' % (x, y, o, t, g[i][j], cell[x, y])
                    if p[i][j] != (cell[x, y] if want else 0):
                        return 'cell %s %s of the product with (matrix %s %r) is %r' % (x, y, o, t, p[i][j])
    if dt == 'float':
        two = a.multiply(relabel(a, R, C))
        g = mats.arr(two)
        for i, x in enumerate(R):
            for j, y in enumerate(C):
                if g[i][j] != cell[x, y] * cell[x, y]:
                    return 'cell %s %s of the square is %r, expected %r' % (x, y, g[i][j], cell[x, y] ** 2)
    for ax in (0, 1):
        q = a.concatenate(relabel(a, [r + '~' for r in R] if ax == 0 else R, [c + '~' for c in C] if ax == 1 else C), axis=ax)
        g = mats.arr(q)
        for i, x in enumerate(R):
            for j, y in enumerate(C):
                for u in (g[i][j], g[i + len(R)][j] if ax == 0 else g[i][j + len(C)]):
                    if u != cell[x, y]:
                        return 'concatenation %d: cell %s %s is %r, expected %r' % (ax, x, y, u, cell[x, y])
    if fmt != 'dense':
        for (x, y), v in sorted(cell.items()):
            if (x, y) not in ref.stored:
                continue
            w = math.nextafter(v, 1e300) if dt == 'float' else v + 1
            other = {k: u for k, u in ref.cells.items()}
            other[x, y] = w
            b = mats.real(Ref(R, C, other, ref.stored, False), 'csr', float if dt == 'float' else int)
            if a.equal(b) or b.equal(a):
                return 'equal to a matrix with %r instead of %r in the cell %s %s' % (w, v, x, y)
    return None


def relabel(m, rows, cols):
    from nephosem import TypeTokenMatrix
    return TypeTokenMatrix(m.matrix.copy(), rows, cols)


def run_shard(shard, ctx):
    env.load()
    if shard[0] == 'wide':
        wide.run(ctx, wide.arith, 'wide', list(wide.cases())[shard[1]::8])
        return
    if shard[0] == 'fine':
        for n, m in ((1, 1), (1, 12), (12, 1), (3, 4), (12, 11)):
            for step in (1, 5, 7):
                for at in range(12):
                    case = {'kind': 'fine', 'n': n, 'm': m, 'step': step, 'from': at, 'fmt': shard[1], 'dtype': shard[2]}
                    if n * m > 12 and (at % 4 or step == 5):
                        continue
                    ctx.state(repr(case))
                    ctx.ran()
                    ctx.trans(20)
                    ok, d = ctx.attempt(lambda: fine(case), 'fine:' + shard[1], case)
                    if ok and d:
                        ctx.fail('fine:' + shard[1], '%s in %r' % (d, case), case)
        return
    sp = space(ctx.tier)
    if shard[0] in ('unary', 'large'):
        fmt, i, k = shard[1], shard[2] if len(shard) > 2 else 0, shard[3] if len(shard) > 2 else 1
        if shard[0] == 'large':
            sp = large()
        for n, m, pat in sp[i::k]:
            if fmt == 'dense' and EX in pat:
                continue
            for dt in ('int', 'float', 'bool'):
                case = {'kind': 'unary', 'n': n, 'm': m, 'pat': pat, 'fmt': fmt, 'dtype': dt}
                ctx.state(repr(case))
                ctx.ran()
                ctx.trans(10 + 2 * len(CMP) * len(THRESH))
                ok, d = ctx.attempt(lambda: unary(case, ctx), 'unary:' + fmt, case)
                if ok and d:
                    ctx.fail('unary:' + fmt, '%s in %r' % (d, case), case)
        ctx.sample(case, 1)
        return
    if shard[0] == 'largepairs':
        _, fa, fb = shard
        i, k, sp = 0, 1, large()
    else:
        _, fa, fb, i, k = shard
    step = 1 if ctx.tier != 'quick' else 5
    n = 0
    for (na, ma, pa), (nb, mb, pb) in itertools.product(sp[i::k], sp):
        if (na, ma) != (nb, mb) or fa == 'dense' and EX in pa or fb == 'dense' and EX in pb:
            continue
        n += 1
        if 6 >= na * ma > 3 and n % step:
            continue
        if na * ma == 6 and (n // step) % 3:
            continue
        case = {'kind': 'pair', 'n': na, 'm': ma, 'pa': pa, 'pb': pb, 'fa': fa, 'fb': fb}
        ctx.state(repr(case))
        ctx.ran()
        ctx.trans(4)
        sig = 'pair:%s:%s' % (fa, fb)
        ok, d = ctx.attempt(lambda: pair(case), sig, case)
        if ok and d:
            ctx.fail(sig, '%s in %r' % (d, case), case)


def replay(case, ctx):
    env.load()
    if 'wide' in case:
        wide.replay(ctx, wide.arith, case)
        return
    ok, d = ctx.attempt(lambda: unary(case, ctx) if case['kind'] == 'unary' else fine(case) if case['kind'] == 'fine' else pair(case), 'replay', case)
    if ok and d:
        ctx.fail('replay', d, case)
