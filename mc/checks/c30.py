"""C30: association measures equal their contingency-table definitions.

All two-by-two tables with small counts for every measure (as a one-cell matrix with marginal
frequencies from a larger reference), all 2x2 matrices with their own marginals, all row and
column selections and orders of a matrix with reference marginals.
"""
import itertools
import math

import numpy as np

from mc import env, mats, wide
from mc.mats import Ref

ID = 'C30'
LEVEL = 'model_checking'
ASSUMPTIONS = ['frequency matrices store no zeros',
               'tables in which a marginal total that the measure divides by is zero are undefined and not judged',
               'log ratio is 0 when the collocate never occurs without the node (convention of the code)',
               'results are single precision']
BOUNDS = ('all tables with cells 0..4 (thorough 0..6, and multiples up to 10^6) x 10 measures, each through the matrix '
          'interface and the cell functions; all 2x2 count matrices over {absent,1,2,5} with own marginals; all '
          'row/column subsets and orders of 6 3x3 matrices with reference marginals and totals; matrices of 11x14 and 40x25 '
          'with own and with larger marginals; all 2x2 matrices over {absent,1,half,top} of ten storage types; '
          'wide matrices of 300 to 70 000 labels')
MEAS = ['pmi', 'ppmi', 'lik', 'llik', 'chisq', 'zscore', 'dice', 'deltap', 'deltapColl', 'logratio']
TOL = 2e-6


def define(meas, a, b, c, d):
    """a: both, b: node without collocate, c: collocate without node, d: neither.  None: undefined."""
    n = a + b + c + d
    r1, r2, c1, c2 = a + b, c + d, a + c, b + d
    if meas in ('pmi', 'ppmi'):
        v = math.log(a * n / (r1 * c1))
        return max(0.0, v) if meas == 'ppmi' else v
    if meas in ('lik', 'llik'):
        if not c2:
            return None
        return 2 * sum(o * math.log(o * n / (r * k)) for o, r, k in ((a, r1, c1), (b, r1, c2), (c, r2, c1), (d, r2, c2)) if o)
    if meas == 'chisq':
        if not (r1 and r2 and c1 and c2):
            return None
        return n * (a * d - b * c) ** 2 / (r1 * r2 * c1 * c2)
    if meas == 'zscore':
        e = r1 * c1 / n
        return (a - e) / math.sqrt(e)
    if meas == 'dice':
        return 2 * a / (r1 + c1)
    if meas == 'deltap':
        return None if not r2 else a / r1 - c / r2
    if meas == 'deltapColl':
        return None if not c2 else a / c1 - b / c2
    if meas == 'logratio':
        if c == 0:
            return 0.0
        return None if not r2 else math.log((a / r1) / (c / r2))


def near(x, y, scale=1.0):
    return abs(x - y) <= TOL * max(1.0, abs(y), scale)


def vocab(d):
    from nephosem import Vocab
    return Vocab(dict(d))


def table(case):
    from nephosem.specutils import mxcalc
    from nephosem import TypeTokenMatrix as T
    import scipy.sparse as sp
    a, b, c, d = case['t']
    n = a + b + c + d
    m = T(sp.csr_matrix([[a]]), ['n/N'], ['k/N'])
    nf = vocab({'n/N': a + b, 'rest': c + d})
    cf = vocab({'k/N': a + c, 'rest': b + d})
    for meas in MEAS:
        want = define(meas, a, b, c, d)
        if want is None:
            continue
        for kw in ({}, {'N': n}):
            got = mxcalc.compute_association(m, nf, cf, meas=meas, **kw)
            x = got['n/N', 'k/N']
            if not near(x, want, n if meas in ('lik', 'llik') else 1):
                return '%s of %r is %r, expected %r' % (meas, case['t'], x, want)
            if want == 0 and meas in ('pmi', 'ppmi', 'logratio') and abs(x) > 1e-12:
                return '%s of %r is %r, not zero' % (meas, case['t'], x)
            if got.row_items != ['n/N'] or got.col_items != ['k/N']:
                return 'labels'
        f = {'pmi': mxcalc.calc_pmi, 'ppmi': mxcalc.calc_ppmi, 'lik': mxcalc.calc_lik, 'llik': mxcalc.calc_lik,
             'chisq': mxcalc.calc_chisq, 'zscore': mxcalc.calc_zscore, 'dice': mxcalc.calc_dice,
             'deltap': mxcalc.calc_deltap, 'deltapColl': mxcalc.calc_deltap_coll, 'logratio': mxcalc.calc_log_ratio}[meas]
        if not near(f(a, c, b, d), want, n if meas in ('lik', 'llik') else 1):
            return 'cell function of %s of %r is %r, expected %r' % (meas, case['t'], f(a, c, b, d), want)
        if meas != 'llik':
            x = mxcalc.pairwise_association(a, c, b, d, meas=meas)
            if not near(x, want, n if meas == 'lik' else 1):
                return 'pairwise %s of %r is %r, expected %r' % (meas, case['t'], x, want)
    x, want = mxcalc.calc_mi(a, c, b, d), define('pmi', a, b, c, d) / math.log(2)
    if not near(x, want):
        return 'calc_mi of %r is %r, expected %r' % (case['t'], x, want)
    for pos in (True, False):
        want = define('ppmi' if pos else 'pmi', a, b, c, d)
        x = mxcalc.compute_ppmi(m, nf, cf, positive=pos)['n/N', 'k/N']
        if not near(x, want):
            return 'compute_ppmi(positive=%r) of %r is %r, expected %r' % (pos, case['t'], x, want)
    return None


def cellwise(m, ref, nf, cf, n, measures, **kw):
    """All cells of the measure matrices of m against the definition."""
    from nephosem.specutils import mxcalc
    for meas in measures:
        if meas.startswith('fast'):
            pos = meas == 'fast+'
            name = 'ppmi' if pos else 'pmi'
            if kw.get('own'):
                got = mxcalc.compute_ppmi(m, positive=pos) if not pos else mxcalc.compute_ppmi(m)
            else:
                got = mxcalc.compute_ppmi(m, vocab(nf), vocab(cf), positive=pos)
        else:
            name = meas
            got = mxcalc.compute_association(m, vocab(nf), vocab(cf), N=kw.get('N'), meas=meas)
        if list(got.row_items) != ref.rows or list(got.col_items) != ref.cols:
            return '%s: labels %r %r' % (meas, got.row_items, got.col_items)
        v = mats.arr(got)
        for i, r in enumerate(ref.rows):
            for j, c in enumerate(ref.cols):
                a = ref.val(r, c)
                if not a:
                    want = 0.0
                else:
                    want = define(name, a, nf[r] - a, cf[c] - a, n - nf[r] - cf[c] + a)
                    if want is None:
                        continue
                if not near(v[i, j], want, n if name in ('lik', 'llik') else 1):
                    return '%s of %s %s is %r, expected %r' % (meas, r, c, v[i, j], want)
    return None


def raw(m, ref, nf, cf, n, measures):
    """The measures of a bare matrix: marginals as lists, as arrays, or those of the matrix itself."""
    from nephosem.specutils import mxcalc
    import numpy as np
    nl, cl = [nf[r] for r in ref.rows], [cf[c] for c in ref.cols]
    for meas, form in itertools.product(measures, (list, np.array, None)):
        kw = {} if form is None else {'nfreq': form(nl), 'cfreq': form(cl)}
        v = mxcalc.calc_association(m.matrix, N=n, meas=meas, **kw).toarray()
        for i, r in enumerate(ref.rows):
            for j, c in enumerate(ref.cols):
                a = ref.val(r, c)
                want = define(meas, a, nf[r] - a, cf[c] - a, n - nf[r] - cf[c] + a) if a else 0.0
                if not near(v[i, j], want, n if meas in ('lik', 'llik') else 1):
                    return 'calc_association: %s of %s %s is %r, expected %r' % (meas, r, c, v[i, j], want)
    return None


def own(case):
    pat = case['pat']
    ref = mats.from_pattern(['b', 'a'], ['x', 'b'], pat) if len(pat) == 4 else \
        mats.from_pattern(['a'], ['y', 'x'], pat) if case['wide'] else mats.from_pattern(['b', 'a'], ['x'], pat)
    m = mats.real(ref, case['fmt'])
    nf = {r: sum(ref.val(r, c) for c in ref.cols) for r in ref.rows}
    cf = {c: sum(ref.val(r, c) for r in ref.rows) for c in ref.cols}
    n = sum(nf.values())
    image = mats.snap(m)
    # degenerate columns: only the measures that are defined for every table
    full = [x for x in MEAS if all(define(x, ref.val(r, c), nf[r] - ref.val(r, c), cf[c] - ref.val(r, c),
                                          n - nf[r] - cf[c] + ref.val(r, c)) is not None
                                   for r, c in ref.stored)]
    e = cellwise(m, ref, nf, cf, n, full + ['fast+', 'fast-'])
    e = e or cellwise(m, ref, nf, cf, n, ['fast+', 'fast-'], own=True)
    e = e or raw(m, ref, nf, cf, n, full)
    if e is None and mats.snap(m) != image:
        return 'the matrix was changed'
    return e


BIG = [(3, None, 1, 2, 5, None, 7, 1, 4), (1, 1, 1, 1, 1, 1, 1, 1, 1), (9, None, None, None, 9, None, None, None, 9),
       (100, 3, None, 2, None, 1, 5, 6, 7), (1, 20, 3, 40, 5, 60, 7, 80, 9), (None, None, 4, None, 2, None, 6, None, None)]


def sub(case):
    pat = BIG[case['m']]
    R, C = ['r1', 'r0', 'r2'], ['r1', 'c0', 'c2']
    whole = mats.from_pattern(R, C, pat)
    extra = case['extra']      # frequencies outside the matrix: reference is larger
    nf = {r: sum(whole.val(r, c) for c in C) + extra for r in R}
    cf = {c: sum(whole.val(r, c) for r in R) + extra for c in C}
    nf['other'] = 50 + case.get('more', (0, 0))[0]
    cf['other'] = 50 + case.get('more', (0, 0))[1]
    n = max(sum(nf.values()), sum(cf.values()))
    if case['N']:
        n = case['N'] + n
    ref = whole.select(case['rows'], case['cols'])
    m = mats.real(whole, 'csr').submatrix(row=list(case['rows']), col=list(case['cols']))
    return cellwise(m, ref, nf, cf, n, MEAS + ([] if case['N'] else ['fast+', 'fast-']) if sum(nf.values()) == n
                    else MEAS, N=n if case['N'] else None)


def large(case):
    n, k, f, fmt, extra = case['n'], case['k'], case['f'], case['fmt'], case['extra']
    val = [lambda i: i % 97 + 1, lambda i: 10 ** 6 if i % 10 == 0 else 1, lambda i: i + 1][f]
    R = ['w%d' % i for i in range(n - 3)] + ['w', '1', '\u00e9']
    C = ['w%d' % i for i in range(k - 1, -1, -1)]
    ref = mats.from_pattern(R, C, [val(i) if i % (f + 2) != 1 or i % k == i // k % k else None for i in range(n * k)])
    m = mats.real(ref, fmt)
    if case['own']:
        nf = {r: sum(ref.val(r, c) for c in C) for r in R}
        cf = {c: sum(ref.val(r, c) for r in R) for c in C}
        return cellwise(m, ref, nf, cf, sum(nf.values()), ['fast+', 'fast-'], own=True)
    nf = {r: sum(ref.val(r, c) for c in C) + extra * i for i, r in enumerate(R)}
    cf = {c: sum(ref.val(r, c) for r in R) + extra * i for i, c in enumerate(C)}
    a, b = sum(nf.values()), sum(cf.values())
    tot = max(a, b) + 1000
    nf['other'], cf['other'] = tot - a, tot - b
    return cellwise(m, ref, dict(list(nf.items())[::-1]), cf, tot, MEAS + ['fast+', 'fast-'], N=None)


DTYPES = {'bool': 1, 'int8': 127, 'uint8': 255, 'int16': 32767, 'uint16': 65535, 'int32': 2 ** 31 - 1, 'uint32': 2 ** 32 - 1,
          'int64': 10 ** 12, 'float32': 2 ** 24, 'float64': 10 ** 12}


def width(case):
    """Values at the limits of the type in which the matrix stores them."""
    top = DTYPES[case['dtype']]
    pat = [None if v is None else {'1': 1, 'h': max(1, top // 2), 't': top}[v] for v in case['pat']]
    ref = mats.from_pattern(['b', 'a'], ['x', 'b'], pat)
    m = mats.real(ref, case['fmt'], case['dtype'])
    nf = {r: sum(ref.val(r, c) for c in ref.cols) for r in ref.rows}
    cf = {c: sum(ref.val(r, c) for r in ref.rows) for c in ref.cols}
    if case['extra'] is None:
        return cellwise(m, ref, nf, cf, sum(nf.values()), ['fast+', 'fast-'], own=True)
    for i, d in enumerate((nf, cf)):
        for k in d:
            d[k] += case['extra']
    a, b = sum(nf.values()), sum(cf.values())
    tot = max(a, b) + top
    nf['other'], cf['other'] = tot - a, tot - b
    # the measures with differences of large products lose their digits: only the others
    return cellwise(m, ref, nf, cf, tot, ['pmi', 'ppmi', 'zscore', 'dice', 'deltap', 'deltapColl', 'logratio', 'fast+', 'fast-'])


def shards(tier):
    return [('wide', i) for i in range(8)] + [('width', d) for d in sorted(DTYPES)] + [('table', i, 16) for i in range(16)] + [('own', i, 8) for i in range(8)] + [('sub', i) for i in range(len(BIG))] + [('large', i, 4) for i in range(4)]


def cases(shard, tier):
    if shard[0] == 'width':
        for pat in itertools.product([None, '1', 'h', 't'], repeat=4):
            for fmt in ('csr', 'csc', 'coodups') if any(pat) else ():
                for extra in (None, 0, 7):
                    yield {'kind': 'width', 'dtype': shard[1], 'pat': pat, 'fmt': fmt, 'extra': extra}
    elif shard[0] == 'large':
        num = 0
        for n, k in ((11, 14), (14, 11), (40, 25)):
            for f in range(3):
                for fmt in ('csr', 'csc', 'unsorted', 'dups'):
                    for own_, extra in ((True, 0), (False, 0), (False, 13)):
                        num += 1
                        if num % shard[2] == shard[1]:
                            yield {'kind': 'large', 'n': n, 'k': k, 'f': f, 'fmt': fmt, 'own': own_, 'extra': extra}
    elif shard[0] == 'table':
        hi = 5 if tier == 'quick' else 8
        vals = list(range(hi)) + ([50] if tier == 'quick' else [11, 50])
        for k, t in enumerate(itertools.product(vals, repeat=4)):
            if t[0] and k % shard[2] == shard[1]:
                yield {'kind': 'table', 't': t}
        if shard[1] == 0:
            for t in itertools.product((1, 1000, 999999), (0, 10 ** 6), (0, 5, 10 ** 6), (10 ** 5, 10 ** 9)):
                yield {'kind': 'table', 't': t}
    elif shard[0] == 'own':
        vals = (None, 1, 2, 5) if tier == 'quick' else (None, 1, 2, 3, 5, 12)
        n = 0
        for pat in itertools.chain(itertools.product(vals, repeat=4), itertools.product(vals, repeat=2)):
            if not any(pat):
                continue
            for fmt in ('csr', 'csc', 'unsorted', 'dups'):
                for wide in (True, False):
                    n += 1
                    if n % shard[2] == shard[1] and (len(pat) == 2 or wide):
                        yield {'kind': 'own', 'pat': pat, 'fmt': fmt, 'wide': wide}
    else:
        R, C = ['r1', 'r0', 'r2'], ['r1', 'c0', 'c2']
        sel = lambda l: [p for r in (1, 2, 3) for p in itertools.permutations(l, r)]
        for rows, cols in itertools.product(sel(R), sel(C)):
            for extra, N in ((0, None), (3, None), (3, 10), (0, 1000)):
                yield {'kind': 'sub', 'm': shard[1], 'rows': rows, 'cols': cols, 'extra': extra, 'N': N}
            for more in ((7, 0), (0, 9)):       # the sums of the two frequency lists differ
                yield {'kind': 'sub', 'm': shard[1], 'rows': rows, 'cols': cols, 'extra': 1, 'N': None, 'more': more}


RUN = {'large': large, 'width': width, 'table': table, 'own': own, 'sub': sub}


def run_shard(shard, ctx):
    env.load()
    if shard[0] == 'wide':
        wide.run(ctx, wide.ppmi, 'wide', list(wide.cases(fulls=(True,)))[shard[1]::8])
        return
    for case in cases(shard, ctx.tier):
        ctx.ran()
        ctx.trans(len(MEAS))
        ctx.state(repr(case))
        ok, d = ctx.attempt(lambda: RUN[case['kind']](case), 'assoc:' + case['kind'], case)
        if ok and d:
            ctx.fail('assoc:' + case['kind'], '%s in %r' % (d, case), case)
        ctx.sample(case, 1)


def replay(case, ctx):
    env.load()
    if 'wide' in case:
        wide.replay(ctx, wide.ppmi, case)
        return
    ok, d = ctx.attempt(lambda: RUN[case['kind']](case), 'replay', case)
    if ok and d:
        ctx.fail('replay', d, case)
