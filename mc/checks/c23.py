"""C23: saved matrices load back identical.

All small matrices in every storage x operations that produce matrices x file names x layouts x
encodings for one save and load; all sequences of saves, moves and loads over two names and both
layouts, against a model of the stored matrices; tables written as CSV and read back.
"""
import itertools
import os
import shutil

import numpy as np
import scipy.sparse as sp

from mc import env, mats, wide
from mc.mats import EX
from mc.checks import c20

ID = 'C23'
LEVEL = 'model_checking'
ASSUMPTIONS = ['the name of an unpacked matrix does not end in .pac',
               'CSV: labels are not words that pandas takes for missing values or numbers']
BOUNDS = ('60 fill patterns of matrices up to 2x3 x 6 storages x 3 data types x 15 file names x 2 layouts x 3 encodings '
          '(one varying from a default, pairs for thorough); 14 producing operations; all sequences of <=3 (thorough '
          '4) steps of save (4 matrices, 2 names, 2 layouts), move and load; matrices of 12x11, 11x40 and 120x97, wide '
          'matrices of 300 to 70 000 labels')
ROWS = ['b/N', '\u00e9t\u00e9 "q\\'] + ['w%d' % i for i in range(118)]
COLS = ['x', "it's", '\u00df/\u00fc\x85', '#', '*', ' lead', '[0]'] + ['w%d' % i for i in range(90, 0, -1)]
FMTS = ['csr', 'csc', 'coo', 'unsorted', 'dups', 'coodups', 'dense', 'square']
NAMES = ['m', 'm.pac', 'm.wcmx.freq', 'm.wcmx.freq.pac', 'd.ir/m.x', '\u00e9 m',
         'm.meta', 'm.npz', 'm.npy.x', 'a.model', '.m', 'm.zip', 'm.pac.x', 'm..', '1.5']
ENCS = ['utf-8', 'latin-1', 'utf-16']


def patterns():
    out = [(1, 1, p) for p in itertools.product((None, EX, 2), repeat=1)]
    out += [(1, 2, p) for p in itertools.product((None, EX, 2), repeat=2)]
    out += [(2, 2, p) for p in itertools.product((None, EX, 3), repeat=4) if p.count(None) != 2]
    out += [(2, 3, p) for p in [(1, 2, 3, 4, 5, 6), (1, None, 3, None, None, -6), (None,) * 6, (EX, 2, EX, None, 5, EX)]]
    return out


def large():
    out = []
    for n, m in ((12, 11), (11, 40), (120, 97)):
        out.append((n, m, [(None, None, EX, i % 1000 - 300, None)[(i * i + i // m) % 5] for i in range(n * m)]))
        out.append((n, m, [i * 7919 % 4001 + 2 ** 31 * (i % 3) or None for i in range(n * m)]))
        out.append((n, m, [i % 9 + 1 if i // m % 4 == 0 else None for i in range(n * m)]))
    return out


def build(n, m, pat, fmt, dt):
    dense = fmt in ('dense', 'square')
    rows, cols = ROWS[:n], COLS[:m]
    if fmt == 'square':
        pat = [0, 4, 4, 0] if n == m == 2 else [0] if n * m == 1 else None
        if n > 10:
            m = n
            pat = [abs(i // n - i % n) for i in range(n * n)]
        if pat is None:
            return None, None
        cols = rows
    if dt == 'frac':
        pat = [v if v in (None, EX) else v / 3.0 for v in pat]
    ref = mats.from_pattern(rows, cols, pat, dense)
    m_ = mats.real(ref, 'dense' if dense else fmt, {'int': int, 'frac': float, 'bool': bool}[dt])
    if dt == 'bool':
        ref = ref.map(lambda v: 1 if v else 0)
    return ref, m_


def produce(m):
    """Ways to get a matrix from a matrix."""
    from nephosem import TypeTokenMatrix as T
    return {
        'copy': lambda: m.copy(), 'T': lambda: m.transpose(), 'sub': lambda: m.submatrix(row=m.row_items[::-1]),
        'subc': lambda: m.submatrix(col=m.col_items[1:]), 'reorder': lambda: m.reorder(m.col_items[::-1], axis=1),
        'gt': lambda: m > 1, 'lt': lambda: m < 3, 'mul': lambda: m.multiply(m > 1), 'mulT': lambda: m.transpose().multiply(m.transpose()),
        'cat0': lambda: m.concatenate(T(m.matrix.copy(), ['p', 'q'], list(m.col_items))),
        'cat1': lambda: m.concatenate(T(m.matrix.copy(), list(m.row_items), ['p', 'q', 'r']), axis=1),
        'dense': lambda: m.todense(), 'merge': lambda: m.merge(T(m.matrix.copy(), ['p', 'q'], list(m.col_items))),
        'used': lambda: (m[m.row_items[0], m.col_items[0]], m)[1],
    }


def like(a, want, sparse, dtype):
    """a (loaded) against an image of what was saved."""
    got = mats.snap(a)
    if got[:3] != want[:3]:
        return 'labels or shape %r, expected %r' % (got[:3], want[:3])
    if (got[3][0] == 'dense') != (want[3][0] == 'dense'):
        return 'a %s matrix was loaded, expected %s' % (got[3][0], want[3][0])
    if got[3][1:] != want[3][1:]:
        return 'values %r, expected %r' % (got[3], want[3])
    return None


def one(case, work):
    from nephosem import TypeTokenMatrix as T
    d = os.path.join(work, 'c23')
    if os.path.isdir(d):
        shutil.rmtree(d)
    os.makedirs(os.path.join(d, 'd.ir'))
    ref, m = build(case['n'], case['m'], [tuple(v) if isinstance(v, list) else v for v in case['pat']], case['fmt'], case['dtype'])
    if ref is None:
        return None
    if case.get('op'):
        try:
            m = produce(m)[case['op']]()
        except (NotImplementedError, AttributeError):
            return None
        ref = None
        if m is None:
            return None
    before = mats.snap(m)
    name = os.path.join(d, case['name'])
    kw = {} if case['enc'] == 'utf-8' else {'encoding': case['enc']}
    if case['rel']:
        here = os.getcwd()
        os.chdir(d)
        name = case['name']
    try:
        if case['pack']:
            m.save(name, **kw)
        else:
            m.save(name, pack=False, **kw)
        if mats.snap(m) != before:
            return 'saving changed the matrix'
        kw['pack'] = case['pack']
        files = tree(d)
        base = case['name'][:-4] if case['name'].endswith('.pac') else case['name']
        want = {base + '.pac'} if case['pack'] else {case['name'] + '.meta',
                                                     case['name'] + ('.npz' if sp.issparse(m.matrix) else '.npy')}
        if set(files) != want:
            return 'files %r, expected %r' % (sorted(files), sorted(want))
        for again in range(2):
            w = T.load(name, **kw)
            e = like(w, before, None, None)
            if e:
                return e
            if tree(d) != files:
                return 'loading changed the stored files to %r' % sorted(tree(d))
        if case['pack']:      # both ways to name a package
            other = (name[:-4] if name.endswith('.pac') else name + '.pac')
            e = like(T.load(other, **kw), before, None, None)
            if e:
                return e
        if not m.equal(w) or not w.equal(m):
            return 'not equal after loading'
        if ref is not None:
            if not sp.issparse(w.matrix):
                ref.dense = True
            e = c20.lookups(w, ref)
            if e:
                return 'after loading: ' + e
        # what was loaded can be saved again, over the old one
        w.row_items[0] = 'new'
        w2 = T(w.matrix, w.row_items, w.col_items)
        image = mats.snap(w2)
        w2.save(name, **kw)
        return like(T.load(name, **kw), image, None, None)
    finally:
        if case['rel']:
            os.chdir(here)


def tree(d):
    out = {}
    for x, _, fs in os.walk(d):
        for f in fs:
            p = os.path.join(x, f)
            with open(p, 'rb') as h:
                out[os.path.relpath(p, d)] = h.read()
    return out


def csv(case, work):
    from nephosem import TypeTokenMatrix as T
    ref, m = build(case['n'], case['m'], [tuple(v) if isinstance(v, list) else v for v in case['pat']], case['fmt'], case['dtype'])
    if ref is None:
        return None
    p = os.path.join(work, 't.csv')
    kw = {} if case['enc'] == 'utf-8' else {'encoding': case['enc']}
    if case['sep'] != '\t':
        kw['sep'] = case['sep']
    m.to_csv(p, **kw)
    for sparse in (True, False):
        w = T.read_csv(p, index_col=0, issparse=sparse, **kw)
        if sp.issparse(w.matrix) != sparse:
            return 'issparse=%r gives %s' % (sparse, type(w.matrix))
        e = mats.differs(w, ref, pattern=False)
        if e:
            return e
    return None


def steps():
    out = []
    for k in range(4):
        for n in ('a', 'b.c'):
            out += [('save', k, n, True), ('save', k, n, False)]
    out += [('move', 'a', 'b.c', True), ('move', 'b.c', 'a', True), ('move', 'a', 'b.c', False), ('both', 'a')]
    return out


def seq(ops, work):
    """File history: the model maps (name, layout) to the image of the matrix saved last."""
    from nephosem import TypeTokenMatrix as T
    d = os.path.join(work, 'c23s')
    if os.path.isdir(d):
        shutil.rmtree(d)
    os.makedirs(d)
    ms = [build(2, 3, [1, None, 3, None, EX, -6], 'csr', 'int')[1], build(1, 2, [4, 5], 'dense', 'frac')[1],
          build(2, 2, [None, 7, None, None], 'csc', 'frac')[1],
          build(1, 2, [8, -5], 'dense', 'frac')[1]]
    im = [mats.snap(m) for m in ms]
    have, held = {}, []
    p = lambda n: os.path.join(d, n)
    for op in ops:
        if op[0] == 'save':
            _, k, n, pack = op
            ms[k].save(p(n), pack=pack, verbose=False)
            have[(n, pack)] = im[k]
        elif op[0] == 'move':
            _, n, n2, pack = op
            if (n, pack) not in have:
                return 'skip'
            if pack:
                os.replace(p(n + '.pac'), p(n2 + '.pac'))
            else:
                for e in ('.npz', '.npy'):
                    if os.path.exists(p(n2 + e)) and not os.path.exists(p(n + e)):
                        os.remove(p(n2 + e))
                for e in ('.meta', '.npz', '.npy'):
                    if os.path.exists(p(n + e)):
                        shutil.copyfile(p(n + e), p(n2 + e))      # over the old bytes, as cp does
                        os.remove(p(n + e))
            have[(n2, pack)] = have.pop((n, pack))
        else:                      # pack what is there unpacked
            if ('a', False) not in have:
                return 'skip'
            T.load(p('a'), pack=False).save(p('a'))
            have[('a', True)] = have[('a', False)]
        for (n, pack), want in have.items():
            w = T.load(p(n), pack=pack)
            held.append((w, want))
            e = like(w, want, None, None)
            if e:
                return 'after %r, loading %r (packed: %r): %s' % (op, n, pack, e)
        for w, want in held:       # what was loaded before is no window on the files
            e = like(w, want, None, None)
            if e:
                return 'after %r, a matrix loaded before it: %s' % (op, e)
        stray = [f for f in tree(d) if not any(f == n + '.pac' if pack else f in (n + '.meta', n + '.npz', n + '.npy')
                                               for n, pack in have)]
        if stray:
            return 'after %r, left behind: %r' % (op, stray)
    for m, i in zip(ms, im):
        if mats.snap(m) != i:
            return 'a saved matrix was changed'
    return None


def shards(tier):
    return [('wide', i) for i in range(8)] + [('one', f, dt) for f in FMTS for dt in ('int', 'frac', 'bool')] + [('ops', f) for f in FMTS if f not in ('coo', 'coodups')] + \
        [('large', f) for f in FMTS] + \
        [('csv',)] + [('seq', i) for i in range(len(steps()))]


def cases(shard, tier):
    if shard[0] == 'large':
        f = shard[1]
        for n, m, pat in large():
            if f in ('dense', 'square') and EX in pat:
                pat = [None if v == EX else v for v in pat]
            if f not in ('coo', 'coodups'):
                for enc, s in ((ENCS[0], '\t'), (ENCS[1], ','), (ENCS[2], '\t')):
                    if f != 'unsorted' and n < 100:
                        yield {'kind': 'csv', 'n': n, 'm': m, 'pat': pat, 'fmt': f, 'dtype': 'int', 'enc': enc, 'sep': s}
                    yield {'kind': 'one', 'n': n, 'm': m, 'pat': pat, 'fmt': f, 'dtype': 'int', 'op': 'T' if s == ',' else 'copy',
                           'name': 'm', 'pack': s == ',', 'enc': enc, 'rel': False}
            for dt in ('int', 'frac', 'bool'):
                for pack in (True, False):
                    yield {'kind': 'one', 'n': n, 'm': m, 'pat': pat, 'fmt': f, 'dtype': dt, 'name': 'm', 'pack': pack,
                           'enc': 'utf-8', 'rel': False}
    elif shard[0] == 'one':
        _, f, dt = shard
        for n, m, pat in patterns():
            base = {'kind': 'one', 'n': n, 'm': m, 'pat': pat, 'fmt': f, 'dtype': dt}
            if f in ('dense', 'square') and EX in pat:
                continue
            for name, pack, enc, rel in itertools.product(NAMES, (True, False), ENCS, (False, True)):
                if not pack and name.endswith('.pac'):
                    continue
                odd = (name != 'm') + (enc != 'utf-8') + rel
                if odd > (1 if tier == 'quick' else 2) or (tier == 'quick' and odd and dt != 'int'):
                    continue
                yield dict(base, name=name, pack=pack, enc=enc, rel=rel)
    elif shard[0] == 'ops':
        for n, m, pat in patterns():
            for op in ('copy', 'T', 'sub', 'subc', 'reorder', 'gt', 'lt', 'mul', 'mulT', 'cat0', 'cat1', 'dense', 'merge', 'used'):
                if (n, m) not in ((2, 3), (2, 2)) or shard[1] in ('dense', 'square') and EX in pat:
                    continue
                if (n, m) == (2, 2) and (op in ('cat1', 'subc') or tier == 'quick' and None in pat and EX in pat):
                    continue
                if not any(isinstance(v, int) and v for v in pat):
                    continue
                for pack in (True, False):
                    yield {'kind': 'one', 'n': n, 'm': m, 'pat': pat, 'fmt': shard[1], 'dtype': 'int', 'op': op,
                           'name': 'm', 'pack': pack, 'enc': 'utf-8', 'rel': False}
    elif shard[0] == 'csv':
        for n, m, pat in patterns():
            for f, dt, enc, s in itertools.product(('csr', 'csc', 'dense', 'square'), ('int', 'frac'), ENCS, ('\t', ',')):
                if f in ('dense', 'square') and EX in pat:
                    continue
                yield {'kind': 'csv', 'n': n, 'm': m, 'pat': pat, 'fmt': f, 'dtype': dt, 'enc': enc, 'sep': s}
    else:
        st = steps()
        if st[shard[1]][0] == 'save':
            for depth in range(0, 3 if tier == 'quick' else 4):
                for rest in itertools.product(st, repeat=depth):
                    yield {'kind': 'seq', 'ops': [st[shard[1]]] + list(rest)}


def run_case(case, work):
    if case['kind'] == 'one':
        return one(case, work)
    if case['kind'] == 'csv':
        return csv(case, work)
    return seq([tuple(o) for o in case['ops']], work)


def run_shard(shard, ctx):
    env.load()
    if shard[0] == 'wide':
        wide.run(ctx, wide.store, 'wide', list(wide.cases(packs=True))[shard[1]::8], ctx.work)
        return
    for case in cases(shard, ctx.tier):
        sig = '%s:%s' % (case['kind'], case.get('op') or case.get('fmt', 'history'))
        ok, d = ctx.attempt(lambda: run_case(case, ctx.work), sig, case)
        if ok and d == 'skip':
            continue
        ctx.ran()
        ctx.state(repr(case))
        ctx.trans(len(case.get('ops', '....')))
        if ok and d:
            ctx.fail(sig, '%s in %r' % (d, case), case)
        ctx.sample(case, 1)


def replay(case, ctx):
    env.load()
    if 'wide' in case:
        wide.replay(ctx, wide.store, case, env.SCRATCH)
        return
    ok, d = ctx.attempt(lambda: run_case(case, env.SCRATCH), 'replay', case)
    if ok and d and d != 'skip':
        ctx.fail('replay', d, case)
