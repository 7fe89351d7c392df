"""C32: token weights and vectors combine exactly the weights of the right context words.

All small position matrices x type weight matrices x assignments of tokens to types for the
weights; all small weight matrices x second-order matrices x permutations of the intermediate
labels for the vectors, all operations and normalisations; both steps chained.
"""
import itertools
import math

import numpy as np

from mc import env, mats

ID = 'C32'
LEVEL = 'model_checking'
ASSUMPTIONS = ['the intermediate labels of the position and weight matrices are in the same order (else ValueError, '
               'as documented)',
               'a product takes the cells in which weight and vector are not zero; the empty product is 1',
               'a weighted mean whose weights sum to zero without all being zero is undefined and not judged']
BOUNDS = ('weights: all 2x2 position matrices over {0,-1,2} x all 2x2 weight matrices over {0,0.5,-1} x 9 assignments of '
          'tokens to types, file names with and without directories, x 2 modes x 2 token formats; vectors: all 2x2 and selected 2x3 weight matrices over '
          '{0,1,-0.5,3} x all 2x2 / 3x2 second-order matrices over {0,2,-1} x orders x 3 operations x 3 normalisations; 12 to 40 tokens of 11 types with 11 to 30 context words, 600 tokens of 300 types; the older weight function with context words in other orders'
          ' and 12 dimensions')
CTX = ['y/N', 'x/V', '\u00e9/N']
# every name begins another one, the last is not in the weight matrix
TYPES = {'lemma/pos': ['b/NP', 'b/N', 'b/NPX'], 'lemma': ['bc', 'b', 'bcd']}
IDS = ['%s/dir/file.x/%d', '%s/f/1%d']


def weights(case):
    from nephosem.specutils import mxcalc
    n = case['n']
    fmt = case['tokfmt']
    cols = CTX[:n]
    types = TYPES[fmt][:2]
    own = [TYPES[fmt][i] for i in case['own']]
    toks = [IDS[(k if case['ids'] < 2 else 0) + case['ids'] & 1] % (t, k) for k, t in enumerate(own)]
    pos = mats.from_pattern(toks, cols, [v or None for v in case['pos']])
    tw = mats.from_pattern(types, cols, [v or None for v in case['tw']])
    order = types if not case['flip'] else types[::-1]
    p, w = mats.real(pos, case['fmt'], int), mats.real(tw.select(order), case['fmt'], float)
    sp_, sw = mats.snap(p), mats.snap(w)
    kw = {}
    if not case['bool']:
        kw['booleanize'] = False
    if fmt == 'lemma':
        kw['tokenFormat'] = 'lemma'
    got = mxcalc.compute_token_weights(p, w, **kw)
    if list(got.row_items) != toks or list(got.col_items) != cols:
        return 'labels %r %r' % (got.row_items, got.col_items)
    for t, ty in zip(toks, own):
        for c in cols:
            x = pos.val(t, c)
            want = (x if not case['bool'] else 1 if x else 0) * (tw.val(ty, c) if ty in types else 0)
            if not mats.close(float(got[t, c]), float(want), 1e-12):
                return 'weight of %s for %s is %r, expected %r' % (c, t, got[t, c], want)
    if mats.snap(p) != sp_ or mats.snap(w) != sw:
        return 'an operand was changed'
    # the older function the tutorials import: names of the form type/file/line, columns by name
    if case['ids'] == 3 and case['bool']:
        for o, cs in ((order, cols), (order, cols[::-1]), (order[::-1], cols[1:]), (order, cols + ['zz'])):
            d = older(p, mats.real(tw.select(o, cols[:n]), 'csr', float) if cs == cols else None, o, cs, tw, toks, own, pos)
            if d:
                return d
        if mats.snap(p) != sp_:
            return 'an operand was changed'
    # a different order of the context words is refused, not misread
    if n > 1:
        r = mats.real(tw.select(order, cols[::-1]), 'csr', float)
        try:
            g = mxcalc.compute_token_weights(p, r, **kw)
        except ValueError:
            pass
        else:
            for t, ty in zip(toks, own):
                for c in cols:
                    x = pos.val(t, c)
                    want = (x if not case['bool'] else 1 if x else 0) * (tw.val(ty, c) if ty in types else 0)
                    if not mats.close(float(g[t, c]), float(want), 1e-12):
                        return 'context words in another order: weight of %s for %s is %r' % (c, t, g[t, c])
    return None


def older(p, w, order, cs, tw, toks, own, pos):
    from nephosem.models.typetoken import build_tc_weight_matrix
    if w is None:
        w = mats.real(mats.from_pattern(order, cs, [tw.val(t, c) or None if c != 'zz' else 3 for t in order for c in cs]), 'csr', float)
    def want(t, ty, c):
        return tw.val(ty, c) if ty in order and c in cs and c in pos.cols and pos.val(t, c) else 0
    try:
        g = build_tc_weight_matrix(p, w)
    except ValueError:
        if any(want(t, ty, c) for t, ty in zip(toks, own) for c in pos.cols):
            raise
        return None                  # nothing at all: refused
    if list(g.row_items) != toks or g.matrix.shape != (len(g.row_items), len(g.col_items)):
        return 'older function: labels %r %r, shape %r' % (g.row_items, g.col_items, g.matrix.shape)
    for t, ty in zip(toks, own):
        for c in g.col_items:
            if not mats.close(float(g[t, c]), float(want(t, ty, c)), 1e-12):
                return 'older function: weight of %s for %s is %r, expected %r (context words %r)' % (c, t, g[t, c], want(t, ty, c), cs)
        if any(want(t, ty, c) and c not in g.col_items for c in pos.cols):
            return 'older function: a context word is missing from %r' % (g.col_items,)
    return None


def define(w, soc, tok, ctx, dims, op, norm):
    v = []
    for d in dims:
        terms = [(w.val(tok, c), soc.val(c, d)) for c in ctx]
        if op == 'addition':
            x = sum(a * b for a, b in terms)
        elif op == 'weightedmean':
            s = sum(a for a, _ in terms)
            if s == 0 and any(a for a, _ in terms):
                return None
            x = sum(a * b for a, b in terms) / s if s else 0.0
        else:
            x = 1.0
            for a, b in terms:
                if a and b:
                    x *= a * b
        v.append(float(x))
    if norm != 'no':
        n = sum(abs(x) for x in v) if norm == 'l1' else math.sqrt(sum(x * x for x in v))
        v = [x / n if n else 0.0 for x in v]
    return v


def vectors(case):
    from nephosem.specutils import mxcalc
    n = case['n']
    ctx, toks, dims = CTX[:n], ['b/N/f/1', 'a/N/f/2'][:len(case['w']) // n], ['d2', 'd1']
    w = mats.from_pattern(toks, ctx, [v or None for v in case['w']])
    soc = mats.from_pattern(ctx, dims, [v or None for v in case['soc']])
    wm = mats.real(w, case['fmt'], float)
    order = [ctx[i] for i in case['order']]
    sm = mats.real(soc.select(order), case['fmt2'], float)
    a, b = mats.snap(wm), mats.snap(sm)
    for op, norm in itertools.product(('addition', 'weightedmean', 'multiplication'), ('l1', 'l2', 'no')):
        kw = {} if op == 'addition' else {'operation': op}
        if norm != 'l1':
            kw['normalization'] = norm
        got = mxcalc.compute_token_vectors(wm, sm, **kw)
        if list(got.row_items) != toks or list(got.col_items) != dims:
            return '%s: labels %r %r' % (op, got.row_items, got.col_items)
        for t in toks:
            want = define(w, soc, t, ctx, dims, op, norm)
            if want is None:
                continue
            x = [float(got[t, d]) for d in dims]
            if not all(mats.close(g, v, 1e-9) for g, v in zip(x, want)):
                return '%s normalised %s of %s is %r, expected %r' % (op, norm, t, x, want)
    if mats.snap(wm) != a or mats.snap(sm) != b:
        return 'an operand was changed'
    other = mats.real(soc.select(order[:-1] + ['zz']), 'csr', float)
    try:
        mxcalc.compute_token_vectors(wm, other)
    except ValueError:
        return None
    return 'a second-order matrix with other context words is accepted'


def chain(case):
    """Positions to weights to vectors: each token's vector does not depend on the other tokens."""
    from nephosem.specutils import mxcalc
    toks = ['b/N/f/1', 'a/N/f/2', 'b/N/f/3']
    pos = mats.from_pattern(toks, CTX, [v or None for v in case['pos']])
    tw = mats.from_pattern(['b/N', 'a/N'], CTX, [1, 2, None, 0.5, None, 4])
    soc = mats.from_pattern(CTX[::-1], ['d1', 'd2'], [1, 2, None, 3, 5, None])
    whole = None
    for sel in ([0, 1, 2], [0], [2, 1], [1, 0]):
        p = mats.real(pos.select([toks[i] for i in sel]), 'csr', int)
        w = mxcalc.compute_token_weights(p, mats.real(tw, 'csr', float))
        for op in ('addition', 'weightedmean', 'multiplication'):
            v = mxcalc.compute_token_vectors(w, mats.real(soc, 'csr', float), operation=op)
            for i in sel:
                ty = toks[i][:3]
                ws = mats.from_pattern([toks[i]], CTX, [tw.val(ty, c) if pos.val(toks[i], c) else None for c in CTX])
                want = define(ws, soc, toks[i], CTX, ['d1', 'd2'], op, 'l1')
                x = [float(v[toks[i], d]) for d in ('d1', 'd2')]
                if not all(mats.close(g, y, 1e-9) for g, y in zip(x, want)):
                    return '%s of %s among %r is %r, expected %r' % (op, toks[i], sel, x, want)
    return None


def large(case):
    from nephosem.specutils import mxcalc
    n, k, seed, fmt = case['n'], case['k'], case['seed'], case['fmt']
    form = case['tokfmt']
    types = ['w%d' % i for i in range(case.get('types', 9))] + ['w', 'w10.1']
    if form == 'lemma/pos':
        types = [t + '/' + 'NV'[i % 2] for i, t in enumerate(types)] + ['w1/N', 'w10/V']
    ctx = ['c%d/N' % i for i in range(k - 2)] + ['c/N', 'c1/V']
    toks = ['%s/d.%d/f/%d' % (types[(i * 7 + seed) % len(types)], i % 3, i + 5) for i in range(n)]
    own = [types[(i * 7 + seed) % len(types)] for i in range(n)]
    pos = mats.from_pattern(toks, ctx, [((i * 5 + seed) % 25 - 12 or None) if (i * i + seed) % 4 == 0 else None for i in range(n * k)])
    known = sorted(types)[:-2] if seed % 2 else types[::-1]
    tw = mats.from_pattern(known, ctx, [(i % 9 - (2 if case['neg'] else 0)) / 2.0 or None for i in range(len(known) * k)])
    dims = ['d%d' % i for i in range(12)]
    soc = mats.from_pattern(ctx, dims, [(i * 3 + seed) % 7 / 2.0 - (1 if case['neg'] else 0) or None for i in range(k * 12)])
    kw = {'tokenFormat': 'lemma'} if form == 'lemma' else {}
    w = mxcalc.compute_token_weights(mats.real(pos, fmt, int), mats.real(tw, fmt, float), **kw)
    if list(w.row_items) != toks or list(w.col_items) != ctx:
        return 'labels %r %r' % (w.row_items, w.col_items)
    cells = {}
    for t, ty in zip(toks, own):
        for c in ctx:
            want = tw.val(ty, c) if pos.val(t, c) and ty in known else 0
            cells[(t, c)] = want
            if not mats.close(float(w[t, c]), float(want), 1e-12):
                return 'weight of %s for %s is %r, expected %r' % (c, t, w[t, c], want)
    ref = mats.Ref(toks, ctx, cells)
    h = k // 2
    order = (ctx[::-1], ctx, ctx[:h] + [ctx[h + 1], ctx[h]] + ctx[h + 2:], ctx[:2] + ctx[3:-2] + ctx[2:3] + ctx[-2:])[(seed + seed // 4) % 4]
    for op in ('addition', 'weightedmean', 'multiplication'):
        norm = ('l1', 'l2', 'no')[(seed + len(op)) % 3]
        v = mxcalc.compute_token_vectors(w, mats.real(soc.select(order), fmt, float), operation=op, normalization=norm)
        if list(v.row_items) != toks or list(v.col_items) != dims:
            return '%s: labels %r %r' % (op, v.row_items, v.col_items)
        for t in toks:
            want = define(ref, soc, t, ctx, dims, op, norm)
            if want is None:
                continue
            x = [float(v[t, d]) for d in dims]
            if not all(mats.close(g, y, 1e-7) for g, y in zip(x, want)):
                return '%s normalised %s of %s is %r, expected %r' % (op, norm, t, x, want)
    return None


def shards(tier):
    return [('w', i, 16) for i in range(16)] + [('v', i, 16) for i in range(16)] + [('c', i, 4) for i in range(4)] + \
        [('large', i, 8) for i in range(8)]


def cases(shard, tier):
    kind, i, k = shard
    num = 0
    if kind == 'large':
        for seed in range(4):
            num += 1
            if num % k == i:
                yield {'kind': 'large', 'n': 600, 'k': 11, 'seed': seed, 'neg': False, 'tokfmt': ('lemma', 'lemma/pos')[seed % 2],
                       'fmt': 'csr', 'types': 300}
        for n, kk in ((12, 11), (11, 30), (40, 12)):
            for seed in range(12 if tier == 'quick' else 60):
                for neg in (False, True):
                    for tf in ('lemma', 'lemma/pos'):
                        num += 1
                        if num % k == i:
                            yield {'kind': 'large', 'n': n, 'k': kk, 'seed': seed, 'neg': neg, 'tokfmt': tf,
                                   'fmt': ('csr', 'csc', 'unsorted', 'dups')[seed % 4]}
    elif kind == 'w':
        full = tier != 'quick'
        for pos in itertools.product((0, -1, 2), repeat=4):
            for tw in itertools.product((0, 0.1, -1), repeat=4):
                for own in itertools.product(range(3), repeat=2):
                    num += 1
                    if num % k != i:
                        continue
                    for m in range(16 if full else 1):
                        x = m if full else (num // k) % 16      # quick: the modes in turn
                        yield {'kind': 'w', 'n': 2, 'ids': (num // 3 + num // k // 16) % 4, 'pos': pos, 'tw': tw, 'own': own, 'flip': bool(x & 1),
                               'bool': bool(x & 2), 'tokfmt': 'lemma' if x & 4 else 'lemma/pos', 'fmt': 'csc' if x & 8 else 'csr'}
    elif kind == 'v':
        ws = list(itertools.product((0, 1, -0.5, 3), repeat=4)) + list(itertools.product((0, 3), repeat=2))
        for w in ws:
            n = 2
            for soc in itertools.product((0, 2, -1), repeat=4):
                for order in itertools.permutations(range(2)):
                    for f, f2 in (('csr', 'csr'), ('csr', 'csc'), ('csc', 'csr'), ('unsorted', 'unsorted'), ('dups', 'dups')):
                        num += 1
                        if num % k == i and (tier != 'quick' or (num // k) % 13 == 0):
                            yield {'kind': 'v', 'n': n, 'w': w, 'soc': soc, 'order': order, 'fmt': f, 'fmt2': f2}
        for w in itertools.product((0, 2), repeat=3):
            for soc in itertools.product((0, 1, -1) if tier != 'quick' else (0, 3), repeat=6):
                for order in itertools.permutations(range(3)):
                    num += 1
                    if num % k == i:
                        yield {'kind': 'v', 'n': 3, 'w': w, 'soc': soc, 'order': order, 'fmt': 'csr', 'fmt2': 'csr'}
    else:
        for pos in itertools.product((0, 1) if tier == 'quick' else (0, 1, -3), repeat=9):
            num += 1
            if num % k == i:
                yield {'kind': 'c', 'pos': pos}


RUN = {'large': large, 'w': weights, 'v': vectors, 'c': chain}


def run_shard(shard, ctx):
    env.load()
    for case in cases(shard, ctx.tier):
        ctx.ran()
        ctx.trans({'w': 2, 'v': 10, 'c': 16, 'large': 4}[case['kind']])
        ctx.state(repr(case))
        ok, d = ctx.attempt(lambda: RUN[case['kind']](case), 'tok:' + case['kind'], case)
        if ok and d:
            ctx.fail('tok:' + case['kind'], '%s in %r' % (d, case), case)
        ctx.sample(case, 1)


def replay(case, ctx):
    env.load()
    ok, d = ctx.attempt(lambda: RUN[case['kind']](case), 'replay', case)
    if ok and d:
        ctx.fail('replay', d, case)
