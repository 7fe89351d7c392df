"""C70: the documented workflow, from corpus files to token distances, gives what the definitions give.

The steps of the tutorial are run one after the other on every small corpus: frequency list, collocate
matrix, association scores, tokens (with bag-of-words contexts or with the words of a dependency relation), token
weights, second-order vectors, distances.  Any of the intermediate results may go through a file: all
subsets of them are tried.  The reference computes the whole chain from the corpus text with plain dictionaries.
"""
import itertools
import math
import os

from mc import env, ref, corp
from mc.checks import c30, c41

ID = 'C70'
LEVEL = 'model_checking'
ASSUMPTIONS = ['a step without any result (no context, no positive score) ends the workflow',
               'rows whose weights sum to almost nothing are not compared: rounding decides them',
               'worker scheduling is the subject of C01']
BOUNDS = ('all corpora of <=5 (thorough 6) words and sentence ends over 3 words besides a second file, x 2 spans, with both kinds of '
          'contexts; all 256 subsets of 8 intermediate results that go through files, packed and not, x 3 corpora; '
          '5 scores x 3 operations x 4 normalisations x 3 metrics x 3 sets of queries x 2 corpora; a corpus of 600 sentences')
WORDS = {'a': ('a', 'N'), 'b': ('b', 'N'), 'B': ('b', 'V'), 'c': ('c\u00e9', 'N'), 'd': ('a', 'V')}
STEPS = ['vocab', 'freq', 'ppmi', 'tokens', 'scores', 'weights', 'soc', 'vectors']
HEADS = [lambda i: i // 2, lambda i: i - 1]


def sentences(text):
    """'ab|Bc' -> sentences of (lemma, pos, id, head, relation); every sentence is a tree."""
    out = []
    for k, part in enumerate(p for p in text.split('|')):
        if part:
            out.append([WORDS[c] + (i + 1, HEADS[len(part) % 2](i + 1), 'nmod:of' if (i + len(part)) % 3 else 'a')
                        for i, c in enumerate(part)])
    return out


def items(sents):
    out = []
    for s in sents:
        out += [('t', t[0], t[1], t[0]) for t in s] + [('s',)]
    return out


def sums(cells):
    rs, cs = {}, {}
    for (r, c), v in cells.items():
        rs[r] = rs.get(r, 0) + v
        cs[c] = cs.get(c, 0) + v
    return rs, cs


def score(cells, meas, rows=None):
    rs, cs = sums(cells)
    n = sum(rs.values())
    out = {}
    for (r, c), a in cells.items():
        if rows is None or r in rows:
            v = c30.define(meas, a, rs[r] - a, cs[c] - a, n - rs[r] - cs[c] + a)
            if v is None:
                return None
            out[r, c] = v
    return out


def near(x, y, tol=2e-4):
    return abs(x - y) <= tol * max(1.0, abs(y))


def compare(name, m, rows, cols, want, skip=()):
    if set(m.row_items) != set(rows) or len(m.row_items) != len(set(rows)):
        return '%s: rows %r, expected %r' % (name, m.row_items, sorted(rows))
    if set(m.col_items) != set(cols) or len(m.col_items) != len(set(cols)):
        return '%s: columns %r, expected %r' % (name, m.col_items, sorted(cols))
    got = corp.cells(m)
    for r in rows:
        if r not in skip:
            for c in cols:
                if c not in skip and not near(got.get((r, c), 0.0), want.get((r, c), 0.0)):
                    return '%s: %s at %s is %r, expected %r' % (name, r, c, got.get((r, c), 0.0), want.get((r, c), 0.0))
    return None


def distance(u, v, metric):
    if metric == 'cosine':
        a, b = math.sqrt(sum(x * x for x in u)), math.sqrt(sum(x * x for x in v))
        return 1 - (sum(x * y for x, y in zip(u, v)) / (a * b) if a and b else 0.0)
    if metric == 'euclidean':
        return math.sqrt(sum((x - y) ** 2 for x, y in zip(u, v)))
    return sum(abs(x - y) for x, y in zip(u, v))


def run_case(case, work):
    env.load()
    from nephosem import Vocab, TypeTokenMatrix, ItemFreqHandler, ColFreqHandler, TokenHandler, compute_association, \
        compute_distance
    from nephosem.specutils.mxcalc import compute_token_weights, compute_token_vectors
    from nephosem.models.deprel import DepRelHandler
    from mc import dep
    names = ['one.txt', 'sub/two.txt'] + ['f%d' % i for i in range(len(case['files']) - 2)]
    names = names[:len(case['files'])]
    sents = [sentences(t) for t in case['files']]
    texts = [items(s) for s in sents]
    fids = [os.path.splitext(n)[0] for n in names]
    fn = corp.write(work, [corp.render_dep(s) for s in sents], names=names)
    s = corp.base_settings(work, **dict(corp.DEP, token='lemma/pos/fid/lid'))
    s['left-span'], s['right-span'] = case['l'], case['r']
    mask, route, w = case.get('mask', 0), case['route'], case.get('workers', 1)
    meas, op, norm, metric = (case.get(k, d) for k, d in (('meas', 'ppmi'), ('op', 'weightedmean'), ('norm', 'l1'),
                                                          ('metric', 'cosine')))

    def through(step, obj):
        """The object itself, or what a file of it gives back."""
        k = STEPS.index(step)
        if not mask >> k & 1:
            return obj
        p = os.path.join(work, 'out', 'toy.%s' % step)
        if step == 'vocab':
            obj.save(p)
            return Vocab.load(p)
        pack = bool((case.get('pack', 1) + k) % 2)
        obj.save(p + ('.pac' if pack else ''), pack=pack, verbose=False)
        return TypeTokenMatrix.load(p + ('.pac' if pack else ''), pack=pack)

    # the reference, step by step, besides the results
    counts = ref.item_freq(texts)
    vocab = through('vocab', ItemFreqHandler(settings=s, workers=w).build_item_freq(fnames=list(fn)))
    if vocab.get_dict() != counts:
        return 'frequencies %r, expected %r' % (vocab.get_dict(), counts)
    query = [q for q in case['query'] if q in counts]
    if not query:
        return None
    pairs = ref.col_freq(texts, case['l'], case['r'])
    freq = ColFreqHandler(settings=s, row_vocab=vocab, col_vocab=vocab, workers=w).build_col_freq(fnames=list(fn))
    if freq is None or not pairs:
        return None if freq is None and not pairs else 'no matrix although words meet'
    freq = through('freq', freq)
    e = compare('counts', freq, counts, counts, pairs)
    if e:
        return e
    nf, cf = Vocab(freq.sum(axis=1)), Vocab(freq.sum(axis=0))
    ppmi = through('ppmi', compute_association(freq, nfreq=nf, cfreq=cf, meas='ppmi'))
    rp = score(pairs, 'ppmi')
    e = compare('ppmi', ppmi, counts, counts, rp)
    if e:
        return e

    if route == 'bow':
        contexts = {t: {k for k in left + right} for l in
                    ref.tokens(texts, fids, case['l'], case['r'], set(query), tok_fmt='lemma/pos').values() for t, left, right in l}
        base, bn, bc, rb = freq, nf, cf, pairs
    else:
        macros = [c41.mac((None, 0), 1, 0), c41.mac((None, 0), 0, 1, edges={1: '(a)$'})]
        tok = [dict(m, t={'lemma': 1, 'pos': 1, 'fid': 1, 'lid': 1}) for m in macros]
        real = lambda ms: [dep.real_macro((m['nodes'], m['edges']), m['target'], m['feature'], m['t'], m['f'], {'deprel': 1}, mid=i)
                           for i, m in enumerate(ms)]
        rt = c41.expected(sents, names, tok, query, 'token')
        contexts = {}
        for t, c in rt:
            contexts.setdefault(t, set()).add(c)
        rb = c41.expected(sents, names, macros, list(counts), 'type')
        if rb:
            h = DepRelHandler(s, workers=w, targets=vocab, mode='type')
            h.read_templates(macros=real(macros))
            base = h.build_dependency(fnames=list(fn))
            e = compare('relations', base, {r for r, _ in rb}, {c for _, c in rb}, rb)
            if e:
                return e
            bn, bc = Vocab(base.sum(axis=1)), Vocab(base.sum(axis=0))
    if not any(contexts.values()):
        return None
    targets = vocab.subvocab(query)
    if route == 'bow':
        tokens = TokenHandler(targets, settings=s, workers=w).retrieve_tokens(fnames=list(fn))
    else:
        h = DepRelHandler(s, workers=w, targets=targets, mode='token')
        h.read_templates(macros=real(tok))
        tokens = h.build_dependency(fnames=list(fn))
    tokens = through('tokens', tokens)
    words = {c for cs in contexts.values() for c in cs}
    if set(tokens.row_items) != set(contexts) or set(tokens.col_items) != words:
        return 'tokens %r with %r, expected %r' % (tokens.row_items, tokens.col_items, contexts)

    sub = base.submatrix(row=case['query'] if case['r'] % 2 else targets.get_item_list(), col=tokens.col_items).drop(axis=1)
    scores = through('scores', compute_association(sub, nfreq=bn, cfreq=bc, meas=meas))
    rs = score(rb, meas, query)
    if rs is None:
        return None
    if meas != 'ppmi' and op == 'multiplication' and any(abs(v) < 1e-6 for v in rs.values()):
        return None
    weights = through('weights', compute_token_weights(tokens, scores))
    rw = {(t, c): rs.get(('/'.join(t.split('/')[:2]), c), 0.0) for t, cs in contexts.items() for c in cs}
    e = compare('weights', weights, contexts, words, rw)
    if e:
        return e

    soc = ppmi.submatrix(row=weights.col_items).drop(axis=1)
    dims = sorted({c for (r, c), v in rp.items() if r in words and v})
    if soc is None or not dims:
        return None if soc is None and not dims else 'second order: %r, expected the columns %r' % (soc, dims)
    soc = through('soc', soc)
    e = compare('second order', soc, words, dims, rp)
    if e:
        return e
    vectors = through('vectors', compute_token_vectors(weights, soc, operation=op, normalization=norm))
    rv, skip = {}, set()
    for t, cs in contexts.items():
        tot = sum(rw[t, c] for c in cs)
        row = []
        for d in dims:
            terms = [rw[t, c] * rp.get((c, d), 0.0) for c in cs]
            if op == 'multiplication':
                row.append(math.prod(x for x in terms if x))
            else:
                row.append(sum(terms))
        if op == 'weightedmean':
            if abs(tot) < 1e-3 and any(rw[t, c] for c in cs):
                skip.add(t)
                continue
            row = [x / tot if tot else 0.0 for x in row]
        z = 0.0
        if norm != 'no':
            z = {'l1': sum(map(abs, row)), 'l2': math.sqrt(sum(x * x for x in row)), 'max': max(map(abs, row))}[norm]
            if 0 < z < 1e-3:
                skip.add(t)
                continue
        for d, x in zip(dims, row):
            rv[t, d] = x / z if z else x
    e = compare('vectors', vectors, contexts, dims, rv, skip)
    if e:
        return e
    dist = compute_distance(vectors, metric=metric)
    vec = {t: [rv.get((t, d), 0.0) for d in dims] for t in contexts if t not in skip}
    flat = {t for t, v in vec.items() if 0 < max(map(abs, v)) < 1e-3}
    rd = {(t, u): 0.0 if t == u else distance(vec[t], vec[u], metric) for t in vec for u in vec}
    return compare('distances', dist, contexts, contexts, rd, skip | flat)


SECOND = 'aBbc|ba'
LONG = ['abBc|acbaBc|d|abcd|ccab', 'bBacd|dd|aBcab|b|acdcB', 'ab|bcda']
QUERY = [['a/N'], ['a/N', 'b/V'], ['b/N', 'c\u00e9/N', 'zz/N', 'a/N']]


def shards(tier):
    n = 5 if tier == 'quick' else 6
    return [('corpus', i, 16, n) for i in range(16)] + [('mask', i, 8) for i in range(8)] + \
        [('param', i, 16) for i in range(16)] + [('long', i) for i in range(2)]


def cases(shard):
    n = 0
    if shard[0] == 'corpus':
        for k in range(shard[3] + 1):
            for t in itertools.product('abB|', repeat=k):
                t = ''.join(t)
                if '||' in t or t.startswith('|') or t.endswith('|'):
                    continue
                for route, (l, r), second in (('bow', (1, 1), SECOND), ('bow', (2, 1), 'ab'), ('dep', (2, 1), SECOND)):
                    n += 1
                    if n % shard[2] == shard[1]:
                        yield {'files': [t, second], 'l': l, 'r': r, 'route': route, 'query': QUERY[n % 2]}
    elif shard[0] == 'mask':
        for mask in range(256):
            for pack in (0, 1):
                for route, files in (('bow', LONG[:2]), ('dep', LONG[:2]), ('bow', LONG)):
                    n += 1
                    if n % shard[2] == shard[1]:
                        yield {'files': files, 'l': 2, 'r': 2, 'route': route, 'query': QUERY[n % 3], 'mask': mask, 'pack': pack,
                               'workers': 1 + n % 2}
    elif shard[0] == 'param':
        for meas, op, norm, metric, q, files, route in itertools.product(
                ['ppmi', 'pmi', 'lik', 'dice', 'deltap'], ['addition', 'weightedmean', 'multiplication'],
                ['l1', 'l2', 'max', 'no'], ['cosine', 'euclidean', 'cityblock'], QUERY, (LONG[:2], LONG), ('bow', 'dep')):
            n += 1
            if n % shard[2] == shard[1]:
                yield {'files': files, 'l': 1, 'r': 3, 'route': route, 'query': q, 'meas': meas, 'op': op, 'norm': norm,
                       'metric': metric}
    else:
        letters = 'abBcd'
        text = lambda k: '|'.join(''.join(letters[(i * i * (k + 1) + j * (i // 7 + k) + j * j) % 5] for j in range(2 + (i * 3 + k) % 9))
                                  for i in range(150))
        for mask in (0, 255):
            yield {'files': [text(k) for k in range(4)], 'l': 4, 'r': 4, 'route': ('bow', 'dep')[shard[1]], 'query': ['c\u00e9/N'],
                   'mask': mask, 'workers': 3}


def run_shard(shard, ctx):
    corp.fresh(ctx.work)
    for case in cases(shard):
        ctx.ran()
        ctx.state(repr(case))
        ctx.trans(len(STEPS) + 1)
        ok, d = ctx.attempt(lambda: run_case(case, ctx.work), 'workflow:%s' % shard[0], case)
        if ok and d:
            ctx.fail('workflow:%s' % shard[0], '%s for %r' % (d, case), case)
        ctx.sample(case, 1)


def replay(case, ctx):
    ctx.work = env.SCRATCH
    corp.fresh(ctx.work)
    ok, d = ctx.attempt(lambda: run_case(case, ctx.work), 'replay', case)
    if ok and d:
        ctx.fail('replay', d, case)
