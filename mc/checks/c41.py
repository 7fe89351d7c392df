"""C41: dependency features and targets are exact counts of the macro matches.

All small dependency corpora x macros through the real handler, compared with counts made from a brute-force
search for the pattern and the documented shape of target and feature strings.
"""
import itertools
import os
import re

from mc import env, corp, dep

ID = 'C41'
LEVEL = 'model_checking'
ASSUMPTIONS = ['a value whose condition has no such group is written as *',
               'the queries are compared with the attributes of the word; conditions with a group capture the whole value where '
               'queries are given', 'a sentence that is not one tree is skipped',
               'worker scheduling is the subject of C01']
BOUNDS = ('quick: all trees of <=3 words x all labels (2 lemmas, 2 parts of speech, 2 relations; 3 words: 1 in 3; 4 words: 1 in 128) x 44 macros; '
          'all corpora of <=3 sentences over 6 sentences in <=2 files x macro subsets x 7 query vocabularies x 2 modes x '
          '2 worker counts; corpora of 1, 2 and 11 files with sentences of 11 to 15 words; thorough: all labels up to 3 words, 4 words 1 in 16, all combinations of corpora and settings')
REL = ['a', 'nmod:of']
LEM, POSX = r'(.+)', r'(\w+)'


def mac(shape, target, feature=-1, nodes=None, edges=None, t=None, f=None, ids=None):
    """A macro: parent vector, index of target and feature node, conditions that differ from the default."""
    k = len(shape)
    ids = ids or list(range(1, k + 1))
    nc = {ids[i]: {'lemma': LEM, 'pos': POSX} for i in range(k)}
    for i, c in (nodes or {}).items():
        nc[ids[i]].update(c)
    ec = {(ids[shape[i]], ids[i]): {'deprel': (edges or {}).get(i, '(.+)')} for i in range(1, k)}
    return {'nodes': nc, 'edges': ec, 'target': ids[target], 'feature': -1 if feature < 0 else ids[feature],
            't': t or {'lemma': 1, 'pos': 1}, 'f': f or {'lemma': 1, 'pos': 1}}


P2, L3, V3 = (None, 0), (None, 0, 1), (None, 0, 0)
L4, V4, Y4, W4 = (None, 0, 1, 2), (None, 0, 0, 0), (None, 0, 1, 1), (None, 0, 0, 1)
MACROS = [mac(P2, 0), mac(P2, 1), mac(P2, 0, 1), mac(P2, 1, 0), mac(P2, 0, 0), mac((None,), 0), mac((None,), 0, 0),
          mac(P2, 1, ids=[2, 1]), mac(P2, 0, ids=[3, 7]), mac(P2, 1, 0, ids=[2, 1]),
          mac(P2, 1, edges={1: '(a)$'}), mac(P2, 1, edges={1: r'\w+'}), mac(P2, 1, edges={1: r'(\w+):?'}),
          mac(P2, 1, nodes={0: {'lemma': '.+'}}), mac(P2, 0, nodes={1: {'lemma': '.+'}}), mac(P2, 1, nodes={1: {'lemma': '.+'}}),
          mac(P2, 0, 1, nodes={1: {'pos': '(N)'}}), mac(P2, 1, 0, t={'lemma': 1}, f={'pos': 1, 'lemma': 1}),
          mac(P2, 1, t={'pos': 1, 'lemma': 1}, f={'lemma': 1}), mac(P2, 1, t={'pos': 1}, f={'pos': 1}),
          mac(P2, 1, nodes={0: {'lemma': '(c)(.*)'}}, f={'lemma': 2, 'pos': 1}),
          mac(L3, 0), mac(L3, 1), mac(L3, 2), mac(L3, 2, 0), mac(L3, 0, 2),
          mac(V3, 0), mac(V3, 1), mac(V3, 2), mac(V3, 1, 2), mac(V3, 2, 1), mac(V3, 1, ids=[3, 1, 2]),
          mac(V3, 1, edges={1: '(a)', 2: '.+'}), mac(V3, 0, nodes={1: {'pos': 'N$'}})]
BIG = [mac(L4, 3), mac(V4, 1), mac(V4, 0), mac(Y4, 2), mac(Y4, 1), mac(W4, 1), mac(W4, 3), mac(W4, 2, 3), mac(W4, 0),
       mac(P2, 1, nodes={1: {'word': LEM}}, t={'word': 1, 'pos': 1})]


def group(rx, val, gid):
    m = re.match(rx, val)
    try:
        return m.group(gid)
    except Exception:
        return '*'


def target_string(m, words, emb, fid, mode):
    v = m['target']
    out = []
    for a, g in m['t'].items():
        if a in ('fid', 'lid'):
            if mode == 'token':
                out.append(fid if a == 'fid' else str(words[emb[v]]['lid']))
        else:
            out.append(group(m['nodes'][v][a], words[emb[v]][a], g))
    return '/'.join(out)


def feature_string(m, words, rels, emb):
    def node(v):
        if v == m['target'] and m['feature'] == -1:
            return '#T#'
        return '/'.join(group(m['nodes'][v][a], words[emb[v]][a], g) for a, g in m['f'].items())

    if m['feature'] != -1:
        return node(m['feature'])

    def tree(v):
        parts = []
        for (h, d), c in m['edges'].items():
            if h == v:
                head = '%s:%s' % (group(c['deprel'], rels[emb[d]]['deprel'], 1), node(d))
                parts.append((head, head + tree(d)))
        if not parts:
            return ''
        if len(parts) == 1:
            return '->' + parts[0][1]
        parts.sort(key=lambda x: x[0])
        return '->[' + ','.join(p for _, p in parts) + ']'

    root = [v for v in m['nodes'] if v not in {d for _, d in m['edges']}][0]
    return node(root) + tree(root)


def expected(files, names, macros, queries, mode):
    out = {}
    for sents, name in zip(files, names):
        lid = 0
        fid = os.path.splitext(name)[0]       # the path below the corpus directory
        for s in sents:
            words, heads, rels = {}, {}, {}
            for lemma, pos, i, h, rel in s:
                lid += 1
                words[i] = {'lemma': lemma, 'word': lemma, 'pos': pos, 'lid': lid}
                heads[i], rels[i] = h, {'deprel': rel}
            lid += 1
            if not tree(s):
                continue
            for m in macros:
                for emb in dep.embeddings(words, heads, rels, (m['nodes'], m['edges'])):
                    w = words[emb[m['target']]]
                    if queries and '/'.join(w[a] for a in m['t'] if a not in ('fid', 'lid')) not in queries:
                        continue
                    k = (target_string(m, words, emb, fid, mode), feature_string(m, words, rels, emb))
                    out[k] = out.get(k, 0) + 1
    return out


def build(case, ctx):
    from nephosem.core.vocab import Vocab
    from nephosem.models.deprel import DepRelHandler
    files, names = case['files'], case['names']
    fn = corp.write(ctx.work, [corp.render_dep(f) for f in files], names=names)
    macros = [(MACROS + BIG)[i] for i in case['macros']]
    tt = {'lemma': 1, 'pos': 1, 'fid': 1, 'lid': 1} if case['mode'] == 'token' else None
    macros = [dict(m, t=dict(m['t'], fid=1, lid=1)) if tt or case.get('ids') else m for m in macros]
    q = case['queries']
    want = expected(files, names, macros, q or [], case['mode'])
    kw = {} if q is None else {'targets': Vocab({x: 1 for x in q}) if case['vocab'] else list(q)}
    h = DepRelHandler(corp.base_settings(ctx.work, **corp.DEP), workers=case['workers'], mode=case['mode'], **kw)
    real = [dep.real_macro((m['nodes'], m['edges']), m['target'], m['feature'], m['t'], m['f'], {'deprel': 1}, mid=i if case.get('mids', 1) else 1)
            for i, m in enumerate(macros)]
    h.read_templates(macros=real)
    for again in range(case.get('twice', 1)):
        try:
            mtx = h.build_dependency(fnames=list(fn) if case['list'] else None)
        except ValueError:
            if want:
                raise
            return None
        got = corp.cells(mtx)
        if got != want:
            return 'call %d: cells %r, expected %r' % (again + 1, sorted(got.items()), sorted(want.items()))
        rows, cols = list(mtx.row_items), list(mtx.col_items)
        if len(set(rows)) != len(rows) or set(rows) != {r for r, _ in want}:
            return 'rows %r, expected %r' % (rows, sorted({r for r, _ in want}))
        if len(set(cols)) != len(cols) or set(cols) != {c for _, c in want}:
            return 'columns %r' % (cols,)
    if any(m.matched_nodes for m in real):
        return 'the macros of the caller were changed'
    return None


SENTS = [
    [('boy', 'N', 1, 2, 'a'), ('give', 'V', 2, 0, 'root'), ('c\u00e9', 'N', 3, 2, 'a')],
    [('boy', 'N', 1, 0, 'root'), ('give', 'V', 2, 1, 'nmod:of')],
    [('zoe', 'N', 2, 1, 'a'), ('give', 'V', 1, 0, 'root'), ('zoe', 'N', 3, 1, 'a')],
    [('boy', 'N', 1, 0, 'root')],
    [('boy', 'N', 1, 2, 'a'), ('boy', 'N', 2, 1, 'a'), ('give', 'V', 3, 0, 'root')],        # a cycle: skipped
    [('boy', 'N', 1, 2, 'a'), ('boy', 'N', 2, 3, 'a'), ('boy', 'N', 3, 4, 'nmod:of'), ('give', 'V', 4, 0, 'root')],
]


def tree(s):
    ids = {t[2]: t[3] for t in s}
    for i in ids:
        seen = set()
        while i in ids and i not in seen:
            seen.add(i)
            i = ids[i]
        if i in seen:
            return False
    return True


SETS = [[i] for i in (0, 1, 3, 21, 27, 29)] + [[0, 1], [1, 3], [27, 28], [0, 0], [3, 1, 27], [5, 6], [10, 2, 34], [43]]
QUERIES = [None, [], ['oy/N', 'e/V', 'boy', 'BOY/N', 'boy/NN'], ['boy/N', 'zoe'], ['give/V', 'absent/N'], ['absent/N'], ['zoe/N', 'c\u00e9/N', 'boy/N']]


def long_sentence(n, k, shape):
    up = [lambda j: j - 1, lambda j: 0, lambda j: (j - 1) // 2, lambda j: j - 2 if j > 1 else 0][shape]
    ids = list(range(1, n + 1)) if k % 2 == 0 else list(range(n, 0, -1))
    return [('w%d' % ((j * (k + 1)) % 11 if (j + k) % 3 else j) if j != 4 else 'w', 'NV'[(j + k) % 2], ids[j],
             ids[up(j)] if j else 0, ['a', 'nmod:of', 'conj', 'root'][j % 3 if j else 3]) for j in range(n)]


def large_cases():
    for n, k in ((300, 0), (300, 1), (260, 2)):       # numbers that need more than a byte
        for macros in ([0, 1], [2, 3], [21, 23], [0, 10, 12]):
            yield {'files': [[long_sentence(n, k, k * 2 % 3), long_sentence(n // 2, k, 2)]], 'names': ['f.txt'], 'macros': macros, 'queries': None,
                   'vocab': False, 'mode': ('type', 'token')[k % 2], 'workers': 1, 'list': True}
    for nfiles in (1, 2, 11):
        for n in (11, 15) if nfiles < 3 else (12,):
            files = [[long_sentence(n, k + s, (k + s) % 4) for s in range(3 if nfiles < 3 else 1)] for k in range(nfiles)]
            for mi, macros in enumerate([[i] for i in (0, 1, 2, 5, 12, 16, 20, 21, 23, 25, 27, 29, 31)] +
                                        [list(range(11)), [27, 28, 29, 30, 26, 21, 22, 23, 24, 25, 0, 1], [34, 36, 39]]):
                if max(macros) > 33 and nfiles > 2:
                    continue
                for q in (None, ['w1/N', 'w10/N', 'w/N', 'w1/V', 'w7/N'], ['0/N', '1/V', 'w']):
                    for workers in (1, 3) if nfiles > 1 else (1,):
                        yield {'files': files, 'names': ['f%d.txt' % i for i in range(nfiles)], 'macros': macros, 'queries': q,
                               'vocab': bool(mi % 2), 'mode': ('type', 'token')[mi % 2], 'workers': workers, 'list': True,
                               'ids': mi % 3 == 0}


def shards(tier):
    return [('large', i, 8) for i in range(8)] + [('one', i, 24) for i in range(24)] + [('corpus', i, 16) for i in range(16)]


def cases(shard, tier):
    kind, i, m = shard
    full = tier != 'quick'
    num = 0
    if kind == 'large':
        for num, c in enumerate(large_cases()):
            if num % m == i:
                yield c
    elif kind == 'one':
        lemmas = ['boy', 'cat', 'ant']
        for n in (1, 2, 3, 4):
            for heads in dep.sentence_trees(n):
                for x, (pos, rel) in enumerate(itertools.product(itertools.product('NV', repeat=n),
                                                                 itertools.product(REL, repeat=n))):
                    if n == 3 and x % 3 and not full or n == 4 and x % (16 if full else 128) != sum(heads) * 7 % (16 if full else 128):
                        continue
                    for lem in itertools.product(lemmas[:2], repeat=n) if n < 3 else (('boy', 'Cat', 'ant', 'boy')[:n],
                                                                                     ('cat', 'cat', 'boy', 'ant')[:n]):
                        num += 1
                        if num % m != i:
                            continue
                        s = [(lem[w], pos[w], w + 1, heads[w], rel[w]) for w in range(n)]
                        pool = range(len(MACROS) + (len(BIG) if n > 3 else 0))
                        for mi in pool:
                            if n >= 3 and (mi + num) % 4 and not full:
                                continue
                            yield {'files': [[s]], 'names': ['f.txt'], 'macros': [mi], 'queries': None, 'vocab': False,
                                   'mode': ('type', 'token')[(num + mi) % 2], 'workers': 1, 'list': True}
    else:
        layouts = [[[a]] for a in range(6)] + [[[a, b]] for a in range(6) for b in range(6)]
        layouts += [[[a], [b]] for a in range(6) for b in range(6)]
        layouts += [[[a, b], [c]] for a in range(4) for b in range(6) for c in range(4)] + [[[], [a]] for a in range(6)]
        for li, lay in enumerate(layouts):
            for si, st in enumerate(SETS):
                for qi, q in enumerate(QUERIES):
                    for mode in ('type', 'token'):
                        num += 1
                        if num % m != i or (not full and (num // m) % 3):
                            continue
                        yield {'files': [[SENTS[a] for a in f] for f in lay], 'names': [['f0.txt', 'd.x/g.1.conll'], ['a/f.txt', 'b/f.conll'], ['f', 'b.c/f']][num // m % 3][:len(lay)],
                               'macros': st, 'queries': q, 'vocab': bool((li + si) % 2), 'mode': mode,
                               'workers': 1 + (num // m) % 2, 'list': (li + qi) % 3 > 0, 'ids': (num // m) % 5 == 0,
                               'mids': (num // m) % 4 if len(st) > 1 else 1,
                               'twice': 2 if (num // m) % 7 == 0 else 1}


def one(case, ctx):
    corp.clear(os.path.join(ctx.work, 'corpus'))
    return build(case, ctx)


def run_shard(shard, ctx):
    env.load()
    corp.fresh(ctx.work)
    for case in cases(shard, ctx.tier):
        ctx.ran()
        ctx.trans(len(case['files']) * len(case['macros']))
        ctx.state(repr(case))
        ok, d = ctx.attempt(lambda: one(case, ctx), 'dep:' + shard[0], case)
        if ok and d:
            ctx.fail('dep:' + shard[0], '%s in %r' % (d, case), case)
        ctx.sample(case, 1)


def replay(case, ctx):
    env.load()
    corp.fresh(ctx.work)
    case = dict(case, files=[[[tuple(t) for t in s] for s in f] for f in case['files']])
    ok, d = ctx.attempt(lambda: one(case, ctx), 'replay', case)
    if ok and d:
        ctx.fail('replay', d, case)
