"""C40: dependency pattern matching finds every embedding of a pattern exactly once.

All dependency trees x word and relation labels, all tree patterns x conditions x node numberings; the
matches the real code reports are compared with a brute-force search. One macro object meets all the
sentences of a shard, so a match that leaks from one sentence to the next is seen too.
"""
import itertools

from mc import env, dep

ID = 'C40'
LEVEL = 'model_checking'
ASSUMPTIONS = ['a condition holds when its regular expression matches at the start of the value, as documented for the '
               'templates (an exact value is written with $)',
               'the sentence has every attribute the pattern names; a pattern node without any condition matches every word']
BOUNDS = ('quick: all trees of <=3 words x all labels (2 parts of speech, 2 relations) x all patterns of <=4 nodes x '
          'conditions, all trees of 4 words x 4 labellings x all patterns, 6 shapes of 12 words x 4 labellings x patterns of <=3 nodes, 52 words with more than 2000 matches, chains of 25 and 300 words x patterns of up to 17 nodes, both node numberings and edge orders; labels in other cases or with a prefix, patterns of 4 to 6 branches on heads of 6 dependents; '
          'thorough: 4 words x all labels, 5 words x 3 labellings, patterns of 5 nodes')
POS = ['N', 'V']
REL = ['a', 'ab']
NC = [r'\w+', '(N)']
EC = [r'\w*', '(a)$']


def patterns(k, full=True):
    """(nodes, edges, edge order); condition assignments of the pattern tree."""
    for num, shape in enumerate(dep.shapes(k)):
        for n, (ns, es) in enumerate(itertools.product(itertools.product(NC, repeat=k),
                                                       itertools.product(EC, repeat=k - 1))):
            # node numbers: the tests and files always call the root 1; any other numbering must do
            ids = list(range(1, k + 1))
            rot = (n + num) % 3
            if rot == 1:
                ids = ids[::-1]
            elif rot == 2:
                ids = [i + 4 for i in ids[1:] + ids[:1]]
            nodes = {ids[i]: {'lemma': '(.+)', 'pos': ns[i]} for i in range(k)}
            if n % 2:
                nodes = dict(reversed(list(nodes.items())))
            edges = {(ids[shape[i]], ids[i]): {'deprel': es[i - 1]} for i in range(1, k)}
            order = list(range(k - 1))
            if (n // 3) % 2:
                order.reverse()
            yield nodes, edges, order


def special():
    """Patterns with conditions on some attributes only, or none at all, or several on one edge."""
    for shape in dep.shapes(1) + dep.shapes(2) + dep.shapes(3):
        k = len(shape)
        for nc in itertools.product([{}, {'pos': 'V$'}, {'lemma': 'w[12]'}], repeat=k):
            for ec in itertools.product([{}, {'deprel': 'ab'}, {'deprel': '(x|a)$'}], repeat=k - 1):
                yield ({i + 1: dict(nc[i]) for i in range(k)},
                       {(shape[i] + 1, i + 1): dict(ec[i - 1]) for i in range(1, k)}, list(range(k - 1)))


def wide(n):
    """Longer sentences: a star, a chain up and down, a comb, a binary tree, two fans."""
    yield (2, 0) + (2,) * (n - 2)
    yield tuple(range(n))
    yield tuple(range(2, n + 1)) + (0,)
    yield (0,) + tuple(1 + 2 * ((i - 1) // 2) for i in range(1, n))
    yield (0,) + tuple((i + 1) // 2 for i in range(1, n))
    yield (n,) * (n // 2) + (1,) * (n - n // 2 - 1) + (0,)


def sentences(n, labels):
    for heads in (broad(n) if n == 7 else dep.sentence_trees(n) if n < 10 else wide(n) if n < 20 else chains(n) if n in (25, 300) else crowd(n)):
        for pos, rel in labels:
            yield heads, pos, rel


def broad(n):
    """A head with many dependents."""
    yield (0,) + (1,) * (n - 1)
    yield (n,) * (n - 1) + (0,)
    yield (2, 0) + (2,) * (n - 3) + (n - 1,)


def stars():
    """Patterns with many branches."""
    for shape in ((None,) + (0,) * 5, (None,) + (0,) * 6, (None,) + (0,) * 4 + (1,), (None, 0, 0, 0, 0)):
        k = len(shape)
        for ids in (list(range(1, k + 1)), list(range(k, 0, -1))):
            for x in range(6):
                yield ({ids[i]: {'lemma': '(.+)', 'pos': NC[(i * x) % 5 == 1]} for i in range(k)},
                       {(ids[shape[i]], ids[i]): {'deprel': EC[(i + x) % 6 == 4]} for i in range(1, k)}, list(range(k - 1))[::1 - 2 * (x % 2)])


def crowd(n):
    """A head with n - 1 dependents, a head with two fans, a long chain."""
    yield (0,) + (1,) * (n - 1)
    yield (2,) * (n // 2) + (0,) + (n // 2 + 1,) * (n - n // 2 - 1) if n < 4 else \
        (0, 1, 1) + tuple(2 + i % 2 for i in range(n - 3))
    yield tuple(range(n))


def chains(n):
    """Deep sentences: a chain, one with a second dependent on every second word, and a chain whose words are numbered down."""
    yield tuple(range(n))
    yield tuple(i - 1 if i % 3 else max(i - 2, 0) for i in range(1, n + 1))
    yield tuple(range(2, n + 1)) + (0,)
    yield (0, 1) + tuple(range(1, n - 1))


def twochains(a, b):
    """A root with chains of a and b nodes."""
    return (None,) + tuple(range(a)) + (0,) + tuple(range(a + 1, a + b))


def chainpats():
    """Deep patterns."""
    for k in (2, 3, 8, 9, 10, 11, 12, 17):
        for shape in (tuple([None] + list(range(k - 1))), tuple([None, 0] + list(range(k - 2)))[:k], tuple([None] + list(range(k - 2)) + [k - 3 if k > 2 else 0])[:k],
                      twochains(k - 2, 1) if k > 2 else (None, 0), twochains(9, k - 10) if k > 10 else (None,) * 0,
                      twochains(k - 10, 9) if k > 10 else (None,) * 0):
            if len(shape) != k:
                continue
            for ids in (list(range(1, k + 1)), list(range(k, 0, -1)), [300 + 7 * i for i in range(k)]):
                for nc, ec in ((NC[0], EC[0]), (NC[0], EC[1])):
                    yield ({ids[i]: {'lemma': '(.+)', 'pos': nc} for i in range(k)},
                           {(ids[shape[i]], ids[i]): {'deprel': ec} for i in range(1, k)}, list(range(k - 1)))


def crowdpats():
    """Patterns with very many matches."""
    for shape in dep.shapes(3) + [(None, 0, 0, 1), (None, 0, 1, 0, 3), (None, 0, 1, 0, 2)]:
        k = len(shape)
        for ids in (list(range(1, k + 1)), list(range(k, 0, -1))):
            for nc, ec in ((NC[0], EC[0]), (NC[0], EC[1])):
                yield ({ids[i]: {'lemma': '(.+)', 'pos': nc} for i in range(k)},
                       {(ids[shape[i]], ids[i]): {'deprel': ec} for i in range(1, k)}, list(range(k - 1)))


def labels(n, which):
    if which == 'odd':           # other cases of letters, and what a condition names further on in the word
        ls = list(itertools.product(itertools.product(['N', 'n', 'VN'], repeat=n), itertools.product(['a', 'A', 'ba'], repeat=n)))
        return ls if n < 3 else ls[::23]
    if which == 'star':
        return labels(n, 2) + [(('N',) * n, ('a', 'a', 'ab') * n), (('N', 'V', 'N', 'N') * n, ('a',) * n)]
    if which == 'all':
        return list(itertools.product(itertools.product(POS, repeat=n), itertools.product(REL, repeat=n)))
    alt = [('N', 'V') * n, ('N', 'N') * n, ('V', 'N', 'N') * n]
    rel = [('a', 'ab') * n, ('a', 'a') * n, ('ab', 'a', 'a') * n, ('a', 'a', 'ab') * n]
    return [(alt[0][:n], rel[0][:n]), (alt[1][:n], rel[1][:n]), (alt[2][:n], rel[2][:n]),
            (alt[1][:n], rel[3][:n])][:which]


def build(heads, pos, rel, rot=0):
    from nephosem.core.graph import SentenceGraph
    n = len(heads)
    words = {i: {'lemma': 'w%d' % i, 'pos': pos[i - 1], 'lid': 10 + i} for i in range(1, n + 1)}
    es = [((heads[i - 1], i), {'deprel': rel[i - 1]}) for i in range(1, n + 1)]
    es = es[rot % n:] + es[:rot % n]
    s = SentenceGraph(nodes={i: dict(a) for i, a in words.items()}, edges={e: dict(a) for e, a in es})
    return s, words, {i: heads[i - 1] for i in words}, {i: {'deprel': rel[i - 1]} for i in words}


def compare(macro, pat, sent, start):
    """The matches the sentence added, against the search."""
    s, words, heads, rels = sent
    want = sorted(sorted(m.items()) for m in dep.embeddings(words, heads, rels, pat))
    new = macro.matched_nodes[start:]
    got = sorted(sorted((v, a['lid'] - 10) for v, a in m.items()) for m in new)
    if got != want:
        return 'matches (pattern node, word) %r, expected %r' % (got, want)
    if len(macro.matched_edges) != len(macro.matched_nodes):
        return '%d lists of edges for %d matches' % (len(macro.matched_edges), len(macro.matched_nodes))
    for m, e in zip(new, macro.matched_edges[start:]):
        if set(e) != set(pat[1]):
            return 'edges %r of a match of the pattern edges %r' % (sorted(e), sorted(pat[1]))
        for (h, d), a in e.items():
            w = m[d]['lid'] - 10
            if a.get('deprel') != rels[w]['deprel']:
                return 'edge %r of match %r carries %r' % ((h, d), m, dict(a))
        for v, a in m.items():
            w = words[a['lid'] - 10]
            if any(a.get(x) != w[x] for x in w):
                return 'node %r of a match carries %r, the word is %r' % (v, dict(a), w)
    return None


class Legacy(object):
    """nephosem.deprel.basic: the same matching on string labels (patterns there contain a node 1 and an edge)."""

    def __init__(self, pat, target, order):
        from nephosem.deprel import basic
        nodes, edges = pat
        es = list(edges.items())
        t = basic.TemplateGraph(nodes={v: '%s/%s' % (c['lemma'].replace('.+', '[^/]+'), c['pos']) for v, c in nodes.items()},
                                edges={es[i][0]: es[i][1]['deprel'] for i in order})
        self.real = basic.FeatureGraph(t, target=target)
        self.b = basic

    def check(self, pat, heads, pos, rel, rot):
        n = len(heads)
        words = {i: {'lemma': 'w%d' % i, 'pos': pos[i - 1]} for i in range(1, n + 1)}
        rels = {i: {'deprel': rel[i - 1]} for i in words}
        if rot % 2:
            s = self.b.SentenceGraph(sentence=['w\t%s\tw%d\t%d\t%d\t%s\n' % (pos[i - 1], i, i, heads[i - 1], rel[i - 1])
                                               for i in words])
        else:
            s = self.b.SentenceGraph(nodes={i: 'w%d/%s' % (i, pos[i - 1]) for i in words},
                                     edges={(heads[i - 1], i): rel[i - 1] for i in words})
        del self.real.matched_nodes[:-1], self.real.matched_edges[:-1]
        start = len(self.real.matched_nodes)
        s.match_feature(self.real)
        got = sorted(sorted((v, int(x[1:].split('/')[0])) for v, x in m.items()) for m in self.real.matched_nodes[start:])
        want = sorted(sorted(m.items()) for m in dep.embeddings(words, {i: heads[i - 1] for i in words}, rels, pat))
        if got != want:
            return 'deprel.basic: matches %r, expected %r' % (got, want)
        for m, e in zip(self.real.matched_nodes[start:], self.real.matched_edges[start:]):
            for (h, d) in pat[1]:
                if e.get((h, d)) != rel[int(m[d][1:].split('/')[0]) - 1]:
                    return 'deprel.basic: edge %r of %r carries %r' % ((h, d), m, e.get((h, d)))
        return None


def shards(tier):
    out = []
    k = 4
    for p in range(24):
        out.append(('all', 3, 'all', p, 24))
    for p in range(24):
        out.append(('all', 4, 4, p, 24))
    for p in range(4):
        out.append(('special', 3, 4, p, 4))
    for p in range(16):
        out.append(('legacy', 3, 4 if tier == 'quick' else 'all', p, 16))
    for p in range(8):
        out.append(('legacy', 4, 2, p, 8))
    for p in range(12):
        out.append(('wide', 12, 4, p, 12))
    for p in range(8):
        out.append(('chain', 25, 4, p, 8))
    for p in range(4):
        out.append(('far', 300, 3, p, 4))
    for p in range(6):
        out.append(('crowd', 52, 1 if tier == 'quick' else 2, p, 6))
    for p in range(8):
        out.append(('odd', 3, 'odd', p, 8))
    for p in range(4):
        out.append(('star', 7, 'star', p, 4))
    if tier != 'quick':
        for p in range(96):
            out.append(('all', 4, 'all', p, 96))
        for p in range(96):
            out.append(('all', 5, 3, p, 96))
        for p in range(64):
            out.append(('five', 5, 1, p, 64))
    return out


def pats(shard, tier):
    kind, n, which, p, m = shard
    if kind == 'special':
        src = special()
    elif kind == 'crowd':
        src = crowdpats()
    elif kind == 'chain':
        src = chainpats()
    elif kind == 'far':
        src = [x for x in chainpats() if len(x[0]) in (2, 3)]
    elif kind == 'star':
        src = stars()
    elif kind == 'odd':
        src = itertools.chain(*[patterns(k) for k in (1, 2, 3)])
    elif kind == 'five':
        src = patterns(5)
    elif kind == 'wide':
        src = itertools.chain(*[patterns(k) for k in (1, 2, 3)])
    else:
        src = itertools.chain(*[patterns(k) for k in (1, 2, 3, 4)])
    for i, x in enumerate(src):
        if i % m == p:
            yield x


def run_shard(shard, ctx):
    env.load()
    kind, n, which, p, m = shard
    for pn, (nodes, edges, order) in enumerate(pats(shard, ctx.tier)):
        pat = (nodes, edges)
        target = list(nodes)[pn % len(nodes)]
        if kind == 'legacy':
            if 1 not in nodes or len(nodes) == 1:
                continue
            old = Legacy(pat, target, order)
        macro = dep.real_macro(pat, target, edge_order=order)
        for k in ([n] if n > 3 else [1, 2, 3]):
            for num, (heads, pos, rel) in enumerate(sentences(k, labels(k, which))):
                case = {'nodes': sorted(nodes.items()), 'edges': sorted(edges.items()), 'order': order, 'heads': heads,
                        'pos': pos, 'rel': rel, 'rot': num % k, 'target': target, 'kind': kind, 'num': num}
                ctx.ran()

                def one():
                    if kind == 'legacy':
                        ctx.trans(1)
                        return old.check(pat, heads, pos, rel, num)
                    start = len(macro.matched_nodes)
                    sent = build(heads, pos, rel, num % k)
                    sent[0].match_pattern(macro)
                    d = compare(macro, pat, sent, start)
                    ctx.trans(1 + len(macro.matched_nodes) - start)
                    return d
                ok, d = ctx.attempt(one, 'match:' + kind, case)
                if not ok or d:
                    if d:
                        ctx.fail('match:' + kind, '%s in %r' % (d, case), case)
                    if kind == 'legacy':
                        old = Legacy(pat, target, order)
                    macro = dep.real_macro(pat, target, edge_order=order)
                elif num % 64 == 63:
                    del macro.matched_nodes[:-1], macro.matched_edges[:-1]
        ctx.state(repr((kind, n, p, pn)))
        ctx.sample({'nodes': sorted(nodes.items()), 'edges': sorted(edges.items())}, 1)


def replay(case, ctx):
    env.load()
    pat = ({int(v): dict(c) for v, c in case['nodes']}, {tuple(e): dict(c) for e, c in case['edges']})
    macro = dep.real_macro(pat, case['target'], edge_order=case['order'])

    def one():
        if case.get('kind') == 'legacy':
            return Legacy(pat, case['target'], case['order']).check(pat, tuple(case['heads']), tuple(case['pos']),
                                                                    tuple(case['rel']), case['num'])
        sent = build(tuple(case['heads']), tuple(case['pos']), tuple(case['rel']), case['rot'])
        sent[0].match_pattern(macro)
        return compare(macro, pat, sent, 0)
    ok, d = ctx.attempt(one, 'replay', case)
    if ok and d:
        ctx.fail('replay', d, case)
