"""C42: dependency sentences are segmented and turned into the right graphs.

All small corpus files over word lines, separators and junk, in several layouts (line ends, final newline, encoding,
separator expression), and all head assignments, word orders and column layouts for the graph of one sentence.
"""
import itertools
import os

from mc import env, corp, dep

ID = 'C42'
LEVEL = 'model_checking'
ASSUMPTIONS = ['junk lines do not match the line expression, word lines do not match the separator; the words of a sentence have '
               'different indices']
BOUNDS = ('segmentation: all files of <=7 lines over 5 kinds of lines (2 words, separator, junk, blank), layouts in turn, '
          'read three ways; graphs: all head assignments of <=3 words (heads inside, 0, outside), word orders, gaps in the '
          'indices, 4 column layouts, values with colons, stars and hashes; sentences of 11 to 300 words; files of up to 300 lines; thorough: 8 lines, every layout, 4 words')
W = ['w1\tN\tl1\t1\t0\troot', 'w2\tV\tl2\t2\t1\tnsubj']
JUNK = ['<p id="1">', '#\tx', 'a\tb\tc\td\te']
SEPS = [('</s>', '</s>'), ('</s>', '</s>  '), ('^</sentence>$', '</sentence>'), ('</?arti(kel|cle)>', '<article>'),
        ('<(s|p)>', '<s>'), ('$', '')]


def segments(kinds):
    out, cur = [], []
    for lid, k in enumerate(kinds, 1):
        if k in 'ab':
            cur.append((lid, k))
        elif k == 's':
            out.append(cur)
            cur = []
    out.append(cur)
    return [s for s in out if s]


def seg(case, ctx):
    from nephosem.core.terms import CorpusFormatter
    from nephosem.models.deprel import read_sentence
    rx, text = SEPS[case['sep']]
    kinds = case['kinds']
    blank = '' if rx != '$' else '<p>'
    raw = {'a': W[0], 'b': W[1], 's': text, 'x': JUNK[case['junk']], 'e': blank}
    word = {'a': W[0].replace('l1', 'l\u00e91'), 'b': W[1]} if case['enc'] != 'ascii' else {'a': W[0], 'b': W[1]}
    raw.update(word)
    pad = '  ' if case['pad'] else ''
    lines = [pad + raw[k] + pad for k in kinds]
    body = case['eol'].join(lines) + (case['eol'] if lines and case['final'] else '')
    if not case['final'] and kinds and raw[kinds[-1]] + pad == '':
        return None                      # no last line at all
    p = os.path.join(ctx.work, 'corpus', 'f.txt')
    with open(p, 'wb') as f:
        f.write(body.encode(case['enc']))
    over = dict(corp.DEP)
    over.update({'separator-line-machine': rx, 'single-boundary-machine': rx, 'file-encoding': case['enc']})
    fm = CorpusFormatter(corp.base_settings(ctx.work, **over))
    if case['graphs']:                   # collected first, looked at afterwards
        got = list(read_sentence(p, formatter=fm, encoding=case['enc']))
    else:
        got = [[(lid, line) for lid, line in s] for s in read_sentence(p, formatter=fm, encoding=case['enc'])]
    got = [[(lid, line) for lid, line in s] for s in got]
    want = [[(lid, word[k]) for lid, k in s] for s in segments(kinds)]
    if got != want:
        return 'sentences %r, expected %r' % (got, want)
    if case['graphs']:
        return through(case, ctx, fm, p, want, over)
    return None


def through(case, ctx, fm, p, want, over):
    """The same file through the handler: every sentence is matched, alone and once."""
    from nephosem.models.deprel import DepRelHandler
    h = DepRelHandler(corp.base_settings(ctx.work, **over), workers=1, mode='token')
    pat = ({1: {'word': r'(\w+)', 'pos': r'(\w)'}, 2: {'word': r'(\w+)', 'pos': r'(\w)'}}, {(1, 2): {'deprel': '(.+)'}})
    h.read_templates(macros=[dep.real_macro(pat, 2, 1, {'word': 1, 'fid': 1, 'lid': 1}, {'word': 1})])
    exp = {}
    for s in want:
        ids = [line.split('\t')[3] for _, line in s]
        if len(set(ids)) != len(ids):
            return None                  # the same index twice in one sentence: not a sentence
        if ids and '1' in ids and '2' in ids:
            lid = [l for l, line in s if line.startswith('w2')][0]
            exp[('w2/f/%d' % lid, 'w1')] = 1
    try:
        got = corp.cells(h.build_dependency(fnames=[p]))
    except ValueError:
        got = {}
    return None if got == exp else 'through the handler: %r, expected %r' % (got, exp)


VALUES = ['%s:1', '#%s*', '%s', '*%s 1#']
LAYOUTS = [
    ('word,pos,lemma,id,head,deprel', 'word,pos,lemma', 'deprel', {}),
    ('id,word,deprel,head,pos,lemma', 'pos,word', 'deprel', {}),
    ('FORM,POS,LEMMA,ID,HEAD,DEPREL', 'FORM,POS,LEMMA', 'DEPREL', {'currID': 'ID', 'headID': 'HEAD'}),
    ('deprel,sense,me,lemma,pos,up', 'lemma,pos', 'deprel,sense', {'currID': 'me', 'headID': 'up'}),
]


def graph(case, ctx):
    from nephosem.core.terms import CorpusFormatter
    from nephosem.core.graph import SentenceGraph
    import networkx as nx
    cols, nattr, eattr, extra = LAYOUTS[case['layout']]
    names = cols.split(',')
    me, up = extra.get('currID', 'id'), extra.get('headID', 'head')
    vals = {}
    for i, (wid, head) in enumerate(zip(case['ids'], case['heads'])):
        vals[wid] = {c: VALUES[(i + len(case['ids'])) % 4] % c for c in names}
        vals[wid].update({me: str(wid), up: str(head)})
    lines = [(7 + 2 * n, '\t'.join(vals[w][c] for c in names) + ('\n' if n % 2 else '')) for n, w in enumerate(case['order'])]
    if case['junk']:
        lines.insert(len(lines) // 2, (99, '<p>\n'))
    over = dict(corp.DEP)
    over.update({'line-machine': '\t'.join(['([^\t]+)'] * 6), 'line-format': cols, 'global-columns': cols, 'node-attr': nattr,
                 'edge-attr': eattr, 'type': nattr.split(',')[0], 'colloc': nattr.split(',')[0],
                 'token': nattr.split(',')[0] + '/fid/lid'})
    over.update(extra)
    s = corp.base_settings(ctx.work, **over)
    fm = CorpusFormatter(s)
    g = SentenceGraph(sentence=lines, formatter=fm)
    nodes, edges = {}, {}
    for n, w in enumerate(case['order']):
        nodes[w] = dict({c: vals[w][c] for c in nattr.split(',')}, lid=7 + 2 * n)
        edges[(int(vals[w][up]), w)] = {c: vals[w][c] for c in eattr.split(',')}
    for w, h in zip(case['ids'], case['heads']):
        nodes.setdefault(h, {})
    got = {v: dict(a) for v, a in g.nodes}
    if got != nodes:
        return 'nodes %r, expected %r' % (got, nodes)
    ge = {e: {k: v for k, v in g.edges[e].items() if k != 'id'} for e in g.edges}
    if ge != edges:
        return 'arcs %r, expected %r' % (ge, edges)
    # one tree?
    want = True
    for w in case['ids']:
        seen, x = set(), w
        up_ = dict(zip(case['ids'], case['heads']))
        while x in up_ and x not in seen:
            seen.add(x)
            x = up_[x]
        if x in up_:
            want = False
    want = want and len({h for h in case['heads'] if h not in case['ids']}) == 1
    if bool(g.istree) != want:
        return 'istree is %r, expected %r' % (g.istree, want)
    if want:
        roots = {w for w in case['ids'] if up_[w] not in case['ids']}
        tops = [v for v in g.graph.nodes if g.in_degree(v) == 0]
        if len(tops) != 1 or set(g.successors(tops[0])) != roots:
            return 'root words %r below %r, expected %r' % (sorted(g.successors(tops[0])), tops, sorted(roots))
    return None


ENCS = ['utf-8', 'latin-1', 'utf-16', 'ascii']


def shards(tier):
    return [('seg', i, 24) for i in range(24)] + [('graph', i, 8) for i in range(8)] + \
        [('large', i, 4) for i in range(4)]


def cases(shard, tier):
    kind, i, m = shard
    full = tier != 'quick'
    num = 0
    if kind == 'large':
        for n in (11, 12, 30, 300):
            for ids in ([list(range(1, n + 1)), list(range(n, 0, -1)), list(range(99, 99 + n)), [3 * j + 2 for j in range(n)]]):
                for shape in (lambda j: j - 1, lambda j: -1 if j == 0 else 0, lambda j: (j - 1) // 2 if j else -1,
                              lambda j: j + 1 if j < n - 1 else -1, lambda j: (j + 1) % n, lambda j: -1 if j < 2 else j - 2,
                              lambda j: 9 if j != 9 else -1):
                    heads = [ids[shape(j)] if shape(j) >= 0 else 0 for j in range(n)]
                    for order in (ids, ids[::-1], sorted(ids, key=str), ids[n // 2:] + ids[:n // 2]):
                        for lay in range(len(LAYOUTS)):
                            num += 1
                            if num % m == i:
                                yield {'kind': 'graph', 'ids': ids, 'heads': heads, 'order': order, 'layout': lay,
                                       'junk': num // m % 3 == 0}
        for kinds in ('abs' * 40, 'bxas' * 75, 'a' * 12 + 's' + 'b' * 15, 'sss' + 'xaxb' * 30, ('ab' + 'e' * 11 + 's') * 12,
                      'xxxxxxxxxxxabs' * 9 + 'ab', 'asbs' * 30):
            for y in range(288):
                num += 1
                if num % m == i and num // m % 4 == 0:
                    yield {'kind': 'seg', 'kinds': kinds, 'sep': y % len(SEPS), 'eol': ('\n', '\r\n')[(y // 6) % 2],
                           'final': bool((y // 12) % 3), 'enc': ENCS[(y // 5) % 4], 'junk': (y // 7) % 3, 'pad': y % 11 == 0,
                           'graphs': y % 3 == 0}
    elif kind == 'seg':
        for n in range(9 if full else 8):
            for kinds in itertools.product('absxe', repeat=n):
                num += 1
                if num % m != i:
                    continue
                x = num // m
                for y in range(x % 5, 96 * 3, 31) if full else (x,):
                    if n == 0 and y > 3:
                        continue
                    yield {'kind': 'seg', 'kinds': ''.join(kinds), 'sep': y % len(SEPS), 'eol': ('\n', '\r\n')[(y // 6) % 2],
                           'final': bool((y // 12) % 3), 'enc': ENCS[(y // 5) % 4], 'junk': (y // 7) % 3, 'pad': y % 11 == 0,
                           'graphs': y % 4 == 0}
    else:
        for n in (1, 2, 3) + ((4,) if full else ()):
            for ids in ([list(range(1, n + 1)), list(range(n, 0, -1)), [3 * j + 2 for j in range(n)]]):
                for heads in itertools.product(ids + [0, 77], repeat=n):
                    for order in itertools.permutations(ids) if n < 4 else [ids, ids[::-1]]:
                        for lay in range(len(LAYOUTS)):
                            num += 1
                            if num % m == i and (full or n < 3 or (num // m) % 2):
                                yield {'kind': 'graph', 'ids': ids, 'heads': heads, 'order': order, 'layout': lay,
                                       'junk': (num // m) % 3 == 0}


RUN = {'seg': seg, 'graph': graph}


def run_shard(shard, ctx):
    env.load()
    corp.fresh(ctx.work)
    for case in cases(shard, ctx.tier):
        ctx.ran()
        ctx.trans(len(case.get('kinds', case.get('heads', ''))))
        ctx.state(repr(case))
        ok, d = ctx.attempt(lambda: RUN[case['kind']](case, ctx), 'dep:' + case['kind'], case)
        if ok and d:
            ctx.fail('dep:' + case['kind'], '%s in %r' % (d, case), case)
        ctx.sample(case, 1)


def replay(case, ctx):
    env.load()
    corp.fresh(ctx.work)
    ok, d = ctx.attempt(lambda: RUN[case['kind']](case, ctx), 'replay', case)
    if ok and d:
        ctx.fail('replay', d, case)
