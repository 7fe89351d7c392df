"""C43: pattern and macro files are read as written.

All small definition files over a grammar of trees, conditions, identifiers, formats and layouts; the objects read are
compared with the definitions, and patterns written in the two notations are run on the same sentences.
"""
import itertools
import os
import re
from xml.sax.saxutils import escape

from mc import env, corp, dep

ID = 'C43'
LEVEL = 'model_checking'
ASSUMPTIONS = ['the files are well-formed; a pattern is a tree; identifiers are whole numbers and different from each other',
               'the arrow notation is the one of the TSV files of the test data: a node is LEMMA-expression/POS-expression, a '
               'list in brackets ends its branch, blanks stand before arrows and around commas only']
BOUNDS = ('graph files: 1-3 patterns of <=4 nodes, conditions given / default / absent, identifiers in any order, 7 layouts, '
          '2 encodings; macro files: all orders of 3 macros x pattern links x feature given or not x formats x descriptions; '
          'arrow notation: all trees of <=5 nodes x targets x list or chain, against brute-force search on all '
          'sentences of 3 words and through the handler; files of 11 patterns and 11 macros, patterns of 11 to 15 nodes')

CONDS = [None, r'(\w+)', 'N', u'(\u00e9|<&>)"\'', r'(V)\w*', '.*', '(.+)']
SHAPES = [(None,), (None, 0), (None, 0, 1), (None, 0, 0), (None, 0, 1, 1), (None, 0, 0, 2), (None, 0, 1, 0),
          (None,) + tuple(range(11)), (None,) + (0,) * 11, (None,) + tuple((i - 1) // 2 for i in range(1, 15))]


# ------------------------------------------------------------ graph files --
def graph_defs(case):
    """[(id, nodes {id: {attr: cond}}, edges)] as written."""
    out = []
    for gi, (sh, sel) in enumerate(zip(case['shapes'], case['sel'])):
        shape = SHAPES[sh]
        k = len(shape)
        ids = list(range(1, k + 1))
        if (gi + sel) % 3 == 1:
            ids.reverse()
        elif (gi + sel) % 3 == 2:
            ids = [10 + 3 * i for i in ids]
        nodes, edges = {}, {}
        for i in range(k):
            nodes[ids[i]] = {a: c for a, c in (('lemma', CONDS[(sel + i) % 7]), ('pos', CONDS[(sel // 2 + i * 2) % 7])) if c is not None}
        for i in range(1, k):
            c = CONDS[(sel // 3 + i) % 7]
            edges[(ids[shape[i]], ids[i])] = {} if c is None else {'deprel': c}
        out.append((case['ids'][gi], nodes, edges))
    return out


def graphml(defs, case):
    style = case['style']
    nd, ed = case['ndef'], case['edef']
    keys = [('n1', 'node', 'lemma', nd), ('n2', 'node', 'pos', None), ('e1', 'edge', 'deprel', ed)]
    if style % 2:
        keys = [keys[2], keys[1], keys[0]]
    ind = '\n    ' if style != 2 else ''
    enc = case['enc']
    s = '' if style == 3 else '<?xml version="1.0" encoding="%s"?>%s' % (enc, '\n' if style != 2 else '')
    s += '<graphml xmlns="http://graphml.graphdrawing.org/xmlns"%sxmlns:xsi="http://www.w3.org/2001/XMLSchema-instance">' % (
        '\n   ' if style in (0, 4) else ' ')
    for k, f, n, d in keys:
        s += ind + ('<key id="%s" for="%s" attr.name="%s" attr.type="string"' if style != 4 else
                    '<key attr.type="string" attr.name="%3$s" for="%2$s" id="%1$s"'.replace('%1$s', '{0}').replace('%2$s', '{1}')
                    .replace('%3$s', '{2}').format(k, f, n)) % ((k, f, n) if style != 4 else ())
        s += '/>' if d is None else '>%s<default>%s</default>%s</key>' % (ind, escape(d), ind)
    code = {n: k for k, f, n, d in keys}
    for gid, nodes, edges in defs:
        s += ind + ('<!-- a graph -->' + ind if style == 5 else '') + ('<graph id="%d" edgedefault="directed">' if style != 4 else
                                                                       '<graph edgedefault="directed" id="%d">') % gid
        ns = ['<node id="%d">%s</node>' % (v, ''.join('%s<data key="%s">%s</data>' % (ind, code[a], escape(c))
                                                      for a, c in (c_.items() if style % 2 else reversed(list(c_.items()))))) if c_ or
              style != 1 else '<node id="%d"/>' % v for v, c_ in nodes.items()]
        es = ['<edge source="%d" target="%d">%s</edge>' % (h, d, ''.join('<data key="%s">%s</data>' % (code[a], escape(c))
                                                                         for a, c in c_.items())) for (h, d), c_ in edges.items()]
        if style == 6:
            es.reverse()
            ns.reverse()
        s += ind + ind.join(ns + es) + ind + '</graph>'
    return s + (ind if style != 2 else '') + '</graphml>'


def full(defs, case):
    out = []
    for gid, nodes, edges in defs:
        n = {v: dict(c) for v, c in nodes.items()}
        if case['ndef'] is not None:
            for c in n.values():
                c.setdefault('lemma', case['ndef'])
        e = {k: dict(c) for k, c in edges.items()}
        if case['edef'] is not None:
            for c in e.values():
                c.setdefault('deprel', case['edef'])
        out.append((gid, n, e))
    return out


def write(work, name, text, enc='utf-8'):
    p = os.path.join(work, name)
    with open(p, 'wb') as f:
        f.write(text.encode(enc))
    return p


def view(p):
    return ({v: dict(a) for v, a in p.graph.nodes(data=True)},
            {(a, b): {k: v for k, v in d.items() if k != 'id'} for a, b, d in p.graph.edges(data=True)})


def gml(case, ctx):
    from nephosem.core.graph import PatternGraph
    defs = graph_defs(case)
    p = write(ctx.work, 'p.graphml', graphml(defs, case), case['enc'])
    got = PatternGraph.read_graphml(p)
    want = full(defs, case)
    if [x.id for x in got] != [d[0] for d in want]:
        return 'identifiers %r, expected %r' % ([x.id for x in got], [d[0] for d in want])
    for x, (gid, n, e) in zip(got, want):
        gn, ge = view(x)
        if gn != n:
            return 'pattern %d: nodes %r, expected %r' % (gid, gn, n)
        if ge != e:
            return 'pattern %d: edges %r, expected %r' % (gid, ge, e)
        if str(gid) not in repr(x):
            return 'pattern %d is shown as %r' % (gid, repr(x))
    return None


# ------------------------------------------------------------ macro files --
def macros_xml(case):
    fmt = case['fmt']
    t, f, e = FMTS[fmt]
    s = '<?xml version="1.0" encoding="UTF-8"?>\n<target-feature-list>'
    nl = '\n' if case['style'] != 1 else ''

    def node(attrs, rev):
        a = ['<%s group="%d"/>' % x for x in attrs]
        body = (a[::-1] if rev else a) + ['<string connector="/">%s</string>' % '/'.join(x for x, _ in attrs)]
        if case['style'] == 2:
            body = body[-1:] + body[:-1]
        return '<node-fmt>%s%s</node-fmt>' % (nl, nl.join(body))
    tf = '<target-fmt>%s</target-fmt>' % node(t, case['rev'])
    ff = '<feature-fmt>%s<edge-fmt>%s</edge-fmt></feature-fmt>' % (node(f, not case['rev']), e)
    ms = []
    for mid, pid, tgt, feat, desc in case['macros']:
        d = [None, '', 'Empty', 'see <x>'][desc]
        dd = '' if d is None else '<description>%s</description>' % escape(d)
        fa = '' if feat is None else ' featureID="%d"' % feat
        ms.append('<target-feature-macro id="%d">%s<sub-graph-pattern id="%d"/>%s<target nodeID="%d">%s</target>%s<feature%s>%s'
                  '</feature>%s</target-feature-macro>' % (mid, nl, pid, nl, tgt, dd, nl, fa, dd, nl))
    s += nl + tf + nl + ff + nl + nl.join(ms)
    return s + nl + '</target-feature-list>'


FMTS = [([('lemma', 1), ('pos', 1)], [('lemma', 1), ('pos', 1)], 'deprel'),
        ([('lemma', 1), ('pos', 1), ('fid', 1), ('lid', 1)], [('lemma', 2)], 'deprel'),
        ([('pos', 2), ('lemma', 1)], [('pos', 1), ('lemma', 1)], 'rel')]


def mxml(case, ctx):
    from nephosem.core.graph import PatternGraph, MacroGraph
    pats = []
    for pid, sh in ((7, 1), (1, 3), (2, 4)):
        shape = SHAPES[sh]
        p = PatternGraph(nodes={i + 1: {'lemma': 'p%d' % pid} for i in range(len(shape))},
                         edges={(shape[i] + 1, i + 1): {'deprel': 'p%d' % pid} for i in range(1, len(shape))})
        p.id = pid
        pats.append(p)
    before = [view(p) for p in pats]
    got = MacroGraph.read_xml(write(ctx.work, 'm.xml', macros_xml(case)), pats[::-1] if case['rev'] else pats)
    t, f, e = FMTS[case['fmt']]
    if len(got) != len(case['macros']):
        return '%d macros, expected %d' % (len(got), len(case['macros']))
    byid = {p.id: p for p in pats}
    for m, (mid, pid, tgt, feat, desc) in zip(got, case['macros']):
        want = {'id': mid, 'target_idx': tgt, 'feature_idx': -1 if feat is None else feat,
                'target_node_attrs': dict(t), 'feature_node_attrs': dict(f), 'feature_edge_attrs': {e: 1}}
        have = {k: getattr(m, k) for k in want}
        if have != want or list(have['target_node_attrs']) != list(dict(t)) or list(have['feature_node_attrs']) != list(dict(f)):
            return 'macro %r, expected %r' % (have, want)
        if view(m) != view(byid[pid]):
            return 'macro %d has the pattern %r, named %d' % (mid, view(m), pid)
        if str(mid) not in repr(m):
            return 'macro %d is shown as %r' % (mid, repr(m))
        d = [None, None, 'Empty', 'see <x>'][desc]
        if d and (m.target_desc != d or m.feature_desc != d):
            return 'descriptions %r %r' % (m.target_desc, m.feature_desc)
        m.graph.nodes[1]['lemma'] = 'changed'
        m.matched_nodes.append(1)
    if [view(p) for p in pats] != before:
        return 'the patterns share their nodes with the macros'
    again = [m.matched_nodes for m in got]
    if any(len(x) != 1 for x in again):
        return 'macros share their matches'
    return None


# --------------------------------------------------------- arrow notation --
def arrow_tree(case):
    """nodes {i: (lemma, pos)}, edges {(h, d): rel} of the tree; node 0..k-1, root 0."""
    shape = tuple(case['shape'])
    k = len(shape)
    c = case['conds']
    lem = [r'(?P<LEMMA>\w+)', r'?P<LEMMA>\w+', r'(?P<LEMMA>w[12])', r'(?P<LEMMA>\w{1,3})', r'?P<LEMMA>w{1,3}[12]']
    pos = [r'(?P<POS>N)\w*', r'(?P<POS>\w+)', r'?P<POS>[NV]', r'(?P<POS>V|N)$']
    rel = [r'(?P<DEPREL>\w+)', r'(?P<DEPREL>a)$', r'?P<DEPREL>a', r'(?P<DEPREL>a|ab)']
    nodes = {i: (lem[(c + i) % 5], pos[(c // 4 + i) % 4]) for i in range(k)}
    edges = {(shape[i], i): rel[(c // 2 + i) % 4] for i in range(1, k)}
    return nodes, edges


def strip(rx):
    return re.sub(r'\?P<\w+>', '', rx)


def notation(nodes, edges, target, style):
    """Write the tree from the target on: up by <-, down by ->; more than one branch in a list. Going up leaves
    only one way on, so the other branches of the target or of the words above it cannot be written."""
    kids, up = {}, {}
    for (h, d) in edges:
        kids.setdefault(h, []).append(d)
        up[d] = h

    def node(v):
        return '%s/%s' % nodes[v]
    sp = ' ' if style & 2 else ''
    comma = ' , ' if style & 2 else ','

    def down(v, skip=None):
        ks = [k for k in kids.get(v, []) if k != skip]
        if not ks:
            return ''
        parts = ['%s %s%s' % (edges[(v, k)], node(k), down(k)) for k in ks]
        if len(parts) == 1 and not style & 1:
            return '%s->%s' % (sp, parts[0])
        return '%s->[%s]' % (sp, comma.join(parts))

    s, v = '', target
    if target in up and kids.get(target):
        return None
    while v in up:
        h = up[v]
        s += '%s<-%s %s' % (sp if s else '', edges[(h, v)], node(h))
        if h in up and len(kids[h]) > 1:
            return None
        v, prev = h, v
        if v not in up:
            return node(target), s + down(v, prev)
    d = down(v)
    return (node(target), d.strip()) if d else None


def canon(p, root):
    n, e = view(p)

    def go(v):
        return (tuple(sorted(n[v].items())), v == 1,
                tuple(sorted((tuple(sorted(a.items())), go(d)) for (h, d), a in e.items() if h == v)))
    return go(root)


def ident(case, i):
    return i + (3, 254, 70000)[len(case['sents']) % 2 + case['patterns'][0]['style'] % 2]


def arrow(case, ctx):
    from nephosem.core.graph import PatternGraph, MacroGraph
    from nephosem.models.deprel import DepRelHandler
    trees = []
    rows = []
    for sub in case['patterns']:
        nodes, edges = arrow_tree(sub)
        tx = notation(nodes, edges, sub['target'], sub['style'])
        trees.append((nodes, edges, sub['target']))
        rows.append(tx)
    cols = ['ID', 'Target Regex', 'Feature Regex', 'Tareget Description']
    text = '\t'.join(cols) + '\n'
    for i, (t, f) in enumerate(rows):
        text += '\t'.join([str(ident(case, i)), t, f, 'd']) + '\n'
    p = write(ctx.work, 'p.tsv', text)
    pats = PatternGraph.read_csv(p)
    macros = MacroGraph.read_csv(p)
    if len(pats) != len(trees) or len(macros) != len(trees):
        return '%d patterns, %d macros, expected %d' % (len(pats), len(macros), len(trees))
    plain = []
    if [x.id for x in pats] != [ident(case, i) for i in range(len(rows))] or [m.id for m in macros] != [x.id for x in pats]:
        return 'identifiers %r of the patterns, %r of the macros' % ([x.id for x in pats], [m.id for m in macros])
    for x, m, (nodes, edges, tgt), tx in zip(pats, macros, trees, rows):
        # the same tree with the target called 1
        name = {v: v + 2 for v in nodes}
        name[tgt] = 1
        pn = {name[v]: {'LEMMA': strip(a), 'POS': strip(b)} for v, (a, b) in nodes.items()}
        pe = {(name[h], name[d]): {'DEPREL': strip(r)} for (h, d), r in edges.items()}
        ref = PatternGraph(nodes=pn, edges=pe)
        plain.append((pn, pe))
        for y in (x, m):
            roots = [v for v in y.graph.nodes if y.graph.in_degree(v) == 0]
            if len(roots) != 1 or canon(y, roots[0]) != canon(ref, name[0]):
                return '%r is read as nodes %r and edges %r' % (tx, view(y)[0], view(y)[1])
        if m.target_idx != 1:
            return 'the target is node %r' % m.target_idx
        repr(x), repr(m)
    # the macros of the file find what the search finds
    sents = case['sents']
    lines, want = [], {}
    for s in sents:
        heads, pos, rel = s
        words = {i: {'LEMMA': 'w%d' % i, 'POS': pos[i - 1]} for i in range(1, len(heads) + 1)}
        up = {i: heads[i - 1] for i in words}
        rels = {i: {'DEPREL': rel[i - 1]} for i in words}
        lines += ['\t'.join(('w%d' % i, pos[i - 1], 'w%d' % i, str(i), str(heads[i - 1]), rel[i - 1])) for i in words] + ['</s>']
        for pt in plain:
            for emb in dep.embeddings(words, up, rels, pt):
                t = '/'.join(grp(pt[0][1][a], words[emb[1]][a]) for a in ('LEMMA', 'POS'))
                want[t] = want.get(t, 0) + 1
    fn = corp.write(ctx.work, [''.join(l + '\n' for l in lines)])
    over = dict(corp.DEP)
    c = 'FORM,POS,LEMMA,ID,HEAD,DEPREL'
    over.update({'line-machine': '\t'.join(['([^\t]+)'] * 6), 'line-format': c, 'global-columns': c, 'node-attr': 'FORM,POS,LEMMA',
                 'edge-attr': 'DEPREL', 'currID': 'ID', 'headID': 'HEAD', 'type': 'LEMMA/POS', 'colloc': 'LEMMA/POS',
                 'token': 'FORM/POS/fid/lid'})
    h = DepRelHandler(corp.base_settings(ctx.work, **over), workers=1)
    h.read_templates(fname=p)
    try:
        cells = corp.cells(h.build_dependency(fnames=fn))
    except ValueError:
        cells = {}
    got = {}
    for (t, f), v in cells.items():
        got[t] = got.get(t, 0) + v
    return None if got == want else '%r: matches per target %r, expected %r' % (rows, got, want)


def grp(rx, val):
    m = re.match(rx, val)
    return m.group(1) if m.re.groups else '*'


def all_sents():
    out = []
    for heads in dep.sentence_trees(3):
        out.append((heads, ('N', 'V', 'N'), ('a', 'ab', 'a')))
        out.append((heads, ('N', 'N', 'NN'), ('a', 'a', 'a')))
        out.append((heads, ('n', 'VN', 'N'), ('A', 'ba', 'a')))
    for heads in list(dep.sentence_trees(4))[::7]:
        out.append((heads, ('N', 'V', 'N', 'X'), ('a', 'ab', 'a', 'a')))
    return out


# ------------------------------------------------------------------- runs --
def shards(tier):
    return [('gml', i, 8) for i in range(8)] + [('mxml', i, 8) for i in range(8)] + [('arrow', i, 16) for i in range(16)]


def cases(shard, tier):
    kind, i, m = shard
    fulltier = tier != 'quick'
    num = 0
    if kind == 'gml':
        sets = [(s,) for s in range(7)] + list(itertools.product(range(7), repeat=2)) + \
            (list(itertools.product(range(7), repeat=3)) if fulltier else [(1, 3, 4), (4, 0, 5), (6, 2, 1)]) + \
            [(7,), (8,), (9,), (8, 7, 9), (0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 1), (2,) * 12]
        for sh in sets:
            for sel in range(42 if len(sh) == 1 and sh[0] < 7 or fulltier else 5):
                for style in range(7):
                    for ndef in (None, r'(.+)', u'\u00e9<'):
                        for edef in (None, r'(\w+)'):
                            num += 1
                            if num % m != i:
                                continue
                            x = num // m
                            enc = ('UTF-8', 'ISO-8859-1')[x % 2] if style != 3 else 'UTF-8'
                            ids = [(3, 1, 2), (1, 2, 3), (12, 5, 40)][x % 3]
                            if len(sh) > 3:
                                ids = [(j * 5 + 3) % 13 + 1 for j in range(len(sh))]
                            yield {'kind': 'gml', 'shapes': sh, 'sel': [sel + 3 * j for j in range(len(sh))], 'style': style,
                                   'ndef': ndef, 'edef': edef, 'enc': enc, 'ids': ids}
    elif kind == 'mxml':
        for n in (1, 2, 3):
            for mids in itertools.permutations((1, 2, 9), n):
                for links in itertools.product((7, 1, 2), repeat=n):
                    for feats in itertools.product((None, 1, 2), repeat=n):
                        num += 1
                        if num % m != i:
                            continue
                        x = num // m
                        for y in range(4 * 3 * 3 * 2 if fulltier else 2):
                            z = x * 2 + y
                            macs = [(mids[j], links[j], 1 + (j + z) % 2, feats[j], (z + j) % 4) for j in range(n)]
                            yield {'kind': 'mxml', 'macros': macs, 'fmt': (z // 4) % 3, 'style': (z // 12) % 3, 'rev': bool((z // 3) % 2)}
        for n in (10, 11, 12):
            for r in range(12):
                num += 1
                if num % m == i:
                    yield {'kind': 'mxml', 'macros': [(((j * 5 + r) % 13) * 3 + 1, (7, 1, 2)[(j + r) % 3], 1 + j % 2,
                                                       (None, 1, 2)[(j * r) % 3], (r + j) % 4) for j in range(n)],
                           'fmt': r % 3, 'style': r // 3 % 3, 'rev': bool(r % 2)}
    else:
        sents = all_sents()
        for shape in SHAPES[7:]:
            for tgt in range(len(shape)):
                for style in range(4):
                    sub = {'shape': shape, 'target': tgt, 'style': style, 'conds': tgt + style}
                    if notation(*(arrow_tree(sub) + (tgt, style))) is None:
                        continue
                    num += 1
                    if num % m == i:
                        yield {'kind': 'arrow', 'patterns': [sub], 'sents': sents[num % 3::3]}
        for n in (10, 11):
            for r in range(8):
                num += 1
                if num % m == i:
                    yield {'kind': 'arrow', 'sents': sents, 'patterns': [
                        {'shape': [(None, 0), (None, 0, 1), (None, 0, 0)][(j + r) % 3], 'target': 0, 'style': r % 4, 'conds': j}
                        for j in range(n)]}
        for k in (2, 3, 4, 5):
            for shape in dep.shapes(k):
                for tgt in range(k):
                    for style in range(4):
                        for c in range(20):
                            sub = {'shape': shape, 'target': tgt, 'style': style, 'conds': c}
                            if notation(*(arrow_tree(sub) + (tgt, style))) is None:
                                continue
                            num += 1
                            if num % m != i or (k == 5 and not fulltier and (num // m) % 3):
                                continue
                            pats = [sub]
                            if num % 3 == 0:
                                pats = [dict(sub, target=0, style=1), sub, {'shape': (None, 0, 1), 'target': 2, 'style': 0, 'conds': 5}]
                            yield {'kind': 'arrow', 'patterns': pats, 'sents': sents[num % 3::3]}


RUN = {'gml': gml, 'mxml': mxml, 'arrow': arrow}


def run_shard(shard, ctx):
    env.load()
    corp.fresh(ctx.work)
    for case in cases(shard, ctx.tier):
        ctx.ran()
        ctx.trans(len(case.get('shapes', case.get('macros', case.get('sents', '')))))
        ctx.state(repr(case))
        ok, d = ctx.attempt(lambda: RUN[case['kind']](case, ctx), 'read:' + case['kind'], case)
        if ok and d:
            ctx.fail('read:' + case['kind'], '%s in %r' % (d, {k: v for k, v in case.items() if k != 'sents'}), case)
        ctx.sample({k: v for k, v in case.items() if k != 'sents'}, 1)


def replay(case, ctx):
    env.load()
    corp.fresh(ctx.work)
    ok, d = ctx.attempt(lambda: RUN[case['kind']](case, ctx), 'replay', case)
    if ok and d:
        ctx.fail('replay', d, case)
