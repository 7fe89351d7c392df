"""Dependency trees, tree patterns, and the reference meaning of matching one against the other."""
import itertools
import re


def sentence_trees(n):
    """Every assignment of heads to words 1..n that forms one tree below the artificial root 0."""
    for heads in itertools.product(range(n + 1), repeat=n):
        ok = True
        for w in range(1, n + 1):
            seen, x = set(), w
            while x and x not in seen:
                seen.add(x)
                x = heads[x - 1]
            if x:
                ok = False
                break
        if ok:
            yield heads


def shapes(k):
    """Parent vectors of the rooted trees with k nodes, node 0 the root, parents before children; one per
    isomorphism class of ordered trees."""
    if k == 1:
        return [(None,)]
    out = []
    for ps in itertools.product(*[range(i) for i in range(1, k)]):
        if all(a <= b for a, b in zip(ps, ps[1:])):
            out.append((None,) + ps)
    return out


def embeddings(words, heads, rels, pat):
    """All maps from pattern nodes to words.

    words: {i: attrs}; heads/rels: {i: head}, {i: rel attrs}; pat: (nodes {id: conds}, edges {(h, d): conds}).
    """
    nodes, edges = pat
    order, parent = [], {}
    for h, d in edges:
        parent[d] = (h, (h, d))
    roots = [v for v in nodes if v not in parent]
    order = list(roots)
    while len(order) < len(nodes):
        for h, d in edges:
            if d not in order and h in order:
                order.append(d)

    def fits(conds, attrs):
        return all(re.match(rx, attrs[a]) for a, rx in conds.items())

    kids = {}
    for i in words:
        kids.setdefault(heads[i], []).append(i)
    out = []

    def go(k, m):
        if k == len(order):
            out.append(dict(m))
            return
        v = order[k]
        if v in parent:
            h, e = parent[v]
            cand = [i for i in kids.get(m[h], []) if fits(edges[e], rels[i])]
        else:
            cand = list(words)
        used = set(m.values())
        for i in cand:
            if i not in used and fits(nodes[v], words[i]):
                m[v] = i
                go(k + 1, m)
                del m[v]

    go(0, {})
    return out


def real_macro(pat, target, feature=-1, tattrs=None, fattrs=None, eattrs=None, edge_order=None, mid=1):
    from nephosem.core.graph import PatternGraph, MacroGraph
    nodes, edges = pat
    es = list(edges.items())
    if edge_order:
        es = [es[i] for i in edge_order]
    p = PatternGraph(nodes={v: dict(c) for v, c in nodes.items()}, edges={e: dict(c) for e, c in es})
    p.id = 1
    m = MacroGraph(p, target_idx=target, feature_idx=feature)
    m.id = mid
    m.target_node_attrs = dict(tattrs or {'lemma': 1, 'pos': 1})
    m.feature_node_attrs = dict(fattrs or {'lemma': 1, 'pos': 1})
    m.feature_edge_attrs = dict(eattrs or {'deprel': 1})
    return m
