"""Clustering by committee, written down from its description.

Everything is keyed by word; a Tie is raised where the description leaves the outcome open
(equal distances, equal scores, a similarity at the threshold).
"""
import itertools
import math

EPS = 1e-6


class Tie(Exception):
    pass


def less(a, b, eps=EPS):
    """a < b, both outcomes acceptable when they are (nearly) equal."""
    if abs(a - b) < eps:
        raise Tie()
    return a < b


def neighbours(dist, e, words, k, eps=EPS):
    others = sorted((w for w in words if w != e), key=lambda w: dist[e, w])
    if k < len(others):
        less(dist[e, others[k - 1]], dist[e, others[k]], eps)
    return others[:k]


def linkage(dist, words, eps=EPS):
    """Average linkage: the merges in order, as (height, members)."""
    cl = [frozenset([w]) for w in words]
    out = []
    while len(cl) > 1:
        cand = []
        for a, b in itertools.combinations(cl, 2):
            cand.append((sum(dist[x, y] for x in a for y in b) / (len(a) * len(b)), a, b))
        cand.sort(key=lambda c: c[0])
        if len(cand) > 1:
            less(cand[0][0], cand[1][0], eps)
        h, a, b = cand[0]
        cl = [c for c in cl if c not in (a, b)] + [a | b]
        out.append((h, a | b))
    return out


def percentile(vals, q):
    v = sorted(vals)
    x = (len(v) - 1) * q / 100
    i = int(x)
    return v[i] if i + 1 >= len(v) else v[i] + (v[i + 1] - v[i]) * (x - i)


def cut(merges, words, method, t, eps=EPS):
    hs = [h for h, _ in merges]
    exact = True
    if method == 'minsize':
        thr = next((h for h, m in merges if len(m) >= t), 1.0)
    elif t == 'mean':
        thr = sum(hs) / len(hs)
    elif t == 'median':
        thr = percentile(hs, 50)
    elif isinstance(t, str):
        thr = percentile(hs, int(t[:-1]))
    else:
        thr, exact = t, False
    below = []
    for h, m in merges:
        if abs(h - thr) < 1e-12 and exact:
            below.append(m)
        elif less(h, thr, min(eps, 1e-9)):
            below.append(m)
    out = []
    for w in words:
        big = max([m for m in below if w in m] or [frozenset([w])], key=len)
        if big not in out:
            out.append(big)
    return out


def score(members, dist, metric, func=None):
    if len(members) == 1:
        return -1
    pairs = list(itertools.combinations(sorted(members), 2))
    avg = sum(1 - dist[a, b] for a, b in pairs) / len(pairs)
    if func:
        return func(len(members), avg)
    return {'without_size': 1, 'with_size': len(members), 'with_size_sqrt': math.sqrt(len(members))}[metric] * avg


def step1(e, dist, words, k, method, t, metric, highest, func=None, eps=EPS):
    """[(score, members)] of one word."""
    near = neighbours(dist, e, words, k, eps)
    if len(near) < 2:
        return []
    sc = [(score(c, dist, metric, func), c) for c in cut(linkage(dist, near, eps), near, method, t, eps)]
    if any(s <= eps for s, c in sc if len(c) > 1):
        raise Tie()
    if highest:
        sc.sort(key=lambda x: -x[0])
        if len(sc[0][1]) == 1:
            return []
        if len(sc) > 1:
            less(sc[1][0], sc[0][0], eps)
        return sc[:1]
    return sc


def clean(L, eps=EPS, order=True):
    """(clusters by descending score, single words)."""
    best = {}
    singles = set()
    for s, c in L:
        c = frozenset(c)
        if s > 0:
            best[c] = max(s, best.get(c, s))
        elif c:
            singles |= c
    singles = {w for w in singles if not any(w in c for c in best)}
    keep = [c for c in best if not any(d < c for d in best)]
    keep.sort(key=lambda c: -best[c])
    if order:
        for a, b in zip(keep, keep[1:]):
            less(best[b], best[a], eps)
    return keep, singles


def vector(members, freq, words, cols):
    """PPMI of the centroid of the members against the sum of all other words."""
    cent = [sum(freq[w, c] for w in members) / len(members) for c in cols]
    rest = [sum(freq[w, c] for w in words if w not in members) for c in cols]
    tot = sum(cent) + sum(rest)
    out = []
    for x, r in zip(cent, rest):
        out.append(max(0.0, math.log(x * tot / (sum(cent) * (x + r)))) if x else 0.0)
    return out


def cos(u, v):
    n = math.sqrt(sum(x * x for x in u)) * math.sqrt(sum(x * x for x in v))
    return sum(a * b for a, b in zip(u, v)) / n if n else 0.0


def best(sims, eps=EPS):
    """Index of the largest of [(value, index)]; Tie when not unique."""
    s = sorted(sims, key=lambda x: -x[0])
    if len(s) > 1:
        less(s[1][0], s[0][0], eps)
    return s[0]


def merge(sim, n, theta, eps=EPS):
    """Pairs (i, j): each committee once, with the most similar of the later ones not yet merged
    when it is similar enough."""
    used, out = set(), []
    for i in range(n):
        if i in used:
            continue
        cand = [(sim[i][j], j) for j in range(i + 1, n) if j not in used]
        if cand and not less(max(cand)[0], theta, eps):
            j = best(cand, eps)[1]
            used.add(j)
            out.append((i, j))
        else:
            out.append((i, -1))
    return out


def step2(L, words, freq, meas, cols, theta, eps=EPS):
    keep, singles = clean(L, eps)
    if not keep:
        return []
    vec = [vector(c, freq, words, cols) for c in keep]
    sim = [[cos(a, b) for b in vec] for a in vec]
    comms = [set(keep[i]) | (set(keep[j]) if j >= 0 else set()) for i, j in merge(sim, len(keep), theta, eps)]
    vec = [vector(c, freq, words, cols) for c in comms]
    join = []
    for w in singles:
        sims = [(cos(meas[w], v), i) for i, v in enumerate(vec)]
        if not less(max(sims)[0], theta, eps):
            join.append((best(sims, eps)[1], w))
    for i, w in join:
        comms[i].add(w)
    return [frozenset(c) for c in comms]


def step3(words, meas, comms, vec, theta, eps=EPS):
    """(left over words, committees with the words given to them)."""
    left, out = [], [set(c) for c in comms]
    for w in words:
        sims = [(cos(meas[w], v), i) for i, v in enumerate(vec)]
        if less(max(sims)[0], theta, eps):
            left.append(w)
        else:
            out[best(sims, eps)[1]].add(w)
    return left, [frozenset(c) for c in out]


def whole(words, freq, meas, dist, cols, par):
    """(committees, left over words) of each round."""
    Cs, Rs = [], []
    left = list(words)
    it = 1
    while it <= par.get('num_iter', 1000) and left:
        k = par['k'] if par['k'] >= 1 else int(par['k'] * len(left))
        L = []
        for e in left:
            if k >= 1:
                L += step1(e, dist, left, k, par['prune_method'], par['t'], par['score_metric'], par['highest_score'])
        C = step2(L, left, freq, meas, cols, par['theta1'])
        R = list(left)
        if C:
            R = step3(left, meas, C, [vector(c, freq, left, cols) for c in C], par['theta2'])[0]
        Cs.append(C)
        Rs.append(R)
        if len(R) <= 2 or len(R) == len(left):
            break
        left = R
        it += 1
    return Cs, Rs
