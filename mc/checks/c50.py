"""C50: clustering by committee returns valid committees, similarities and assignments.

Each step is run on every small input and compared with the description of the algorithm
(mc/cbcref.py): neighbours, average linkage and cut for all assignments of distances; cleaning of
all small lists of clusters; merging for all small similarity matrices; committee vectors and
assignment of words for all small frequency matrices; all assignments of the tasks of step 1 to
the processes of the pool; the failure of every file operation; the whole algorithm on all sets of rows in all word orders.
"""
import itertools
import logging
import math
import os

import numpy as np
import scipy.sparse as sp

from mc import env, mats, cbcref
from mc.cbcref import Tie

ID = 'C50'
LEVEL = 'model_checking'
ASSUMPTIONS = ['inputs in which the description leaves a choice (equal distances, scores or similarities, a similarity at '
               'the threshold, committees of average similarity 0) are not judged',
               'processes of the pool interact only through files and their results; a process may run any number of tasks',
               'the committees reported by a round are those before words are given to them']
BOUNDS = ('step 1: all 720 assignments of 6 distances to 4 neighbours x orders of the target\'s distances x numbers of '
          'neighbours x 14 cuts x 3 scores; cleaning: all lists of <=3 (thorough <=4) clusters over 9 clusters x 2 '
          'scores; merging: all 4x4 similarity matrices over 4 values; vectors and assignment: all 3x2 matrices over '
          '{0,1,4} and all committee sets; pool: all assignments of tasks to 2 and 3 processes; faults: every file operation failing; whole: all 5-row '
          'choices out of 8 rows x parameters x word orders, and 8, 12 and 16 words in groups')
W = ['b/N', 'a/N', '\u00e9/V', 'ab/N', 'c']


ROUNDS = {}


def setup():
    env.load()
    logging.getLogger('nephosem.models.cbc').setLevel(100)


def tm(arr, rows, cols):
    from nephosem import TypeTokenMatrix as T
    return T(arr, list(rows), list(cols))


def sqr(dist, words):
    return np.array([[0.0 if a == b else dist[a, b] for b in words] for a in words])


def setof(L):
    return sorted(((round(s, 9), tuple(sorted(c))) for s, c in L))


# --------------------------------------------------------------- step 1 --
CUTS = [('distance', 'median'), ('distance', 'mean'), ('distance', '25%'), ('distance', '75%'), ('distance', '50%'),
        ('distance', '10%'), ('distance', 0.07), ('distance', 0.2), ('distance', 0.9), ('minsize', 2), ('minsize', 3),
        ('minsize', 9), ('distance', '100%'), ('distance', '5%')]
SCORES = ['without_size', 'with_size', 'with_size_sqrt', 'func']


def func(size, avgsim):
    return size * size * avgsim + 1


def run_step1(case):
    from nephosem.models import cbc
    pair = [x / 128.0 for x in case['pair']]
    tgt = [x / 128.0 for x in case['tgt']]
    words = W
    dist = {}
    for (i, j), d in zip(itertools.combinations(range(1, 5), 2), pair):
        dist[words[i], words[j]] = dist[words[j], words[i]] = d
    for i, d in zip(range(1, 5), tgt):
        dist[words[0], words[i]] = dist[words[i], words[0]] = d
    order = [words[i] for i in case['order']]
    mx = tm(sqr(dist, order), order, order)
    image = mats.snap(mx)
    judged = 0
    for x, k in enumerate((2, 3, 4, 9)):
        for (method, t), y in zip(CUTS, range(100)):
            if case['part'] is not None and (x + y) % 4 != case['part']:
                continue
            metric = SCORES[(x + y + case['rot']) % 4]
            highest = bool((x + y // 2 + case['rot']) % 2)
            kw = {'score_func': func} if metric == 'func' else {'score_metric': metric}
            try:
                want = cbcref.step1(words[0], dist, words, k, method, t, metric, highest,
                                    func if metric == 'func' else None, 1e-12)
            except Tie:
                continue
            judged += 1
            got = cbc.cluster_similar_elements(words[0], distmx=mx, k=k, prune_method=method, t=t,
                                               highest_score=highest, **kw)
            if highest:
                got = [(s, c) for s, c in got if len(c)]
            if setof(got) != setof(want):
                return 'clusters of the %d nearest, cut %s %s, score %s, highest %r: %r, expected %r' % (
                    k, method, t, metric, highest, setof(got), setof(want)), judged
            if k == 3:      # the words of step 1 do not influence each other
                both = cbc.cbc_step1_single([words[0], words[2]], distmx=mx, k=0.65, prune_method=method, t=t,
                                            highest_score=highest, **kw)
                first = setof([(s, c) for s, c in both if len(c)][:len(got)])
                if first != setof(got):
                    return 'step 1 gives %r for the first of two words, alone %r' % (first, setof(got)), judged
    if mats.snap(mx) != image:
        return 'the distances were changed', judged
    return None, judged


# ------------------------------------------------------------- cleaning --
CL = [('a', 'b'), ('b', 'c'), ('a', 'b', 'c'), ('c', 'd'), ('a', 'b', 'd'), ('a', 'b', 'c', 'd')]
POOL = [(s, c) for c in CL for s in (0.5, 0.004)] + [(-1, ('a',)), (-1, ('d',)), (-1, ('e',)), (0.0, ())]


def run_clean(case):
    from nephosem.models import cbc
    L = [(POOL[i][0], list(POOL[i][1]) if not case['rev'] else list(POOL[i][1])[::-1]) for i in case['l']]
    arg = [(s, list(c)) for s, c in L]
    got, sg = cbc.clean_clusters(arg)
    want, wsg = cbcref.clean(L, order=False)
    g = sorted(tuple(sorted(c)) for _, c in got)
    if g != sorted(tuple(sorted(c)) for c in want):
        return 'clusters left of %r: %r, expected %r' % (L, g, [sorted(c) for c in want]), 1
    if set(sg) != wsg or len(list(sg)) != len(wsg):
        return 'single words left of %r: %r, expected %r' % (L, sorted(sg), sorted(wsg)), 1
    sc = [s for s, _ in got]
    if sc != sorted(sc, reverse=True):
        return 'scores are not in descending order: %r' % sc, 1
    for s, c in got:
        if s != max(x for x, d in L if set(d) == set(c)):
            return 'score of %r is %r' % (sorted(c), s), 1
    if arg != L:
        return 'the list of clusters was changed', 1
    return None, 1


# -------------------------------------------------------------- merging --
def run_merge(case):
    from nephosem.models import cbc
    n, vals, theta = case['n'], case['v'], case['theta']
    m = np.eye(n) * case['diag']
    for (i, j), v in zip(itertools.combinations(range(n), 2), vals):
        m[i, j] = m[j, i] = v
    kw = {} if theta == 0.35 else {'theta': theta}
    got = [(int(a), int(b)) for a, b in cbc.get_merged_committee(m.copy(), **kw)]
    seen = [x for p in got for x in p if x >= 0]
    if sorted(seen) != list(range(n)):
        return 'committees in the result %r of %r' % (got, m.tolist()), 1
    for a, b in got:
        if b >= 0 and m[a, b] < theta:
            return 'committees of similarity %r were merged' % m[a, b], 1
    alone = [a for a, b in got if b < 0]
    for a, b in itertools.combinations(alone, 2):
        if m[a, b] >= theta:
            return 'committees %d and %d of similarity %r are both kept (%r) in %r' % (a, b, m[a, b], got, m.tolist()), 1
    # each committee, in order, takes the most similar of those after it that are still free
    used = set()
    part = dict(got)
    for i in range(n):
        if i in used:
            continue
        free = [j for j in range(i + 1, n) if j not in used]
        top = max([m[i, j] for j in free], default=-1)
        j = part.get(i)
        if j is None:
            return 'committee %d has no entry in %r of %r' % (i, got, m.tolist()), 1
        if top < theta:
            if j >= 0:
                return 'committee %d merged with %d' % (i, j), 1
        elif j < 0 or m[i, j] != top:
            return 'committee %d merged with %d of similarity %r, the most similar has %r' % (i, j, m[i, j], top), 1
        if j >= 0:
            used.add(j)
    return None, 1


# ------------------------------------------------- vectors and assignment --
COLS = COLS3 = ['x', 'y', 'z']


def rowsof(flat, n, m):
    return [list(flat[i * m:(i + 1) * m]) for i in range(n)]


def run_vec(case):
    from nephosem.models import cbc
    n, m = case['n'], case['m']
    rows = rowsof(case['f'], n, m)
    words, cols = W[:n], COLS[:m]
    freq = {(w, c): rows[i][j] for i, w in enumerate(words) for j, c in enumerate(cols)}
    f = np.array(rows, dtype=float if case['float'] else int)
    comms = [list(c) for r in range(1, n + 1) for c in itertools.combinations(range(n), r)]
    got = cbc.calc_committee_vectors([c[::-1] for c in comms], freqmx=f.copy())
    if np.asarray(got).shape != (len(comms), m):
        return 'shape %r' % (np.asarray(got).shape,), 1
    vec = []
    for c, g in zip(comms, np.asarray(got)):
        want = cbcref.vector([words[i] for i in c], freq, words, cols)
        vec.append(want)
        if not all(mats.close(float(a), b, 1e-9) for a, b in zip(g, want)):
            return 'vector of committee %r of %r is %r, expected %r' % (c, rows, list(g), want), 1
    # assignment of words to committees
    meas = {w: [float(x) for x in rows[i]] for i, w in enumerate(words)}
    judged = 1
    for pick in (p for p in ([0, 1], [len(comms) - 1], [2, 0, 3] if len(comms) > 3 else [1, 0]) if max(p) < len(comms)):
        for theta in (0.25, 0.6, 0.97):
            cs = [[words[i] for i in comms[p]] for p in pick]
            try:
                left, full = cbcref.step3(words, meas, cs, [vec[p] for p in pick], theta)
            except Tie:
                continue
            judged += 1
            arg = [list(c) for c in cs]
            kw = {} if theta == 0.25 else {'theta': theta}
            R, C = cbc.cbc_step3(list(words), measmx=f.astype(float), comms=arg, commx=np.array([vec[p] for p in pick]), **kw)
            if sorted(R) != sorted(left) or list(R) != left:
                return 'left over words %r, expected %r (theta %r, rows %r, committees %r)' % (R, left, theta, rows, cs), judged
            if [sorted(c) for c in C] != [sorted(c) for c in full]:
                return 'committees %r, expected %r' % (C, full), judged
            if arg != cs:
                return 'the committees given were changed', judged
    return None, judged


def run_step2(case):
    from nephosem.models import cbc
    big = case.get('table')
    names, COLS = (['w%d/N' % i for i in range(len(big))], BIGCOLS[:len(big[0])]) if big else (W, COLS3)
    rows = big or [ROWS[i] for i in case['rows']]
    words = [names[i] for i in case['order']]
    byw = {w: r for w, r in zip(names, rows)}
    freq = {(w, c): byw[w][j] for w in words for j, c in enumerate(COLS)}
    meas = ppmi(words, freq, COLS)
    L = [(s, [names[i] for i in c]) for s, c in case['L']]
    f = np.array([[freq[w, c] for c in COLS] for w in words])
    p = np.array([meas[w] for w in words])
    judged = 0
    for theta in (0.35, 0.7, 0.95):
        try:
            want = cbcref.step2(L, words, freq, meas, COLS, theta)
        except Tie:
            continue
        judged += 1
        kw = {} if theta == 0.35 else {'theta': theta}
        got = cbc.cbc_step2([(s, list(c)) for s, c in L], elements=list(words), freqmx=f.copy(), ppmimx=p.copy(), **kw)
        if not (isinstance(got, tuple) and len(got) == 2):
            return 'result %r' % (got,), judged
        comms, mx = got
        if sorted(map(sorted, comms)) != sorted(map(sorted, want)):
            return 'committees %r, expected %r (theta %r)' % (sorted(map(sorted, comms)), sorted(map(sorted, want)), theta), judged
        if any(len(set(c)) != len(c) for c in comms):
            return 'a word is twice in a committee: %r' % comms, judged
        for c, g in zip(comms, np.asarray(mx) if len(comms) else []):
            v = cbcref.vector(c, freq, words, COLS)
            if not all(mats.close(float(a), b, 1e-9) for a, b in zip(g, v)):
                return 'vector of %r is %r, expected %r' % (c, list(g), v), judged
    return None, judged


# ---------------------------------------------------------------- whole --

BIGCOLS = ['c1', 'c10', 'c', '1', '#', 'c2', 'w', 'c11', '\u00e9', '*', 'd', 'e']
BIGW = ['w1/N', 'w10/N', 'w/N', 'w1/V', '10', '#', '*', 'w2/N', 'w11/N', '\u00e9/N', 'a', 'ab', 'b', 'w100/N', 'W1/N', 'c1']


def groups(n, m, g, seed):
    """Frequencies of n words that fall into g groups."""
    out = []
    for i in range(n):
        out.append([(60 if j % g == i % g else 7) + ((i * 37 + j * 61 + seed * 13) * (i + 2 * j + seed + 3)) % 41 for j in range(m)])
    return out


ROWS = [(9, 2, 1), (8, 3, 1), (1, 9, 2), (2, 7, 1), (1, 2, 9), (3, 1, 8), (4, 4, 1), (1, 5, 6)]


def ppmi(words, freq, COLS=COLS):
    tot = float(sum(freq.values()))
    r = {w: sum(freq[w, c] for c in COLS) for w in words}
    k = {c: sum(freq[w, c] for w in words) for c in COLS}
    return {w: [max(0.0, math.log(freq[w, c] * tot / (r[w] * k[c]))) if freq[w, c] else 0.0 for c in COLS] for w in words}


PARS = []
for x, (k, t1, t2, (pm, t), sm, hs) in enumerate([
        (100, 0.35, 0.25, ('distance', 'median'), 'without_size', False),
        (3, 0.6, 0.9, ('distance', 'mean'), 'with_size', True),
        (2, 0.9, 0.95, ('distance', '75%'), 'with_size_sqrt', False),
        (0.7, 0.97, 0.8, ('minsize', 2), 'without_size', True),
        (4, 0.2, 0.99, ('distance', 0.25), 'without_size', False),
        (3, 0.8, 0.97, ('distance', '25%'), 'with_size', False),
        (100, 0.99, 0.999, ('minsize', 3), 'with_size_sqrt', True)]):
    PARS.append({'k': k, 'theta1': t1, 'theta2': t2, 'prune_method': pm, 't': t, 'score_metric': sm, 'highest_score': hs})


def run_whole(case):
    from nephosem.models import cbc
    CBC = cbc.CBC
    from nephosem.specutils import mxcalc
    if case.get('table'):
        n, COLS = len(case['table']), BIGCOLS[:len(case['table'][0])]
        names = BIGW[:n]
        byw = {w: list(r) for w, r in zip(names, case['table'])}
    else:
        n, COLS = len(case['rows']), COLS3
        names = W[:n]
        byw = {w: ROWS[i] for w, i in zip(names, case['rows'])}
    freq = {(w, c): byw[w][j] for w in names for j, c in enumerate(COLS)}
    # angles between the frequency rows: all similarities are positive
    smooth = {w: [math.log(1 + x) for x in byw[w]] for w in names} if case['smooth'] else None
    mxwords = [names[i] for i in case['mxorder']]
    elements = [names[i] for i in case['order']][:case['num']]
    meas = smooth or ppmi(names, freq, COLS)
    f = tm(sp.csr_matrix(np.array([[freq[w, c] for c in COLS] for w in mxwords])), mxwords, COLS)
    par = dict(PARS[case['par']])
    dist = {(a, b): 1 - cbcref.cos(meas[a], meas[b]) for a in names for b in names if a != b}
    kw = {}
    if smooth:
        kw['measmx'] = tm(sp.csr_matrix(np.array([meas[w] for w in mxwords])), mxwords, COLS)
        kw['distmx'] = mxcalc.compute_distance(kw['measmx'])
    elif case['par'] % 2:
        kw['measmx'] = mxcalc.compute_ppmi(f)
    if case['iter']:
        kw['num_iter'] = par['num_iter'] = case['iter']
    images = [mats.snap(x) for x in [f] + [kw[y] for y in ('measmx', 'distmx') if y in kw]]
    sub = elements[:case['first']] if case['first'] else elements
    try:
        C, R = cbcref.whole(sub, {(w, c): freq[w, c] for w in names for c in COLS}, meas, dist, COLS, par)
    except Tie:
        return None, 0
    given = list(elements)
    o = CBC(given, f, workers=1, **dict({k: v for k, v in par.items() if k != 'num_iter'}, **kw))
    a = {'num_eles': case['first']} if case['first'] else {}
    keep = cbc.Pool, cbc.cpu_count
    if case['multi']:
        cbc.Pool, cbc.cpu_count = FakePool, lambda: 3
        FakePool.plan = (0, 0) if case['multi'] == 1 else (1, 0)
    try:
        gc, gr = o.cluster(multicore=bool(case['multi']), **a)
    finally:
        cbc.Pool, cbc.cpu_count = keep
    ROUNDS[min(len(C), 3)] = ROUNDS.get(min(len(C), 3), 0) + 1
    if [sorted(x) for x in gr] != [sorted(x) for x in R]:
        return 'left over words %r, expected %r (committees %r, expected %r)' % (
            gr, R, gc, [list(map(sorted, c)) for c in C]), 1
    show = lambda cs: [sorted(sorted(c) for c in x) for x in cs]
    if show(gc) != show(C):
        return 'committees %r, expected %r' % (show(gc), show(C)), 1
    if given != elements:
        return 'the list of words was changed', 1
    if images != [mats.snap(x) for x in [f] + [kw[y] for y in ('measmx', 'distmx') if y in kw]]:
        return 'a matrix was changed', 1
    return None, 1


# ----------------------------------------------------------------- pool --
class Result(object):
    def __init__(self, f):
        try:
            self.value, self.error = f(), None
        except Exception as e:
            self.value, self.error = None, e

    def get(self, timeout=None):
        if self.error:
            raise self.error
        return self.value

    def wait(self, timeout=None):
        pass

    def ready(self):
        return True

    def successful(self):
        return self.error is None


class FakePool(object):
    """Tasks run in the order and in the processes that `plan` says."""
    plan = None
    tasks = 0

    def __init__(self, processes=None, initializer=None, initargs=(), *a, **k):
        self.n = processes
        if processes is not None and processes < 1:
            raise ValueError('Number of processes must be at least 1')
        self.num = 0
        if initializer:
            initializer(*initargs)

    def _run(self, f, args, kwds):
        import pickle
        who = FakePool.plan[self.num % len(FakePool.plan)] % (self.n or 1)
        self.num += 1
        FakePool.tasks += 1
        f, args, kwds = pickle.loads(pickle.dumps((f, args, kwds)))
        real = os.getpid
        os.getpid = lambda: 70000 + who
        try:
            return Result(lambda: f(*args, **kwds))
        finally:
            os.getpid = real

    def apply_async(self, func, args=(), kwds=None, callback=None, error_callback=None):
        r = self._run(func, tuple(args), dict(kwds or {}))
        if callback and not r.error:
            callback(r.value)
        if error_callback and r.error:
            error_callback(r.error)
        return r

    def apply(self, func, args=(), kwds=None):
        return self._run(func, tuple(args), dict(kwds or {})).get()

    def starmap_async(self, func, it, chunksize=None):
        rs = [self._run(func, tuple(a), {}) for a in it]
        return Result(lambda: [r.get() for r in rs])

    def starmap(self, func, it, chunksize=None):
        return self.starmap_async(func, it).get()

    def map_async(self, func, it, chunksize=None):
        return self.starmap_async(func, [(x,) for x in it])

    def map(self, func, it, chunksize=None):
        return self.map_async(func, it).get()

    imap = map
    imap_unordered = map

    def close(self):
        pass

    join = terminate = close

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


def run_pool(case):
    from nephosem.models import cbc
    import shutil
    names = W
    dist = {}
    for x, (i, j) in enumerate(itertools.combinations(range(5), 2)):
        dist[names[i], names[j]] = dist[names[j], names[i]] = (7 * x % 11 + 1) / 16.0 + x / 256.0
    mx = tm(sqr(dist, names), names, names)
    kw = dict(distmx=mx, k=case['k'], prune_method='distance', t='median', score_metric='with_size')
    words = names[:case['words']]
    want = setof(cbc.cbc_step1_single(list(words), **kw))
    keep = cbc.Pool, cbc.cpu_count
    cbc.Pool, cbc.cpu_count = FakePool, lambda: case['cpus']
    FakePool.plan = case['plan']
    home = os.path.expanduser('~')
    box = os.path.join(home, '.cbc')
    shutil.rmtree(box, ignore_errors=True)
    os.makedirs(box)
    with open(os.path.join(home, 'mine'), 'w') as f:
        f.write('x')
    try:
        got = setof(cbc.cbc_step1_multicore(list(words), **kw))
    finally:
        cbc.Pool, cbc.cpu_count = keep
    if got != want:
        return '%d cores, tasks run by processes %r: clusters %r, with one process %r' % (
            case['cpus'], case['plan'], got, want), 1
    left = [os.path.join(d, x) for d, _, fs in os.walk(box) for x in fs]
    if left:
        return 'temporary files left: %r' % left, 1
    if not os.path.exists(os.path.join(home, 'mine')):
        return 'a file in the home directory is gone', 1
    return None, 1


FREQ = [[9, 0, 0, 1], [8, 1, 0, 1], [0, 9, 1, 1], [1, 8, 0, 1], [0, 0, 9, 1], [1, 0, 8, 1], [1, 1, 1, 9], [3, 0, 2, 8]]


def faulty(case, n):
    """The whole algorithm in a process of its own, in which the n-th file operation fails."""
    import shutil
    from mc import fsched
    words = ['w%d' % i for i in range(8)]
    home = os.path.expanduser('~')
    box = os.path.join(home, '.cbc')

    def body():
        from nephosem.models import cbc
        cbc.Pool, cbc.cpu_count = FakePool, lambda: case['cpus']
        FakePool.plan = case['plan']
        f = tm(sp.csr_matrix(np.array(FREQ)), words, ['c0', 'c1', 'c2', 'c3'])
        Cs, Rs = cbc.CBC(words, f, k=3, theta1=0.35, theta2=case['theta'], num_iter=2).cluster()
        return [sorted(map(sorted, c)) for c in Cs], [sorted(r) for r in Rs]
    shutil.rmtree(box, ignore_errors=True)
    r = fsched.Run(body, home)
    op, k = None, 0
    try:
        while r.result is None:
            if r.pending[0] not in ('stat', 'opened') and op is None:
                k += 1
                if k == n:
                    op = r.pending
            r.step('fail' if op == r.pending and k == n else 'go')
            if op:
                n = 0
    finally:
        r.kill()
        shutil.rmtree(box, ignore_errors=True)
    return op, r.result


def run_fault(case):
    words = ['w%d' % i for i in range(8)]
    _, want = faulty(case, -1)
    if want[0] != 'ok':
        return 'the clustering ended with %r' % (want,), 1
    n = 0
    while True:
        n += 1
        op, (how, got) = faulty(case, n)
        if op is None:
            return None, n
        if how == 'hang':
            return 'the clustering does not end when %s %s fails' % op, n
        if how == 'raise' or got == want[1]:
            continue
        # otherwise the words of the round that failed must all be there as words without committee
        Cs, Rs = got
        i = len(Cs) - 1
        before = sorted(words) if i == 0 else want[1][1][i - 1]
        if Cs[:i] != want[1][0][:i] or Rs[:i] != want[1][1][:i] or Cs[i:] != [[]] or Rs[i:] != [before]:
            return 'when %s %s fails the committees are %r with residues %r, without the failure %r' % (
                op[0], op[1].rsplit('/')[-1], Cs, Rs, want[1]), n


RUN = {'fault': run_fault, 'step1': run_step1, 'clean': run_clean, 'merge': run_merge, 'vec': run_vec, 'step2': run_step2,
       'whole': run_whole, 'pool': run_pool}


def shards(tier):
    n = {'step1': 16, 'clean': 8, 'merge': 2, 'vec': 4, 'step2': 8, 'whole': 16, 'pool': 2, 'fault': 4}
    return [(k, i, c) for k, c in n.items() for i in range(c)]


def allcases(kind, tier):
    quick = tier == 'quick'
    if kind == 'step1':
        num = 0
        for pair in itertools.permutations((1, 2, 4, 8, 16, 33)):
            for tgt in itertools.permutations((3, 9, 20, 60)):
                num += 1
                if quick and num % 11:
                    continue
                order = list(itertools.permutations(range(5)))[num * 7 % 120]
                for part in (range(4) if not quick else [num // 11 % 4]):
                    yield {'kind': kind, 'pair': pair, 'tgt': tgt, 'order': order, 'part': part, 'rot': num % 8 if not quick else num // 11 // 4 % 8}
    elif kind == 'clean':
        for n in range(0, 4 if quick else 5):
            for l in itertools.product(range(len(POOL)), repeat=n):
                yield {'kind': kind, 'l': l, 'rev': bool(sum(l) % 2)}
    elif kind == 'merge':
        for n, vals in ((1, ()), (2, (0.2, 0.35, 0.5, 1.0)), (3, (0.2, 0.35, 0.5, 1.0)), (4, (0.2, 0.35, 0.5, 1.0)), (4, (0.3, 0.5, 0.5 + 1e-9, 0.5 - 1e-9)),
                        (5, (0.2, 0.5) if quick else (0.2, 0.5, 0.7))):
            for v in itertools.product(vals, repeat=n * (n - 1) // 2):
                for theta, diag in ((0.35, 1.0), (0.5, 1.0), (0.35, 0.0)) if n < 5 else ((0.35, 1.0),):
                    yield {'kind': kind, 'n': n, 'v': v, 'theta': theta, 'diag': diag}
    elif kind == 'vec':
        for n, m, vals in ((2, 2, (0, 1, 4)), (3, 2, (0, 1, 4)), (2, 3, (0, 2, 3)), (1, 2, (0, 1, 2))) + \
                (() if quick else ((4, 2, (0, 1, 3)), (3, 3, (0, 1, 3)))):
            for x, f in enumerate(itertools.product(vals, repeat=n * m)):
                if any(f):
                    yield {'kind': kind, 'n': n, 'm': m, 'f': f, 'float': bool(x % 2)}
    elif kind == 'step2':
        pool = [c for r in (2, 3) for c in itertools.combinations(range(5), r)]
        num = 0
        for rows in itertools.combinations(range(8), 5):
            for a, b, c in itertools.combinations(pool, 3):
                num += 1
                if num % (97 if quick else 11):
                    continue
                sing = [(-1, (i,)) for i in range(5)][num % 3:]
                yield {'kind': kind, 'rows': rows, 'order': list(itertools.permutations(range(5)))[num * 11 % 120],
                       'L': [(0.5, a), (0.9, b), (0.7, c), (0.9, b)][:2 + num % 3] + sing}
        for n, g, seed in ((70, 1, 0), (70, 2, 1), (120, 2, 2), (300, 1, 3)):
            yield {'kind': kind, 'table': groups(n, 6, g, seed), 'order': list(range(n)), 'L': [
                (0.9 - c / 8, tuple(i for i in range(n) if i % g == c)[:4]) for c in range(g)] + [(-1, (i,)) for i in range(4 * g, n)]}
        yield {'kind': kind, 'rows': (0, 1, 2, 3, 4), 'order': [0, 1, 2, 3, 4], 'L': []}
        yield {'kind': kind, 'rows': (0, 1, 2, 3, 4), 'order': [0, 1, 2, 3, 4], 'L': [(-1, (0,)), (-1, (3,))]}
    elif kind == 'whole':
        num = 0
        perms = list(itertools.permutations(range(5)))
        for rows in itertools.combinations(range(8), 5):
            for par in range(len(PARS)):
                for smooth in (True, False):
                    for o in range(0, 120, 12 if quick else 1):
                        num += 1
                        yield {'kind': kind, 'rows': rows, 'order': perms[(o + num) % 120], 'par': par, 'smooth': smooth,
                               'mxorder': perms[(3 * num) % 120] if num % 3 else perms[(o + num) % 120],
                               'num': 5 if not smooth or num % 5 else 4, 'first': 4 if smooth and num % 7 == 0 else 0,
                               'iter': 1 if num % 11 == 0 else 0, 'multi': num % 3 if num % 4 == 0 else 0}
        for n, m, g in ((8, 5, 3), (12, 6, 3), (12, 11, 4), (16, 12, 5)):
            for seed in range(4 if quick else 20):
                for par in range(len(PARS)):
                    for smooth in (True, False):
                        num += 1
                        o = list(range(n))
                        shift = o[num % n:] + o[:num % n]
                        yield {'kind': kind, 'table': groups(n, m, g, seed), 'order': [shift, o, o[::-1]][num % 3], 'par': par,
                               'smooth': smooth, 'mxorder': [o, shift[::-1]][num // 2 % 2], 'num': n if num % 5 or not smooth else n - 2,
                               'first': n - 3 if smooth and num % 7 == 0 else 0, 'iter': 1 if num % 11 == 0 else 0,
                               'multi': num % 3 if num % 4 == 0 else 0}
    elif kind == 'fault':
        for cpus, plan in ((3, (0, 0)), (3, (0, 1)), (4, (0, 1, 0)), (2, (0,))):
            for theta in (0.25, 0.8):
                yield {'kind': kind, 'cpus': cpus, 'plan': plan, 'theta': theta}
    else:
        for cpus in (1, 2, 3, 4):
            for words in (5, 3, 1):
                for plan in itertools.product(range(max(1, cpus - 1)), repeat=max(1, cpus - 1)):
                    yield {'kind': kind, 'cpus': cpus, 'words': words, 'plan': plan, 'k': 3}


def cases(shard, tier):
    kind, i, n = shard
    for x, c in enumerate(allcases(kind, tier)):
        if x % n == i:
            yield c


def run_shard(shard, ctx):
    setup()
    for case in cases(shard, ctx.tier):
        ctx.ran()
        ctx.state(repr(case))
        ok, d = ctx.attempt(lambda: RUN[case['kind']](case), 'cbc:' + case['kind'], case)
        if ok:
            ctx.trans(d[1])
            ctx.count('judged_' + case['kind'], d[1])
            if not d[1]:
                ctx.count('not_judged_' + case['kind'])
            if d[0]:
                ctx.fail('cbc:' + case['kind'], '%s in %r' % (d[0], case), case)
        ctx.sample(case, 1)
    for k, v in ROUNDS.items():
        ctx.count('whole_rounds_%d' % k, v)
    ROUNDS.clear()


def replay(case, ctx):
    setup()
    ok, d = ctx.attempt(lambda: RUN[case['kind']](case), 'replay', case)
    if ok and d[0]:
        ctx.fail('replay', d[0], case)
