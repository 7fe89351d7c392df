"""C10: a vocabulary behaves as a map from items to frequencies.

All small vocabularies (ordered mappings over an item alphabet) x all ways to make them x all
operations (quick: one, thorough: two in a row); everything that can be observed is compared
with a plain dictionary before and after, on the result and on the source.
"""
import ast
import copy
import itertools
import pickle
import re
from collections import defaultdict

from mc import env

ID = 'C10'
LEVEL = 'model_checking'
ASSUMPTIONS = ['looking up an item that is not there may raise KeyError or give 0, but adds nothing',
               'regular expressions match from the start of an item (re.match)']
BOUNDS = ('all ordered vocabularies over <=3 of 4 items with frequencies {0,1,2} (thorough {0,1,2,5}) x 5 ways of '
          'construction (quick: one way for 3 items) x all operations, the printed forms too; <=2 items with fractional, negative and huge frequencies; all sequences of two operations from vocabularies '
          'of <=1 item (thorough <=3); vocabularies of 11, 40 and 130 items in three orders x 5 ways x all operations, and '
          'all pairs of operations on the one of 11')
BIG = ['w%d' % i for i in range(121)] + ['w', 'w/N', 'W1', '1', '10', '//N', '#', '*/N', 'nan', 'a/b/N', '[', '', 'item', 'freq', 'a/V']


def big(n, order):
    names = (ITEMS + BIG[::-1])[:n]
    if order == 1:
        names = sorted(names, reverse=True)
    freqs = {0: lambda i: i % 7, 1: lambda i: (i * 37) % (n + 3), 2: lambda i: n - i + 2}[order]
    return [(w, freqs(i)) for i, w in enumerate(names)]
ITEMS = ['a/N', 'b/N', 'a', '\u00e9t\u00e9']
WAYS = ['dict', 'defaultdict', 'frame', 'grown', 'set']
THRESH = [-1, 0, 0.5, 1, 2, 3]


def ops():
    out = []
    for i in ITEMS[:3]:
        out += [('inc', i, 1), ('inc', i, -1), ('set', i, 2), ('get', i)]
    out += [('inc', 'a/N', 3), ('get', 'zz'), ('inc1', 'b/N')]
    for n in range(4):
        for c in itertools.combinations(['zz', 'b/N', 'a/N', 'a'], n):
            out.append(('items', list(c)))
    out += [('items', ['a/N', 'a/N', 'b/N'])]
    for c in ([0], [1], [2, 1], [7], [2, 2]):
        out.append(('freqs', c))
    for s in [(None, None), (None, 1), (None, 2), (1, None), (0, 0), (-1, None), (None, 9), (1, 2)]:
        out.append(('slice', s))
    for o in ('<', '<=', '==', '>', '>='):
        for t in THRESH:
            out.append(('thr', o, t))
    for a, b in [(('>=', 1), ('<', 2)), (('>', 0), ('<=', 2)), (('==', 1), ('==', 1)), (('>', 1), ('<', 1))]:
        out.append(('cond', a, b))
    out += [('condlist', ['a/N', 'b/N'], ('>', 1)), ('condlist2', ['b/N', 'zz'], [1, 2])]
    for p in ['a', '.*/N', r'[ab]/N$', '\u00e9', '.', 'N', 'zz']:
        out.append(('match', p))
    for w in ['a', 'b', 'a/N', '\u00e9t\u00e9', '', 'N']:
        out.append(('word', w))
    for c in ([], ['a/N'], ['zz', 'a'], ['b/N', 'a/N', 'b/N'], ['a', 'a/N', 'a/N/x'], ['a/N/x', 'a/N']):
        out.append(('sub', c))
    out += [('copy',), ('deepcopy',), ('ccopy',), ('cdeep',), ('pickle',), ('fromdict',), ('fromframe',), ('dictedit',),
            ('frameedit',), ('listedit',), ('equal',), ('show',)]
    return out


OPS = ops()
CHANGING = ('inc', 'inc1', 'set', 'frameedit', 'listedit', 'dictedit')
FIRST = [o for o in OPS if o[0] not in ('show', 'equal', 'ccopy', 'match', 'thr', 'get', 'listedit')]


def vocabs(maxn, freqs):
    for n in range(maxn + 1):
        for its in itertools.permutations(ITEMS, n):
            for fs in itertools.product(freqs, repeat=n):
                yield list(zip(its, fs))


def shards(tier):
    k = 16
    out = [('one', 3, (0, 1, 2) if tier == 'quick' else (0, 1, 2, 5), i, k) for i in range(k)]
    out += [('one', 2, (0.5, 1.25, -3, 2 ** 40 + 1), i, k) for i in range(k)]
    out += [('big', n, o, i, 2) for n in (11, 40, 130) for o in range(3) for i in range(2)]
    out += [('bigtwo', 11, o, i, 4) for o in range(3) for i in range(4)]
    if tier == 'quick':
        out += [('two', 1, (1, 2), i, k) for i in range(k)]
    else:
        out += [('two', 2, (1, 2), i, k) for i in range(k)]
        out += [('two', 3, (0, 2), i, k) for i in range(k)]
    return out


def cmp(o, a, b):
    return {'<': a < b, '<=': a <= b, '==': a == b, '>': a > b, '>=': a >= b}[o]


def pick(v, o, t):
    return {'<': lambda: v < t, '<=': lambda: v <= t, '==': lambda: v == t, '>': lambda: v > t, '>=': lambda: v >= t}[o]()


def make(pairs, way):
    from nephosem import Vocab
    import pandas as pd
    if way == 'dict':
        return Vocab(dict(pairs))
    if way == 'defaultdict':
        return Vocab(defaultdict(int, pairs))
    if way == 'frame':
        return Vocab(pd.DataFrame(pairs, columns=['item', 'freq']))
    v = Vocab()
    for k, f in pairs:
        if way == 'grown':
            v.increment(k, f)
        else:
            v[k] = f
    return v


def check(v, d, light=False):
    """Everything observable of v against the plain mapping d; None or a message."""
    got = v.get_dict()
    if dict(got) != d:
        return 'contents %r, expected %r' % (dict(got), d)
    if len(v) != len(d):
        return 'length %r' % len(v)
    if sorted(v.keys()) != sorted(d) or sorted(v.values()) != sorted(d.values()) or sorted(v.items()) != sorted(d.items()):
        return 'keys/values/items %r %r %r, expected %r' % (v.keys(), v.values(), v.items(), d)
    if v.sum() != sum(d.values()) or v.sum_freq() != sum(d.values()):
        return 'sum %r' % v.sum()
    if v.isEmpty() != (not d):
        return 'isEmpty %r' % v.isEmpty()
    for k in ITEMS + ['zz']:
        if (k in v) != (k in d):
            return '%r in vocabulary: %r' % (k, k in v)
        if k in d and v[k] != d[k]:
            return 'frequency of %r is %r, expected %r' % (k, v[k], d[k])
    if light:
        return None
    byfreq = sorted(sorted(d), key=lambda k: -d[k])
    df = v.dataframe
    if list(zip(df['item'], df['freq'])) != [(k, d[k]) for k in byfreq]:
        return 'table %r, expected %r' % (list(zip(df['item'], df['freq'])), byfreq)
    for sort, desc, want in (('alpha', False, sorted(d)), ('alpha', True, sorted(d, reverse=True)), ('freq', True, byfreq)):
        l = v.get_item_list(sorting=sort, descending=desc)
        if list(l) != want:
            return 'item list %s/%s %r, expected %r' % (sort, desc, l, want)
    l = v.get_item_list(sorting='freq', descending=False)
    if l != sorted(sorted(d), key=lambda k: d[k]):
        return 'item list ascending %r' % l
    return None


def apply(op, v, d):
    """Run op on vocabulary v and mapping d.  Returns (message, result vocabulary, its mapping, d after)."""
    from nephosem import Vocab
    import pandas as pd
    k = op[0]
    d = dict(d)
    if k in ('inc', 'inc1'):
        if k == 'inc':
            v.increment(op[1], op[2])
        else:
            v.increment(op[1])
        d[op[1]] = d.get(op[1], 0) + (op[2] if k == 'inc' else 1)
        return None, None, None, d
    if k == 'set':
        v[op[1]] = op[2]
        d[op[1]] = op[2]
        return None, None, None, d
    if k == 'get':
        try:
            x = v[op[1]]
        except KeyError:
            return ('KeyError for an item that is there' if op[1] in d else None), None, None, d
        return (None if x == d.get(op[1], 0) else 'lookup gives %r' % x), None, None, d
    if k in ('items', 'freqs'):
        arg = list(op[1])
        r = v[arg]
        w = {i: f for i, f in d.items() if (i if k == 'items' else f) in op[1]}
        return (None if arg == op[1] else 'the argument was changed'), r, w, d
    if k == 'slice':
        s = slice(*op[1])
        byfreq = sorted(sorted(d), key=lambda i: -d[i])[s]
        return None, v[s], {i: d[i] for i in byfreq}, d
    if k == 'thr':
        l, l2 = pick(v, op[1], op[2]), pick(v.freq, op[1], op[2])
        want = sorted(i for i in d if cmp(op[1], d[i], op[2]))
        if sorted(l) != want or sorted(l2) != want:
            return 'selected %r, expected %r' % (l, want), None, None, d
        return None, v[l], {i: d[i] for i in want}, d
    if k == 'cond':
        (o1, t1), (o2, t2) = op[1:]
        return None, v[pick(v.freq, o1, t1), pick(v, o2, t2)], \
            {i: f for i, f in d.items() if cmp(o1, f, t1) and cmp(o2, f, t2)}, d
    if k == 'condlist':
        o, t = op[2]
        return None, v[list(op[1]), pick(v, o, t)], {i: f for i, f in d.items() if i in op[1] and cmp(o, f, t)}, d
    if k == 'condlist2':
        return None, v[list(op[1]), list(op[2])], {i: f for i, f in d.items() if i in op[1] and f in op[2]}, d
    if k == 'match':
        l = v.match('item', op[1])
        want = sorted(i for i in d if re.match(op[1], i))
        if sorted(l) != want:
            return 'matched %r, expected %r' % (l, want), None, None, d
        return None, v[list(l)], {i: d[i] for i in want}, d
    if k == 'word':
        return None, v.select_items(op[1]), {i: f for i, f in d.items() if i.rsplit('/', 1)[0] == op[1]}, d
    if k == 'sub':
        return None, v.subvocab(list(op[1])), {i: d.get(i, 0) for i in op[1]}, d
    if k == 'copy':
        return None, v.copy(), dict(d), d
    if k == 'deepcopy':
        return None, v.deepcopy(), dict(d), d
    if k == 'ccopy':
        r = copy.copy(v)       # a shallow copy may share the mapping: look only
        return check(r, d), None, None, d
    if k == 'cdeep':
        return None, copy.deepcopy(v), dict(d), d
    if k == 'pickle':
        return None, pickle.loads(pickle.dumps(v)), dict(d), d
    if k == 'fromdict':
        return None, Vocab(v.get_dict()), dict(d), d
    if k == 'fromframe':
        return None, Vocab(v.dataframe), dict(d), d
    if k == 'dictedit':        # what was handed out is the caller's
        g = v.get_dict()
        for i in list(g):
            g[i] = 99
        g['new'] = 1
        return None, None, None, d
    if k == 'frameedit':
        g = v.dataframe
        g['freq'] = 99
        return None, None, None, d
    if k == 'listedit':
        for g in (v.keys(), v.values(), v.items(), v.get_item_list(), v > 0):
            g.append('new')
            del g[0]
        return None, None, None, d
    if k == 'equal':
        for e in (dict(d), dict(d, zz=1), {i: f + 1 for i, f in d.items()}, dict(list(d.items())[:1]),
                  dict(list(d.items())[::-1])):
            o = Vocab(dict(e))
            if bool(v.equal(o)) != (e == d) or bool(o.equal(v)) != (e == d):
                return 'equal to %r: %r' % (e, v.equal(o)), None, None, d
        return None, None, None, d
    return shown(v, d), None, None, d


def shown(v, d):
    """The printed form has every item, or of many the three with the highest and lowest frequencies."""
    text = repr(v)
    if str(v) != text or text[:1] + text[-1:] != '[]':
        return 'printed as %r and %r' % (text, str(v))
    parts = [ast.literal_eval('[%s]' % p) for p in text[1:-1].split(' ... ')]
    if any(d.get(i) != f for p in parts for i, f in p):
        return 'printed as %r' % text
    fs = sorted(d.values(), reverse=True)
    if len(parts) == 1 and sorted(parts[0]) != sorted(d.items()) or \
            len(parts) == 2 and [[f for _, f in p] for p in parts] != [fs[:3], fs[-3:]]:
        return 'printed as %r' % text
    lines = v.describe().split('\n')
    if lines[:2] != ['Total items: %d' % len(d), 'Total freqs: %s' % sum(d.values())]:
        return 'described as %r' % lines
    return None


def run_case(case):
    pairs, way, seq = [tuple(p) for p in case['vocab']], case['way'], case['ops']
    src = dict(pairs)
    v, d = make(pairs, way), dict(src)
    m = check(v, d, len(seq) > 1)
    if m:
        return 'new vocabulary: ' + m
    older = []
    for n, op in enumerate(seq):
        msg, r, rd, d = apply(op, v, d)
        if msg:
            return '%r: %s' % (op, msg)
        m = check(v, d, n + 1 < len(seq) or op[0] not in CHANGING)
        if m:
            return 'after %r: %s' % (op, m)
        for o, od in older:
            m = check(o, od, True)
            if m:
                return '%r changed an earlier vocabulary: %s' % (op, m)
        if r is not None:
            m = check(r, rd, n + 1 < len(seq))
            if m:
                return 'result of %r: %s' % (op, m)
            # changing the result does not change the source and vice versa
            r2, w2 = r, dict(rd)
            r2.increment('fresh', 4)
            w2['fresh'] = w2.get('fresh', 0) + 4
            for i in list(rd)[:1]:
                r2[i] = 77
                w2[i] = 77
            m = check(v, d, n + 1 < len(seq))
            if m:
                return 'changing the result of %r changed its source: %s' % (op, m)
            v.increment('b/N', 5)
            d['b/N'] = d.get('b/N', 0) + 5
            m = check(r2, w2, True)
            if m:
                return 'changing the source of %r changed the result: %s' % (op, m)
            older.append((v, dict(d)))
            v, d = r2, w2
    return None


def run_shard(shard, ctx):
    env.load()
    kind, maxn, freqs, i, k = shard
    n = 0
    if kind in ('big', 'bigtwo'):
        pairs = big(maxn, freqs)
        more = [('slice', (3, 12)), ('slice', (10, None)), ('slice', (None, -10)), ('slice', (-11, -2)), ('freqs', [2, 10, 12, 40]),
                ('items', ['w1', 'w10', 'w100', 'w', 'w/N', 'nan']), ('sub', BIG[3:20] + ['w', 'zz']), ('thr', '>', 10),
                ('thr', '<=', 9), ('match', 'w1'), ('match', '.*0$'), ('word', 'w'), ('word', '/'), ('word', 'a/b'),
                ('items', ['item', 'freq', '']), ('inc', 'w10', 100), ('set', 'item', 12)]
        for n, way in enumerate(WAYS):
            seqs = [(o,) for o in OPS + more] if kind == 'big' else [(a, b) for a in FIRST + more for b in OPS[::3] + more]
            if kind == 'bigtwo' and way not in ('dict', 'grown'):
                continue
            ctx.state(repr((pairs, way)))
            for j, seq in enumerate(seqs):
                if j % k != i:
                    continue
                ctx.ran()
                ctx.trans(len(seq))
                case = {'vocab': pairs, 'way': way, 'ops': list(seq)}
                ok, d = ctx.attempt(lambda: run_case(case), 'vocab:%s' % seq[-1][0], case)
                if ok and d:
                    ctx.fail('vocab:%s' % seq[-1][0], '%s in %r' % (d, case), case)
            ctx.sample({'vocab': pairs[:3], 'way': way}, 1)
        return
    for pairs in vocabs(maxn, freqs):
        for way in WAYS:
            n += 1
            if n % k != i or (ctx.tier == 'quick' and len(pairs) == 3 and way != 'dict'):
                continue
            ctx.state(repr((pairs, way)))
            if kind == 'one':
                seqs = [(o,) for o in OPS]
            else:
                if way in ('frame', 'set') or (maxn == 1 and way == 'dict'):
                    continue
                seqs = itertools.product(FIRST, OPS)
            for seq in seqs:
                ctx.ran()
                ctx.trans(len(seq))
                case = {'vocab': pairs, 'way': way, 'ops': list(seq)}
                ok, d = ctx.attempt(lambda: run_case(case), 'vocab:%s' % seq[-1][0], case)
                if ok and d:
                    ctx.fail('vocab:%s' % seq[-1][0], '%s in %r' % (d, case), case)
            ctx.sample({'vocab': pairs, 'way': way}, 1)


def replay(case, ctx):
    env.load()
    case['ops'] = [tuple(tuple(x) if isinstance(x, list) and o[0] in ('cond', 'slice') else x for x in o)
                   for o in case['ops']]
    ok, d = ctx.attempt(lambda: run_case(case), 'replay', case)
    if ok and d:
        ctx.fail('replay', d, case)
