"""C03: the item frequency list counts every annotated line exactly once.

Every corpus file of up to n lines over a small line alphabet, every pair of very small
files, and every combination of format settings on fixed corpora, run through the real
handler; the answer is compared with an independent count.
"""
import itertools
import os

from mc import env, ref, corp

ID = 'C03'
LEVEL = 'model_checking'
ASSUMPTIONS = ['lines are split and stripped as text lines; tokens contain no line separators, and the first column does not begin and the last does not end with white space',
               'worker scheduling is C01\'s subject: here one worker runs in fork-like isolation']
BOUNDS = ('quick: all files of <=4 lines over 7 line kinds; all pairs of files of <=1 lines, all triples over {a,b,sep}; '
          'all formats (type x columns x encoding x line end x final newline); counts beyond 65536, thousands of items, 60 files, unusual words; thorough: <=5 lines, pairs <=2')

A = ('t', 'Aa', 'N', 'a')
A2 = ('t', 'aa', 'N', 'a')     # other word form, same type
B = ('t', 'b', 'N', 'b')
AV = ('t', 'a', 'V', 'a')      # same lemma, other part of speech
S = ('s',)
X = ('x', '<p id="1">')
E = ('x', '')
ALPHA = [A, A2, B, AV, S, X, E]

TYPES = ['lemma/pos', 'word/pos', 'lemma', 'word', 'pos/lemma', 'word/lemma/pos']
COLS = ['word,pos,lemma', 'lemma,word,pos', 'pos,lemma,word']
ENC = ['utf-8', 'latin-1', 'utf-16']
FIX = [A, ('t', 'n\x85l', 'N', 'f\x0cf'), ('x', '<p\x1c>'), ('t', '\u00c9t\u00e9', 'N', '\u00e9t\u00e9'), S, ('t', '\u00e9t\u00e9', 'N', '\u00e9t\u00e9'), X, B]


def shards(tier):
    n = 4 if tier == 'quick' else 5
    out = [('files', n, i) for i in range(len(ALPHA))] + [('files', n, -1)]
    out += [('pairs', 1 if tier == 'quick' else 2, i, 6) for i in range(6)]
    out += [('triples', i) for i in range(3)]
    out += [('formats', t) for t in TYPES]
    out += [('large', i) for i in range(4)]
    return out


def cases(shard):
    if shard[0] == 'files':
        _, n, first = shard
        if first < 0:
            yield {'files': [[]]}
            return
        for m in range(n):
            for rest in itertools.product(ALPHA, repeat=m):
                yield {'files': [[ALPHA[first]] + list(rest)]}
    elif shard[0] == 'pairs':
        small = [list(p) for m in range(shard[1] + 1) for p in itertools.product(ALPHA, repeat=m)]
        for k, (x, y) in enumerate(itertools.product(small, small)):
            if k % shard[3] == shard[2]:
                yield {'files': [x, y]}
    elif shard[0] == 'triples':
        small = [[], [A], [B], [S], [A, B], [A, A]]
        for k, c in enumerate(itertools.product(small, repeat=3)):
            if k % 3 == shard[1]:
                yield {'files': [list(x) for x in c], 'workers': 2}
    elif shard[0] == 'large':
        w = lambda i: ('t', 'W%d' % i, 'NV'[i % 2], 'w%d' % (i // 2))
        if shard[1] == 0:       # counts beyond 16 bits
            yield {'files': [[A, B, A2, S, X]], 'times': 35000}
            yield {'files': [[A, B], [A, AV]], 'times': 33000, 'workers': 2}
        elif shard[1] == 1:     # many items
            yield {'files': [[w(i * 7 % 4001) for i in range(9000)]], 'workers': 1}
            yield {'files': [[w(i * (k + 2) % 997) for i in range(500)] for k in range(12)], 'workers': 3}
        elif shard[1] == 2:     # many files
            for workers in (1, 2, 5):
                yield {'files': [[w(k), w(k + 1), S, w(k % 7)][:1 + k % 4] for k in range(60)], 'workers': workers}
        else:
            odd = ['w', 'w1', 'w10', '1', '10', '#', '*', '/', '//', '[', 'nan', 'None', '0', ',', ';', "'", '"q"', '%s', '{}',
                   '$', '^', '\\', '&amp;', '<', 'a b', '\u00ad', '\u0130', '\u00df', 'SS', '\ufb01', 'e\u0301', '\u00e9']
            for ty in TYPES:
                for workers in (1, 2):
                    yield {'files': [[('t', x, 'N', x) for x in odd], [('t', x, y, x) for x in odd[::3] for y in odd[:12]]],
                           'type': ty, 'workers': workers}
            for c, ty in (('pos,lemma,word', 'lemma/pos'), ('lemma,word,pos', 'word'), ('lemma,word,pos', 'word/pos')):
                yield {'files': [[('t', 'y', 'N', x) if c[0] == 'p' else ('t', x, 'N', 'y') for x in (' a', 'a', 'a ', ' ', '  a')]],
                       'type': ty, 'cols': c}
    else:
        for c, e, eol, fin in itertools.product(COLS, ENC, ['\n', '\r\n', '\r', ' \t\n  '], [True, False]):
            yield {'files': [FIX, FIX[::-1]], 'type': shard[1], 'cols': c, 'enc': e, 'eol': eol,
                   'final': fin}


def run_case(case, work):
    env.load()
    from nephosem import ItemFreqHandler
    files = [list(f) * case.get('times', 1) for f in case['files']]
    cols, enc = case.get('cols', ref.COLS), case.get('enc', 'utf-8')
    ty = case.get('type', 'lemma/pos')
    fn = corp.write(work, files, cols=cols, encoding=enc, eol=case.get('eol', '\n'),
                    final_eol=case.get('final', True))
    s = corp.base_settings(work, **{'type': ty, 'line-format': cols, 'file-encoding': enc})
    v = ItemFreqHandler(s, workers=case.get('workers', 1)).build_item_freq(fnames=fn)
    got = dict(v.get_dict())
    want = ref.item_freq(files, ty)
    if got != want:
        return 'counts %r, expected %r' % (got, want)
    if v.sum() != sum(want.values()) or len(v) != len(want):
        return 'total %r over %r items, expected %r over %r' % (
            v.sum(), len(v), sum(want.values()), len(want))
    if sorted(v.get_item_list()) != sorted(want):
        return 'items %r, expected %r' % (v.get_item_list(), sorted(want))
    return None


def run_shard(shard, ctx):
    corp.fresh(ctx.work)
    for case in cases(shard):
        ctx.ran()
        ctx.state((shard[0], repr(case)))
        ctx.trans(sum(len(f) for f in case['files']))
        ok, d = ctx.attempt(lambda: run_case(case, ctx.work), 'item:%s' % shard[0], case)
        if ok and d:
            ctx.fail('item:%s:count' % shard[0], '%s for %r' % (d, case), case)
        ctx.sample(case, 1)


def replay(case, ctx):
    ctx.work = env.SCRATCH
    corp.fresh(ctx.work)
    ok, d = ctx.attempt(lambda: run_case(case, ctx.work), 'replay', case)
    if ok and d:
        ctx.fail('replay', d, case)
