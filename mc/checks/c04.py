"""C04: collocate frequencies are exact windowed counts within segment boundaries.

Families of the exhaustive enumeration (every case is one corpus + configuration, run
through the real handler, compared with a direct count):
  shape    all line sequences over {new token, separator, junk}, all spans
  repeat   all line sequences over {a, b, separator, junk}
  vocab    all row and column vocabularies over a fixed corpus
  files    all pairs of small files (windows never cross files)
  keys     the equivalent names of the settings for boundaries, columns and collocates
  format   all combinations of item formats, column orders, encodings, line ends, separators
  fit      the type vectoriser (vocabularies made from the corpus itself)
  large    corpora of hundreds of lines, tens of different words and up to a dozen files, with
           segments shorter, equal and longer than the spans, all combinations of large spans,
           numbers of files, vocabularies and workers
"""
import itertools

from mc import env, ref, corp

ID = 'C04'
LEVEL = 'model_checking'
ASSUMPTIONS = ['a corpus without any counted pair may be answered by "no matrix"',
               'worker scheduling is C01\'s subject; workers run one after the other here']
BOUNDS = ('quick: shapes of <=6 lines x spans {0,1,2,4}^2, <=4 lines x spans of 70 to 300; repeats <=5 lines x 5 spans; all row x column '
          'vocabularies over 4 items; pairs of files of <=2 lines; formats; 40-130 lines x 45 words x 1-12 files x spans of '
          '9 to 60; counts and distances beyond 8 and 16 bits; thorough: shapes <=7, spans 0..5, '
          'repeats <=6')
S = ('s',)
X = ('x', '<p>')
NAMES = 'abcdefghij'


def tok(n, pos='N'):
    return ('t', n.upper(), pos, n)


def shards(tier):
    q = tier == 'quick'
    out = []
    spans = [0, 1, 2, 4] if q else [0, 1, 2, 3, 4, 5]
    for l in spans:
        for r in spans:
            out.append(('shape', 6 if q else 7, l, r))
    out += [('shape', 4 if q else 5, l, r) for l, r in ((0, 100), (300, 0), (70, 300))]
    for sp in [(0, 1), (1, 0), (1, 1), (2, 1), (3, 3)]:
        for i in range(4):
            out.append(('repeat', 5 if q else 6, sp[0], sp[1], i))
    for i in range(4):
        out.append(('vocab', i))
    for i in range(6):
        out.append(('files', 2, i, 6))
    for t in ['lemma/pos', 'word/pos', 'lemma', 'pos/lemma']:
        out.append(('format', t))
    out += [('keys', k) for k in ('both', 'sep', 'single', 'differ')]
    for i in range(3):
        out.append(('fit', 3 if q else 4, i, 3))
    for l, r in BIGSPANS if q else BIGSPANS + [(10, 0), (1, 12), (9, 100), (20, 20)]:
        out.append(('large', l, r))
    out += [('huge', i) for i in range(4)]
    return out


BIGSPANS = [(0, 12), (12, 0), (11, 13), (10, 10), (9, 9), (3, 15), (60, 60)]
BIGWORDS = ['w%d' % i for i in range(30)] + ['w', 'w1 x', 'W1', '\u00e9', '1', '10', '/', '#', '*', '[', '0', 'nan', 'a-b',
                                                '.', "'"]


def large_files(nfiles, seg):
    """Long files; every seg-th line ends a segment (0: one segment)."""
    n = len(BIGWORDS)
    return [[S if seg and i % seg == seg - 1 else X if i % 29 == 28 else
             tok(BIGWORDS[(i * (1 + i // n + k) + i // n) % n], 'V' if i % 11 == k % 11 else 'N')
             for i in range(130 if nfiles < 3 else 40)] for k in range(nfiles)]


def large_cases(l, r):
    for nfiles, seg in [(1, 0), (1, 11), (1, 61), (2, 14), (12, 13)]:
        files = large_files(nfiles, seg)
        counts = ref.item_freq(files)
        its = sorted(counts)
        some = its[::3]
        last = its[-12:]
        one = [w + '/N' for w in ('w1', 'w10', 'w', 'w2')]
        for n, (rows, cols) in enumerate([(None, None), (its, its), (some, last), (last, some), (one, its), (its, one),
                                          (some, None), (one, its[::-1])]):
            for w in ([1, 3] if nfiles > 1 else [1]):
                c = {'files': files, 'l': l, 'r': r, 'workers': w, 'grown': n % 2 == 1}
                if rows is not None:
                    c['rows'] = rows
                if cols is not None:
                    c['cols'] = cols
                yield c


def instantiate(shape, names=NAMES):
    it = iter(names)
    return [tok(next(it)) if c == 'T' else (S if c == 'S' else X) for c in shape]


def cases(shard):
    k = shard[0]
    if k == 'shape':
        _, n, l, r = shard
        for m in range(n + 1):
            for sh in itertools.product('TSX', repeat=m):
                if sh.count('T') < 2:
                    if sh.count('T') == 0 or m > 3:
                        continue
                yield {'files': [instantiate(sh)], 'l': l, 'r': r}
    elif k == 'repeat':
        _, n, l, r, first = shard
        al = [tok('a'), tok('b'), S, X]
        for m in range(n):
            for rest in itertools.product(al, repeat=m):
                yield {'files': [[al[first]] + list(rest)], 'l': l, 'r': r}
    elif k == 'vocab':
        f = [tok('a'), tok('b'), S, tok('c'), tok('a'), tok('c'), tok('b'), tok('a'), tok('a')]
        items = ['a/N', 'b/N', 'c/N', 'zz/N']
        subs = [[i for j, i in enumerate(items) if m >> j & 1] for m in range(16)]
        for a, rows in enumerate(subs[1:]):
            if a % 4 != shard[1]:
                continue
            for cols in subs:
                for l, r in [(1, 1), (3, 2), (0, 2), (2, 0)]:
                    yield {'files': [f], 'l': l, 'r': r, 'rows': rows, 'cols': cols, 'grown': (l, r) in [(3, 2), (2, 0)]}
    elif k == 'files':
        small = [list(p) for m in range(shard[1] + 1)
                 for p in itertools.product([tok('a'), tok('b'), S], repeat=m)]
        for n, (x, y) in enumerate(itertools.product(small, small)):
            if n % shard[3] == shard[2]:
                yield {'files': [x, y], 'l': 2, 'r': 2, 'workers': 1 + n % 2}
                yield {'files': [x, y, [tok('b'), tok('a')]], 'l': 1, 'r': 1, 'workers': 2,
                       'rows': ['a/N', 'b/N'], 'cols': ['a/N', 'b/N']}
    elif k == 'format':
        f = [('t', '\u00c9t\u00e9s', 'N', '\u00e9t\u00e9'), ('t', 'is', 'V', 'be'), X, ('t', 'the', 'D', 'the'),
             ('x', ''), S, ('t', 'n\x85l', 'N', 'f\x0cf'), ('x', '<p\x1c>'), ('t', 'be', 'N', 'be'), ('t', 'The', 'D', 'the'), ('t', 'was', 'V', 'be')]
        for ct, cols, enc, eol, fin, sep in itertools.product(
                ['lemma/pos', 'word', 'pos', 'lemma'], ['word,pos,lemma', 'pos,lemma,word'],
                ['utf-8', 'latin-1'], ['\n', '\r\n', ' \t\n  '], [True, False],
                [('</artikel>', '</artikel>'), ('</?doc[^>]*>', '<doc id="1">')]):
            yield {'files': [f, f[:4]], 'l': 2, 'r': 3, 'type': shard[1], 'colloc': ct, 'lcols': cols,
                   'enc': enc, 'eol': eol, 'final': fin, 'sep': sep}
    elif k == 'keys':
        al = [('t', 'A', 'N', 'a'), ('t', 'b', 'V', 'b'), S, X]
        n = 0
        for m in range(1, 5):
            for f in itertools.product(al, repeat=m):
                for cols, glob in (('word,pos,lemma', None), ('pos,lemma,word', ''), ('lemma,word,pos', 'word,pos,lemma')):
                    for ty, ct in (('lemma/pos', 'word'), ('word', None)):
                        n += 1
                        c = {'files': [list(f)], 'l': 1 + n % 2, 'r': 1 + n % 3, 'keys': shard[1], 'lcols': cols, 'type': ty,
                             'colloc': ct or ty, 'implied': ct is None}
                        if glob is not None:
                            c['global'] = glob
                        yield c
    elif k == 'huge':
        if shard[1] == 0:       # counts beyond 16 bits
            yield {'files': [[tok('a'), tok('b')]], 'times': 35000, 'l': 1, 'r': 1, 'queries': ['a/N']}
        elif shard[1] == 1:
            yield {'files': [[tok('a'), tok('b'), S], [tok('b'), tok('a')]], 'times': 24000, 'l': 0, 'r': 1, 'workers': 2,
                   'queries': ['c/N']}
        elif shard[1] == 2:     # distances beyond 8 and 16 bits
            one = [tok('q')] + [tok('w%d' % i) for i in range(300)] + [tok('q')]
            for l, r in ((300, 300), (128, 127), (256, 255), (301, 0), (0, 301)):
                yield {'files': [one], 'l': l, 'r': r, 'rows': ['q/N', 'w150/N']}
                yield {'files': [one], 'l': l, 'r': r, 'rows': ['q/N', 'w9/N', 'w299/N'], 'cols': ['q/N', 'w0/N', 'w128/N', 'w255/N']}
        else:
            far = [tok('q')] + [tok('f')] * 39998 + [tok('k'), tok('q')]
            for l, r in ((40000, 40000), (0, 33000), (50, 50)):
                yield {'files': [far], 'l': l, 'r': r, 'rows': ['q/N'], 'cols': ['k/N']}
    elif k == 'large':
        yield from large_cases(shard[1], shard[2])
    else:
        al = [tok('a'), tok('b'), tok('a', 'V'), S]
        n = 0
        for m in range(shard[1] + 1):
            for x in itertools.product(al, repeat=m):
                n += 1
                if n % shard[3] == shard[2]:
                    yield {'files': [list(x), [tok('b'), tok('a')]], 'l': 1 + n % 2, 'r': 1, 'fit': True}


def vocab(items, grown=False):
    from nephosem import Vocab
    if not grown:
        return Vocab({i: (n + len(items)) % 3 for n, i in enumerate(items)})    # an item counts with any frequency, 0 too
    v = Vocab()
    for i in items:
        v.increment(i)
    return v


def run_case(case, work):
    env.load()
    from nephosem import ColFreqHandler, Vocab
    ty, ct = case.get('type', 'lemma/pos'), case.get('colloc', 'lemma/pos')
    cols, enc = case.get('lcols', ref.COLS), case.get('enc', 'utf-8')
    sre, stx = case.get('sep', (ref.SEP, ref.SEP))
    files = [list(f) * case.get('times', 1) for f in case['files']]
    fn = corp.write(work, files, cols=cols, encoding=enc, eol=case.get('eol', '\n'),
                    final_eol=case.get('final', True), sep=stx)
    s = corp.base_settings(work, **{
        'type': ty, 'colloc': ct, 'line-format': cols, 'file-encoding': enc,
        'left-span': case['l'], 'right-span': case['r'],
        'separator-line-machine': sre, 'single-boundary-machine': sre})
    keys = case.get('keys', 'both')
    if keys == 'sep':
        del s['single-boundary-machine']
    elif keys == 'single':
        del s['separator-line-machine']
    elif keys == 'differ':      # the separator line is what the documentation tells to set
        s['single-boundary-machine'] = '<no such line>'
    if 'global' in case:        # the other name of the column list
        s['global-columns'] = s['line-format']
        s['line-format'] = case['global']
        if not case['global']:
            del s['line-format']
    if case.get('implied'):     # the format of collocates is that of the types
        del s['colloc']
        ct = ty
    counts = ref.item_freq(files, ty)
    rows = case.get('rows')
    cvoc = case.get('cols')
    if case.get('fit'):
        from nephosem.models.typetoken import TypeVectorizer
        rows = cvoc = sorted(counts)
        tv = TypeVectorizer(settings=s)
        m = tv.fit(fnames=fn)
    else:
        if rows is None:
            rows = sorted(counts)
        h = ColFreqHandler(s, workers=case.get('workers', 1))
        kw = {'row_vocab': vocab(rows, case.get('grown'))}
        if cvoc:
            kw['col_vocab'] = vocab(cvoc, case.get('grown'))
        m = h.build_col_freq(fnames=fn, **kw)
    want = ref.col_freq(files, case['l'], case['r'], rows=set(rows),
                        cols=set(cvoc) if cvoc else None, type_fmt=ty, col_fmt=ct)
    got = corp.cells(m)
    if got != want:
        return 'cells %r, expected %r' % (got, want)
    if m is None:
        return None
    if sorted(m.row_items) != sorted(rows):
        return 'row labels %r, expected %r' % (m.row_items, sorted(rows))
    if cvoc:
        if sorted(m.col_items) != sorted(cvoc):
            return 'column labels %r, expected %r' % (m.col_items, sorted(cvoc))
    else:
        if len(set(m.col_items)) != len(m.col_items):
            return 'repeated column labels %r' % (m.col_items,)
        seen = set(ref.item_freq(files, ct))
        if not set(m.col_items) <= seen:
            return 'column labels %r not in the corpus' % sorted(set(m.col_items) - seen)
    if list(m.row_items) != sorted(m.row_items) or list(m.col_items) != sorted(m.col_items):
        return 'labels not in alphabetical order: %r %r' % (m.row_items, m.col_items)
    return None


def run_shard(shard, ctx):
    corp.fresh(ctx.work)
    for case in cases(shard):
        ctx.ran()
        ctx.state(repr(case))
        ctx.trans(sum(len(f) for f in case['files']))
        ok, d = ctx.attempt(lambda: run_case(case, ctx.work), 'colfreq:%s' % shard[0], case)
        if ok and d:
            ctx.fail('colfreq:%s:count' % shard[0], '%s for %r' % (d, case), case)
        ctx.sample(case, 1)
    left = corp.leftovers(ctx.work + '/handlertmp')
    if left:
        ctx.fail('colfreq:leftover', 'temporary files left behind: %r' % left[:3], {'shard': shard})


def replay(case, ctx):
    ctx.work = env.SCRATCH
    corp.fresh(ctx.work)
    ok, d = ctx.attempt(lambda: run_case(case, ctx.work), 'replay', case)
    if ok and d:
        ctx.fail('replay', d, case)
