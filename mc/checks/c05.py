"""C05: token retrieval returns every occurrence once with its identity and context.

Same exhaustive families as C04, observed on the token nodes and on the position matrix.
"""
import itertools
import os

from mc import env, ref, corp
from mc.checks import c04

ID = 'C05'
LEVEL = 'model_checking'
ASSUMPTIONS = ['the file part of a token id is the path without its last extension; files that differ only there '
               'are not combined',
               'a query does not hold the character that separates the parts of a type (/) inside a part; this is refused',
               'when no retrieved token has any context word the matrix cannot be built and a ValueError is accepted; '
               'the token nodes are still checked',
               'a context word that occurs twice around a token may be given any of its positions']
BOUNDS = ('quick: shapes of <=6 lines x spans {0,1,2,4}^2; repeats <=5 lines x 5 spans; all query sets x context '
          'vocabularies over 4 items; pairs of files of <=2 lines; formats and directory layouts; large corpora as in C04; '
          'thorough: shapes <=7, spans 0..5, repeats <=6')
S, X, tok = c04.S, c04.X, c04.tok


def shards(tier):
    out = [s for s in c04.shards(tier) if s[0] in ('shape', 'repeat', 'vocab', 'files', 'large', 'huge')]
    out += [('format', t) for t in ['lemma/pos', 'word/pos', 'lemma', 'pos/lemma']]
    out += [('layout', 0)]
    return out


def cases(shard):
    if shard[0] in ('shape', 'repeat', 'vocab', 'files', 'large', 'huge'):
        for c in c04.cases(shard):
            if shard[0] == 'vocab' and 'cols' not in c:
                continue
            if 'queries' in c:
                c = dict(c, rows=c['queries'], times=c['times'] // 20)
            if shard[0] == 'large':
                rows = c.get('rows') or sorted(ref.item_freq(c['files']))
                c = dict(c, rows=[r for r in rows if not r.startswith('/')])
            yield c
        if shard == ('huge', 0):
            for n in (300, 66000):          # line numbers that need more than one or two bytes
                yield {'files': [[X] * n + [tok('a'), tok('b'), S, tok('a')]], 'l': 2, 'r': 2}
        if shard[0] == 'shape':
            # single-token and no-token shapes: c04 leaves most of them out
            for m in range(4):
                for sh in itertools.product('TSX', repeat=m):
                    if sh.count('T') <= 1:
                        yield {'files': [c04.instantiate(sh)], 'l': shard[2], 'r': shard[3]}
        return
    if shard[0] == 'format':
        f = [('t', '\u00c9t\u00e9s', 'N', '\u00e9t\u00e9'), ('t', 'is', 'V', 'be'), X, ('t', 'the', 'D', 'the'),
             ('x', ''), S, ('t', 'n\x85l', 'N', 'f\x0cf'), ('x', '<p\x1c>'), ('t', 'be', 'N', 'be'), ('t', 'The', 'D', 'the'), ('t', 'was', 'V', 'be')]
        for ct, tf, cols, enc, eol, fin in itertools.product(
                ['lemma/pos', 'word', 'lemma'],
                ['word/pos/fid/lid', 'lemma/pos/fid/lid', 'lemma/fid/lid', 'word/lemma/pos/fid/lid'],
                ['word,pos,lemma', 'pos,lemma,word'], ['utf-8', 'latin-1'], ['\n', '\r\n', ' \t\n  '], [True, False]):
            yield {'files': [f, f[:4]], 'l': 2, 'r': 3, 'type': shard[1], 'colloc': ct, 'tok': tf,
                   'lcols': cols, 'enc': enc, 'eol': eol, 'final': fin}
        return
    f = [tok('a'), tok('b'), S, X, tok('c'), tok('a')]
    g = [X, tok('b'), tok('a')]
    for names in [['f.txt', 'g.txt'], ['sub/f.txt', 'g.txt'], ['sub/f.txt', 'sub/g.txt'],
                  ['x/f.txt', 'y/f.txt'], ['x/y/z/f.txt', 'x/f.txt'], ['a.b.txt', 'a.c.txt'],
                  ['noext', 'f.tar.gz'], ['d.1/f.2.txt', 'd.1/f']]:
        for l, r in [(1, 1), (2, 0), (0, 2)]:
            for w in (1, 2):
                yield {'files': [f, g], 'names': names, 'l': l, 'r': r, 'workers': w}


def fid(name):
    return os.path.splitext(name)[0]


def run_case(case, work):
    env.load()
    from nephosem import TokenHandler
    ty, ct = case.get('type', 'lemma/pos'), case.get('colloc', 'lemma/pos')
    tf = case.get('tok', 'word/pos/fid/lid')
    cols, enc = case.get('lcols', ref.COLS), case.get('enc', 'utf-8')
    names = case.get('names') or ['f%d.txt' % i for i in range(len(case['files']))]
    if case.get('names'):
        corp.clear(os.path.join(work, 'corpus'))
    files = [list(f) * case.get('times', 1) for f in case['files']]
    fn = corp.write(work, files, names=names, cols=cols, encoding=enc, eol=case.get('eol', '\n'),
                    final_eol=case.get('final', True))
    s = corp.base_settings(work, **{
        'type': ty, 'colloc': ct, 'token': tf, 'line-format': cols, 'file-encoding': enc,
        'left-span': case['l'], 'right-span': case['r']})
    counts = ref.item_freq(files, ty)
    queries = case.get('rows')
    if queries is None:
        queries = sorted(counts) or ['q/N' if ty.count('/') else 'q']
    cvoc = case.get('cols')
    kw = {'col_vocab': c04.vocab(cvoc, case.get('grown'))} if cvoc else {}
    h = TokenHandler(c04.vocab(queries, case.get('grown')), settings=s, workers=case.get('workers', 1), **kw)
    want = ref.tokens(files, [fid(n) for n in names], case['l'], case['r'], set(queries),
                      cols=set(cvoc) if cvoc else None, type_fmt=ty,
                      tok_fmt='/'.join(tf.split('/')[:-2]), col_fmt=ct)
    wpos = ref.position_matrix(want)
    nocontext = not any(wpos.values())
    m = None
    try:
        m = h.retrieve_tokens(fnames=fn)
    except ValueError:
        if not nocontext:
            raise
    got = corp.token_view(h.type2toks)
    w = {k: sorted(v) for k, v in want.items()}
    if got != w:
        return 'tokens %r, expected %r' % (got, w)
    for q, tn in h.type2toks.items():
        if tn.freq != len(w.get(str(q), [])):
            return 'frequency of %s is %r, expected %r' % (q, tn.freq, len(w.get(str(q), [])))
    if sorted(map(str, h.type2toks)) != sorted(queries):
        return 'types %r, expected the queries %r' % (sorted(h.type2toks), sorted(queries))
    if m is None:
        return None if nocontext else 'no matrix although there are contexts'
    ids = sorted(wpos)
    if sorted(m.row_items) != ids:
        return 'matrix rows %r, expected %r' % (sorted(m.row_items), ids)
    if len(set(m.col_items)) != len(m.col_items):
        return 'repeated columns %r' % (m.col_items,)
    wcols = {c for r in wpos.values() for c in r}
    if set(m.col_items) != wcols:
        return 'matrix columns %r, expected %r' % (sorted(m.col_items), sorted(wcols))
    cells = corp.cells(m)
    if set(cells) != {(t, c) for t, r in wpos.items() for c in r}:
        return 'matrix cells %r, expected %r' % (cells, wpos)
    for (t, c), v in cells.items():
        if v not in wpos[t][c]:
            return 'position of %s at %s is %r, expected one of %r' % (c, t, v, wpos[t][c])
    return None


def run_shard(shard, ctx):
    corp.fresh(ctx.work)
    for case in cases(shard):
        ctx.ran()
        ctx.state(repr(case))
        ctx.trans(sum(len(f) for f in case['files']))
        ok, d = ctx.attempt(lambda: run_case(case, ctx.work), 'token:%s' % shard[0], case)
        if ok and d:
            ctx.fail('token:%s' % shard[0], '%s for %r' % (d, case), case)
        ctx.sample(case, 1)


def replay(case, ctx):
    ctx.work = env.SCRATCH
    corp.fresh(ctx.work)
    ok, d = ctx.attempt(lambda: run_case(case, ctx.work), 'replay', case)
    if ok and d:
        ctx.fail('replay', d, case)
