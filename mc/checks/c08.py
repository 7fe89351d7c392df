"""C08: processing touches no files but its own.

Every layout of files that may already lie in the directories a handler uses, every way the
settings name those directories, every sequence of operations: afterwards every file that was
there has its old content, and no file is new but the results that were asked for.
"""
import itertools
import os
import shutil

from mc import env, ref, corp
from mc.checks import c01, c04

ID = 'C08'
LEVEL = 'model_checking'
ASSUMPTIONS = ['empty directories may be created below the temporary directory that the settings name', 'the log file ~/tmp/nephosem.log is written by the logging set-up']
BOUNDS = ('all layouts of 8 groups of pre-existing files x 4 ways to set the directories x single operations (all 18) '
          'and, for the full and the empty layout, all pairs (thorough: triples of the operations that write)')
tok, S = c04.tok, c04.S
FILES = [[tok('a'), tok('b'), S, tok('c')], [tok('b'), tok('a')]]

GROUPS = [['tmp/notes.txt', 'tmp/sub/deep/x.bin'],
          ['handlertmp/keep.txt', 'handlertmp/col.freq/keep.txt', 'handlertmp/tok.app/1/sub.0.txt'],
          ['handlertmp/col.freq/{pid}/mine.txt', 'out/tmp/col.freq/{pid}/mine.txt', 'tmp/col.freq/{pid}/mine.txt'],
          ['out/result.txt', 'out/tmp/x.meta'],
          ['corpus/.other', 'corpus.fnames'],
          ['.cbc/old.json', 'handlertmp/col.freq/{pid}/.mine', 'out/tmp/col.freq/{pid}/.mine', 'tmp/col.freq/{pid}/.mine'],
          ['out/m.meta', 'out/m.npz'],
          ['out/v.freq.bak', 'out/m.npy', 'out/m', 'out/m.pac.bak']]
VARIANTS = ['both', 'out', 'tmp', 'none']
RUNS = ['item', 'col', 'colv', 'tok', 'tokv', 'dep']
NEWS = ['new:item', 'new:col', 'new:tok', 'new:dep', 'new:type']
IO = ['vsave:json', 'vsave:plain', 'vload', 'msave', 'mload', 'msave:loose', 'mload:loose']
OPS = RUNS + NEWS + IO
# what an operation may write (below the scratch root)
MAY = {'vsave:json': ['out/v.json'], 'vsave:plain': ['out/v.txt'], 'msave': ['out/m.pac'],
       'msave:loose': ['out/m.meta', 'out/m.npz', 'out/m.npy']}


def shards(tier):
    out = [('single', v, op) for v in VARIANTS for op in OPS]
    out += [('pairs', v, op) for v in VARIANTS for op in OPS]
    if tier != 'quick':
        out += [('triples', v, op) for v in VARIANTS for op in OPS]
    return out


def cases(shard):
    k, v, op = shard
    if k == 'single':
        for m in range(1 << len(GROUPS)):
            yield {'layout': m, 'dirs': v, 'ops': [op]}
    else:
        for rest in itertools.product(OPS, repeat=1 if k == 'pairs' else 2):
            for m in ((0, 255) if k == 'pairs' else (255,)):
                yield {'layout': m, 'dirs': v, 'ops': [op] + list(rest)}


# where the temporaries belong (below the scratch root)
TMP = {'both': 'handlertmp', 'tmp': 'handlertmp', 'out': 'out/tmp', 'none': 'tmp'}


def snapshot(root):
    d = {}
    for p, ds, fs in os.walk(root):
        d[os.path.relpath(p, root) + '/'] = os.stat(p).st_mode
        for f in fs:
            q = os.path.join(p, f)
            with open(q, 'rb') as fh:
                d[os.path.relpath(q, root)] = (os.stat(q).st_mode, fh.read())
    return d


def do(op, s, ds, root, state):
    from nephosem import ItemFreqHandler, ColFreqHandler, TokenHandler, Vocab, TypeTokenMatrix
    from nephosem.models.deprel import DepRelHandler
    from nephosem.models.typetoken import TypeVectorizer
    import numpy as np
    import scipy.sparse as sp
    fn = [os.path.join(root, 'corpus', 'f0.txt'), os.path.join(root, 'corpus', 'f1.txt')]
    dfn = [os.path.join(root, 'corpus', 'd0.txt')]
    rows, cols = Vocab({'a/N': 1, 'b/N': 1}), Vocab({'b/N': 1, 'c/N': 1})
    out = os.path.join(root, 'out')
    m = TypeTokenMatrix(sp.csr_matrix(np.array([[1, 0], [2, 3]])), ['a', 'b'], ['x', 'y'])
    if op == 'item':
        if dict(ItemFreqHandler(s, workers=2).build_item_freq(fnames=fn).get_dict()) != ref.item_freq(FILES):
            return 'wrong counts'
    elif op in ('col', 'colv'):
        kw = {'col_vocab': cols} if op == 'colv' else {}
        r = ColFreqHandler(s, workers=2).build_col_freq(fnames=fn, row_vocab=rows, **kw)
        if corp.cells(r) != ref.col_freq(FILES, 10, 10, rows={'a/N', 'b/N'}, cols={'b/N', 'c/N'} if kw else None):
            return 'wrong counts'
    elif op in ('tok', 'tokv'):
        kw = {'col_vocab': cols} if op == 'tokv' else {}
        TokenHandler(rows, settings=s, workers=2, **kw).retrieve_tokens(fnames=fn)
    elif op == 'dep':
        h = DepRelHandler(ds, workers=2)
        h.read_templates(macros=c01.macros())
        if corp.cells(h.build_dependency(fnames=dfn)) != c01.dep_expected(c01.dep_files(1)):
            return 'wrong counts'
    elif op == 'new:item':
        ItemFreqHandler(s)
    elif op == 'new:col':
        ColFreqHandler(s, workers=1, row_vocab=rows)
    elif op == 'new:tok':
        TokenHandler(rows, settings=s, workers=3)
    elif op == 'new:dep':
        DepRelHandler(ds)
    elif op == 'new:type':
        TypeVectorizer(settings=s)
    elif op == 'vsave:json':
        rows.save(os.path.join(out, 'v.json'), verbose=False)
        state.add('v')
    elif op == 'vsave:plain':
        rows.save(os.path.join(out, 'v.txt'), fmt='plain', verbose=False)
    elif op == 'vload':
        if 'v' in state and dict(Vocab.load(os.path.join(out, 'v.json')).get_dict()) != {'a/N': 1, 'b/N': 1}:
            return 'the saved vocabulary reads back different'
    elif op == 'msave':
        m.save(os.path.join(out, 'm'), verbose=False)
        state.add('m')
    elif op == 'msave:loose':
        m.todense().save(os.path.join(out, 'm'), pack=False, verbose=False)
        state.add('ml')
    elif op == 'mload':
        if 'm' in state and corp.cells(TypeTokenMatrix.load(os.path.join(out, 'm'))) != corp.cells(m):
            return 'the saved matrix reads back different'
    elif op == 'mload:loose':
        if 'ml' in state and corp.cells(TypeTokenMatrix.load(os.path.join(out, 'm'), pack=False)) != corp.cells(m):
            return 'the saved matrix reads back different'
    return None


def run_case(case, work):
    env.load()
    root = os.path.join(work, 'c08')
    if os.path.isdir(root):
        shutil.rmtree(root)
    for d in ('tmp', 'out', 'handlertmp', 'corpus', 'cwd'):
        os.makedirs(os.path.join(root, d))
    corp.write(root, FILES)
    corp.write(root, [corp.render_dep(f) for f in c01.dep_files(1)], names=['d0.txt'])
    for i, g in enumerate(GROUPS):
        if case['layout'] >> i & 1:
            for name in g:
                p = os.path.join(root, name.format(pid=os.getpid()))
                os.makedirs(os.path.dirname(p), exist_ok=True)
                with open(p, 'w') as f:
                    f.write('content of ' + name)
    for p, ds, fs in os.walk(root):          # the user's own access rights
        for x in ds + fs:
            if (len(x) + case['layout']) % 3 == 0:
                os.chmod(os.path.join(p, x), 0o700 if x in ds else 0o600)
    s = corp.base_settings(root)
    ds = corp.base_settings(root, **corp.DEP)
    for x in (s, ds):
        if case['dirs'] in ('tmp', 'none'):
            del x['output-path']
        if case['dirs'] in ('out', 'none'):
            del x['tmp-path']
    import nephosem
    old = os.environ['HOME'], nephosem.tmpdir
    cwd = os.getcwd()
    os.chdir(os.path.join(root, 'cwd'))
    os.environ['HOME'] = root
    nephosem.tmpdir = os.path.join(root, 'tmp')
    try:
        state, may = set(), set()
        now = snapshot(root)
        for op in case['ops']:
            d = do(op, s, ds, root, state)
            if d:
                return '%s: %s' % (op, d)
            after = snapshot(root)
            may = set(MAY.get(op, ()))
            for p in sorted(set(now) | set(after)):
                if p in may or p in now and p in after and now[p] == after[p] or p == 'tmp/nephosem.log':
                    continue
                if p.endswith('/'):
                    if p in now and p in after:
                        return '%s: the access rights of %s were changed' % (op, p)
                    if (p + '/').startswith(TMP[case['dirs']] + '/'):
                        continue
                    return '%s: the directory %s was %s' % (op, p, 'deleted' if p in now else 'created')
                what = 'created' if p not in now else 'deleted' if p not in after else 'changed'
                return '%s: the file %s was %s' % (op, p, what)
            now = after
    finally:
        os.environ['HOME'], nephosem.tmpdir = old
        os.chdir(cwd)
    return None


def run_shard(shard, ctx):
    for case in cases(shard):
        ctx.ran()
        ctx.state(repr(case))
        ctx.trans(len(case['ops']))
        ok, d = ctx.attempt(lambda: run_case(case, ctx.work), 'touch:%s' % case['ops'][-1], case)
        if ok and d:
            ctx.fail('touch:%s' % case['ops'][-1], '%s for %r' % (d, case), case)
        ctx.sample(case, 1)


def replay(case, ctx):
    ok, d = ctx.attempt(lambda: run_case(case, env.SCRATCH), 'replay', case)
    if ok and d:
        ctx.fail('replay', d, case)
