"""C09: an operation is not disturbed by another run or by the remains of a killed one.

Two runs of the real code, each a process of its own, with the same home, corpus, output
and temporary directories.  Every file operation is a scheduling point (mc/fsched.py), and
every schedule with one, and with two, changes from one run to the other is executed; then
every point at which the first run can be killed, or one of its file operations fail,
followed by the second run, with the process number of the first one or another.
"""
import glob
import json
import os
import shutil

from mc import env, ref, corp, fsched
from mc.checks import c01, c04, c50

ID = 'C09'
LEVEL = 'model_checking'
ASSUMPTIONS = [
    'runs that work at the same time have different process numbers and save their results under different names',
    'the workers of one run take their turns inside the run (their own interleavings are C01)',
    'both runs fall into the same minute (the clock is frozen where the code reads it)',
]
BOUNDS = ('11 operations, home directory new or used, temporary directory set or not; all ordered pairs x every point '
          'of the first run at which the second runs as a whole; schedules with three changes: quick for each operation beside '
          'itself at conflicting file operations, thorough for all pairs at every file operation; every kill point and every failing '
          'file operation x all pairs (quick: itself and one other), same and other process number')
tok, S = c04.tok, c04.S
FILES = [[tok('a'), tok('b'), S, tok('c')], [tok('b'), tok('a')], [tok('a'), tok('a'), tok('c'), S, tok('d'), tok('a')]]
OPS = ['import', 'item', 'col', 'colv', 'tok', 'dep', 'cbc', 'msave', 'msave:loose', 'mload', 'vsave']
WORDS = ['w%d' % i for i in range(8)]
FREQ = {'A': [[9, 0, 0, 1], [8, 1, 0, 1], [0, 9, 1, 1], [1, 8, 0, 1], [0, 0, 9, 1], [1, 0, 8, 1], [1, 1, 1, 9], [3, 0, 2, 8]]}
FREQ['B'] = FREQ['A'][3:] + FREQ['A'][:3]


def shards(tier):
    out = []
    for v in ('new', 'used', 'set'):
        for a in OPS:
            out.append(('solo', v, a))
            for b in OPS:
                out.append(('one', v, a, b))
                if tier != 'quick' or a == b:
                    out.append(('two', v, a, b))
        for a in OPS:
            for b in OPS:
                if tier != 'quick' or a == b or OPS.index(b) == (OPS.index(a) + 1) % len(OPS):
                    out.append(('kill', v, a, b))
                    out.append(('fail', v, a, b))
    out.sort(key=lambda s: (s[0] != 'two', 'import' not in s))
    return out


def prepare(root, variant):
    if os.path.isdir(root):
        shutil.rmtree(root)
    for d in ('home', 'out', 'corpus', 'systmp', 'cwd'):
        os.makedirs(os.path.join(root, d))
    if variant != 'new':
        os.makedirs(os.path.join(root, 'home', 'tmp'))
        os.makedirs(os.path.join(root, 'home', '.cbc'))
        with open(os.path.join(root, 'home', 'tmp', 'notes.txt'), 'w') as f:
            f.write('kept')
    corp.write(root, FILES)
    dep = c01.dep_files(4)
    corp.write(root, [corp.render_dep(f) for f in dep], names=['d%d.txt' % i for i in range(4)])
    matrix('S').save(os.path.join(root, 'out', 'shared'), verbose=False)


def matrix(who):
    import numpy as np
    import scipy.sparse as sp
    from nephosem import TypeTokenMatrix
    k = ord(who)
    return TypeTokenMatrix(sp.csr_matrix(np.array([[k, 0, 2], [0, k + 1, 3]])), ['r' + who, 'b'], ['x', 'y' + who, 'z'])


class Now(object):
    """The same minute for every run."""
    @staticmethod
    def install(mod):
        import datetime

        class D(datetime.datetime):
            @classmethod
            def now(cls, tz=None):
                return cls(2026, 1, 2, 3, 4, 5)
        m = getattr(mod, 'datetime', None)
        if m is datetime:
            class M(object):
                datetime = D
                def __getattr__(self, n):
                    return getattr(datetime, n)
            mod.datetime = M()
        elif m is not None:
            mod.datetime = D


def operate(op, who, root, variant):
    """The operation `op` of run `who`; a value that can be compared."""
    import tempfile
    import nephosem
    from nephosem import ItemFreqHandler, ColFreqHandler, TokenHandler, Vocab, TypeTokenMatrix
    home = os.path.join(root, 'home')
    out = os.path.join(root, 'out')
    os.environ['HOME'], os.environ['TMPDIR'] = home, os.path.join(root, 'systmp')
    tempfile.tempdir = None
    nephosem.tmpdir = os.path.join(home, 'tmp')
    os.chdir(os.path.join(root, 'cwd'))
    over = {}
    s, ds = corp.base_settings(root, **over), corp.base_settings(root, **corp.DEP)
    for x in (s, ds):
        if variant == 'set':
            x['tmp-path'] = os.path.join(root, 'settmp')
        else:
            del x['tmp-path']
        del x['output-path']
    mine = (0, 1) if who == 'A' else (1, 2)
    fn = [os.path.join(root, 'corpus', 'f%d.txt' % i) for i in mine]
    rows, cols = Vocab({'a/N': 1, 'b/N': 1}), Vocab({'b/N': 1, 'c/N': 1, 'a/N': 1})
    if op == 'import':
        import sys
        for n in [n for n in sys.modules if n == 'nephosem' or n.startswith('nephosem.')]:
            del sys.modules[n]
        import nephosem
        return nephosem.tmpdir
    if op == 'item':
        return dict(ItemFreqHandler(s, workers=2).build_item_freq(fnames=fn).get_dict())
    if op in ('col', 'colv'):
        kw = {'col_vocab': cols} if op == 'colv' else {}
        return corp.cells(ColFreqHandler(s, workers=2).build_col_freq(fnames=fn, row_vocab=rows, **kw))
    if op == 'tok':
        h = TokenHandler(rows, settings=s, workers=2)
        m = h.retrieve_tokens(fnames=fn)
        return corp.cells(m), corp.token_view(h.type2toks)
    if op == 'dep':
        from nephosem.models.deprel import DepRelHandler
        h = DepRelHandler(ds, workers=2)
        h.read_templates(macros=c01.macros())
        dn = [os.path.join(root, 'corpus', 'd%d.txt' % i) for i in ((0, 1) if who == 'A' else (1, 3))]
        return corp.cells(h.build_dependency(fnames=dn))
    if op == 'cbc':
        import numpy as np
        import scipy.sparse as sp
        from nephosem.models import cbc
        Now.install(cbc)
        cbc.Pool, cbc.cpu_count = c50.FakePool, lambda: 3
        c50.FakePool.plan = (0, 1)
        f = TypeTokenMatrix(sp.csr_matrix(np.array(FREQ[who])), WORDS, ['c0', 'c1', 'c2', 'c3'])
        o = cbc.CBC(list(WORDS), f, k=3, theta1=0.35, theta2=0.8, num_iter=1, workers=1)
        cs, rs = o.cluster()
        return [sorted(map(sorted, c)) for c in cs], [sorted(r) for r in rs], cs
    if op.startswith('msave'):
        m, loose = matrix(who), op.endswith('loose')
        name = os.path.join(out, 'm' + who)
        m.save(name, pack=not loose, verbose=False)
        r = TypeTokenMatrix.load(name, pack=not loose)
        return list(r.row_items), list(r.col_items), corp.cells(r)
    if op == 'mload':
        r = TypeTokenMatrix.load(os.path.join(out, 'shared'))
        return list(r.row_items), list(r.col_items), corp.cells(r)
    if op == 'vsave':
        v = Vocab({'a/N': ord(who), 'b': 2})
        n = os.path.join(out, 'v' + who)
        v.save(n, verbose=False)
        v.save(n + '.txt', fmt='plain', verbose=False)
        return dict(Vocab.load(n).get_dict()), dict(Vocab.load(n + '.txt', fmt='plain').get_dict())
    raise AssertionError(op)


MAY = {'msave': ['out/m{}.pac'], 'msave:loose': ['out/m{}.meta', 'out/m{}.npz'],
       'vsave': ['out/v{}', 'out/v{}.txt']}


def files(root):
    d = {}
    for p, _, fs in os.walk(root):
        for f in fs:
            q = os.path.join(p, f)
            with open(q, 'rb') as fh:
                d[os.path.relpath(q, root)] = fh.read()
    return d


def start(op, who, case, root, pid=None, others=()):
    def body():
        if pid is not None:
            os.getpid = lambda: pid
        return operate(op, who, root, case['dirs'])
    return fsched.Run(body, root, others)


SOLO = {}


def solo(op, who, case, root):
    """The same operation alone: its value, its file operations."""
    k = op, who, case['dirs']
    if k not in SOLO:
        prepare(root, case['dirs'])
        r = start(op, who, case, root)
        r.steps()
        SOLO[k] = r.result, r.trace
    return SOLO[k]


def solo_result(case, root):
    return SOLO[case['a'], 'A', case['dirs']][0]


def ours(p):
    return p == 'home/tmp/nephosem.log'


def parsed(c):
    try:
        return json.loads(c)
    except ValueError:      # the remains of a run that was killed while it wrote
        return None


def judge(case, runs, before, root):
    for who, op, r in runs:
        if r.result[0] == 'killed':
            continue
        want = solo(op, who, case, root)[0]
        if r.result != want:
            other = [o for w, o, _ in runs if w != who]
            return '%s beside or after %s: %s, alone %r' % (
                op, other and other[0], {'raise': 'raised %s' % (r.result[1],), 'hang': 'did not end'}.get(
                    r.result[0], 'gives %r' % (r.result[1],)), want[1])
    after = files(root)
    for p, c in before.items():
        if after.get(p) != c and not ours(p):
            return '%s was %s' % (p, 'changed' if p in after else 'deleted')
    may = {n.format(w) for w, o, _ in runs for n in MAY.get(o, ())}
    killed = [o for w, o, r in runs if r.result[0] == 'killed']
    for p in sorted(set(after) - set(before) - may):
        if ours(p) or p.startswith('home/.cbc/res.'):
            continue
        tmp = p.startswith(('home/tmp/', 'settmp/', 'systmp/', 'home/.cbc/'))
        if killed and tmp:
            continue
        return 'the file %s stays behind' % p
    # what the clustering runs store of their results: one file for each of them
    stored = [c for p, c in after.items() if p.startswith('home/.cbc/res.') and p.endswith('/Cs')]
    for who, op, r in runs:
        if op == 'cbc' and r.result[0] == 'ok' and any('/.cbc/res.' in p for _, p in solo(op, who, case, root)[1]):
            mine = [c for c in stored if parsed(c) == r.result[1][2]]
            if not mine:
                return 'the committees of run %s are not among the %d stored results' % (who, len(stored))
    return None


def run_case(case, root):
    for who, op in (('A', case['a']), ('B', case['b'])):
        if op is not None:
            solo(op, who, case, root)
    prepare(root, case['dirs'])
    before = files(root)
    A = start(case['a'], 'A', case, root, pid=case.get('pid'))
    runs = [('A', case['a'], A)]
    try:
        if case['kind'] == 'kill':
            A.steps(case['i'])
            A.kill()
            B = start(case['b'], 'B', case, root, pid=case.get('pid'))
            runs.append(('B', case['b'], B))
            B.steps()
        elif case['kind'] == 'fail':
            A.steps(case['i'])
            op = A.pending
            if op:
                A.step('fail')
            A.steps()
            if A.result[0] == 'hang':
                return '%s does not end when %s %s fails' % ((case['a'],) + op), len(A.trace)
            if case['a'] != 'cbc' and A.result[0] == 'ok' and A.result != solo_result(case, root):
                return '%s gives %r when %s %s fails' % ((case['a'], A.result[1]) + op), len(A.trace)
            A.result = ('killed', None)
            B = start(case['b'], 'B', case, root, pid=case.get('pid'))
            runs.append(('B', case['b'], B))
            B.steps()
        elif case['b'] is not None:
            B = start(case['b'], 'B', case, root, others=[A])
            runs.append(('B', case['b'], B))
            A.steps(case['i'])
            B.steps(case.get('j'))
            A.steps()
            B.steps()
        else:
            A.steps()
    finally:
        for _, _, r in runs:
            r.kill()
    return judge(case, runs, before, root), sum(len(r.trace) for _, _, r in runs)


def cases(shard, root):
    kind, v, a = shard[:3]
    if kind == 'solo':
        yield {'kind': 'solo', 'dirs': v, 'a': a, 'b': None}
        return
    b = shard[3]
    ta = solo(a, 'A', {'dirs': v}, root)[1]
    tb = solo(b, 'B', {'dirs': v}, root)[1]
    if kind == 'one':
        for i in range(len(ta) + 1):
            yield {'kind': 'one', 'dirs': v, 'a': a, 'b': b, 'i': i}
    elif kind == 'two':
        full = env.TIER != 'quick'
        ia = range(1, len(ta)) if full else fsched.conflicts(ta, tb)
        jb = range(1, len(tb)) if full else fsched.conflicts(tb, ta)
        for i in ia:
            for j in jb:
                yield {'kind': 'two', 'dirs': v, 'a': a, 'b': b, 'i': i, 'j': j}
    elif kind == 'fail':
        for i, (what, _) in enumerate(ta):
            if what not in ('stat', 'opened'):
                yield {'kind': 'fail', 'dirs': v, 'a': a, 'b': b, 'i': i, 'pid': 4242 if i % 2 else None}
    else:
        for i in range(1, len(ta)):
            for pid in (None, 4242):
                yield {'kind': 'kill', 'dirs': v, 'a': a, 'b': b, 'i': i, 'pid': pid}


def run_shard(shard, ctx):
    env.load()
    env.TIER = ctx.tier
    root = os.path.join(ctx.work, 'c09')
    for case in cases(shard, root):
        ctx.ran()
        ctx.state(repr(case))
        sig = 'disturbed:%s:%s:%s' % (case['kind'], case['a'], case['b'])
        ok, d = ctx.attempt(lambda: run_case(case, root), sig, case, seconds=120)
        if ok:
            ctx.trans(d[1])
            ctx.count(case['kind'])
            if d[0]:
                ctx.fail(sig, '%s for %r' % (d[0], case), case)
        ctx.sample(case, 1)


def replay(case, ctx):
    env.load()
    ok, d = ctx.attempt(lambda: run_case(case, os.path.join(env.SCRATCH, 'c09')), 'replay', case, seconds=120)
    if ok and d[0]:
        ctx.fail('replay', d[0], case)
