"""C01: the answer does not depend on how many workers ran or in which order.

Every interleaving of the worker processes' queue operations is executed on the
real code (forked workers under the controlled scheduler), for every handler.
"""
import os

from mc import env, ref, corp, sched

ID = 'C01'
LEVEL = 'model_checking'
ASSUMPTIONS = [
    'workers interact only through the two queues and files below the temporary directory; '
    'scheduling points are the queue operations, process start/join and exit, and, in the '
    'configurations marked files, every file operation of a worker',
    'queues are FIFO and lossless, as multiprocessing manager queues are',
]
BOUNDS = ('handlers: item frequency, collocate frequency (with / without column vocabulary), '
          'token retrieval (with / without), dependency; quick: (workers,files) in '
          '{(1,2),(2,1),(2,3),(3,2)} with files that differ and {(2,2),(2,3)} with files of equal '
          'content and base name; thorough adds (2,4),(3,3),(4,2) and (3,2),(3,3); with file operations: '
          'quick (2,2), thorough (2,2),(2,3),(3,2); long files of 150 lines with 49 words and spans 11 and 13: quick (1,3),(2,2), '
          'thorough (1,4),(2,3),(3,3)')

T = ('t',)


def tok(w, p=None, l=None):
    return ('t', w, p or 'N', l or w)


def corpus(nfiles):
    """Small files whose contributions are pairwise distinguishable; a file
    without any token; words shared between files."""
    base = [
        [tok('a'), tok('b'), ('s',), tok('c'), tok('a')],
        [tok('b'), tok('d'), tok('a'), tok('a')],
        [('x', '<p>')],
        [tok('c'), tok('e'), ('x', '<p>'), tok('b')],
    ]
    return base[:nfiles]


def same_corpus(nfiles):
    """Files with equal content and equal base names: nothing but their place
    tells the workers' contributions apart."""
    return [[tok('a'), tok('b'), ('s',), tok('b'), tok('c')] for _ in range(nfiles)]


def large_corpus(nfiles):
    """Long files with many different words (also at distances of more than nine)."""
    words = ['w%d' % i for i in range(45)] + ['w', 'w1 x', 'W1', '\u00e9']
    return [[tok(words[(i * (1 + i // 49 + k) + i // 49) % len(words)]) if i % 61 != 60 else ('s',) for i in range(150)]
            for k in range(nfiles)]


def large_dep(nfiles):
    out = []
    for k in range(nfiles):
        sents = []
        for n in range(11, 14):
            sents.append([('n%d' % (i * (k + 2) % 7), 'N' if i % 3 else 'V', i, 1 if i > 1 else 0, 'nsubj' if i % 2 else 'dobj')
                          for i in range(1, n + k)])
            sents[-1][0] = ('v%d' % k, 'V', 1, 0, 'ROOT')
        out.append(sents)
    return out


QUICK = [(1, 2), (2, 1), (2, 3), (3, 2)]
THOROUGH = QUICK + [(2, 4), (3, 3), (4, 2)]
KINDS = ['item', 'col', 'colv', 'tok', 'tokv', 'dep']


def shards(tier):
    cfgs = QUICK if tier == 'quick' else THOROUGH
    same = [(2, 2), (2, 3)] if tier == 'quick' else [(2, 2), (3, 2), (2, 3), (3, 3)]
    out = [(k, w, f, 'own') for w, f in cfgs for k in KINDS]
    out += [(k, w, f, 'same') for w, f in same for k in KINDS]
    big = [(1, 3), (2, 2)] if tier == 'quick' else [(1, 4), (2, 3), (3, 3)]
    out += [(k, w, f, 'large') for w, f in big for k in KINDS]
    # the file operations of the workers are scheduling points as well
    grain = [(2, 2)] if tier == 'quick' else [(2, 2), (2, 3), (3, 2)]
    out += [(k, w, f, c, 'files') for w, f in grain for k in KINDS
            for c in (('own',) if tier == 'quick' else ('own', 'same'))]
    out.sort(key=lambda s: -(s[1] + 1) ** (s[2] + 1))
    return out


def dep_files(n):
    s1 = [('cat', 'N', 1, 2, 'nsubj'), ('eat', 'V', 2, 0, 'ROOT'), ('fish', 'N', 3, 2, 'dobj')]
    s2 = [('dog', 'N', 1, 2, 'nsubj'), ('eat', 'V', 2, 0, 'ROOT')]
    s3 = [('man', 'N', 1, 2, 'nsubj'), ('see', 'V', 2, 0, 'ROOT'), ('cat', 'N', 3, 2, 'dobj')]
    files = [[s1, s2], [s3], [], [s2, s3]]
    return files[:n]


def dep_expected(files):
    c = {}
    for sents in files:
        for s in sents:
            byid = {t[2]: t for t in s}
            for (lemma, pos, i, h, rel) in s:
                if h in byid and pos == 'N' and byid[h][1] == 'V':
                    hl, hp = byid[h][0], byid[h][1]
                    if rel == 'nsubj':
                        k = ('%s/%s' % (lemma, pos), '%s/%s->nsubj:#T#' % (hl, hp))
                        c[k] = c.get(k, 0) + 1
    return c


def macros():
    env.load()
    from nephosem.core.graph import PatternGraph, MacroGraph
    p = PatternGraph({1: {'lemma': r'(\w+)', 'pos': r'(V)'}, 2: {'lemma': r'(\w+)', 'pos': r'(N)'}},
                     {(1, 2): {'deprel': '(nsubj)'}})
    p.id = 1
    m = MacroGraph(p, target_idx=2, feature_idx=-1, target_filter=None)
    m.id = 1
    m.target_node_attrs = {'lemma': 1, 'pos': 1}
    m.feature_node_attrs = {'lemma': 1, 'pos': 1}
    m.feature_edge_attrs = {'deprel': 1}
    return [m]


class Job(object):
    """One configuration: how to run it and what it must give."""

    def __init__(self, kind, nworkers, nfiles, work, content='own'):
        self.kind, self.nworkers, self.nfiles, self.work = kind, nworkers, nfiles, work
        env.load()
        from nephosem.core.vocab import Vocab
        corp.fresh(work)
        if kind == 'dep':
            files = dep_files(nfiles) if content == 'own' else large_dep(nfiles) if content == 'large' else \
                [dep_files(1)[0]] * nfiles
            self.fnames = corp.write(work, [corp.render_dep(f) for f in files])
            self.settings = corp.base_settings(work, **corp.DEP)
            self.want = dep_expected(files)
            self.macros = macros()
            return
        if content == 'same':
            files = same_corpus(nfiles)
            fids = ['d%d/f' % i for i in range(nfiles)]
        else:
            files = corpus(nfiles) if content == 'own' else large_corpus(nfiles)
            fids = ['f%d' % i for i in range(nfiles)]
        self.fnames = corp.write(work, files, names=[f + '.txt' for f in fids])
        self.settings = corp.base_settings(work, **{'left-span': 1, 'right-span': 2})
        self.rows = {'a/N': 5, 'b/N': 3, 'c/N': 2}
        self.cols = {'a/N': 1, 'd/N': 2, 'e/N': 3, 'b/N': 1}
        l, r = 1, 2
        if content == 'large':
            l, r = 11, 13
            self.settings.update({'left-span': l, 'right-span': r})
            items = sorted(ref.item_freq(files))
            self.rows = {w: 9 for w in items[::2 if kind.startswith('tok') else 1]}
            self.cols = {w: 9 for w in items if w != 'w7/N'}
        cols = self.cols if kind.endswith('v') else None
        if kind == 'item':
            self.want = ref.item_freq(files)
        elif kind.startswith('col'):
            self.want = ref.col_freq(files, l, r, rows=self.rows, cols=cols)
        else:
            t = ref.tokens(files, fids, l, r, self.rows, cols=cols)
            self.want = {k: sorted(v) for k, v in t.items()}
            self.wantpos = ref.position_matrix(t)

    def execute(self):
        from nephosem.core.vocab import Vocab
        w, fn = self.nworkers, list(self.fnames)
        if self.kind == 'item':
            from nephosem import ItemFreqHandler
            v = ItemFreqHandler(self.settings, workers=w).build_item_freq(fnames=fn)
            return dict(v.get_dict() if hasattr(v, 'get_dict') else v.freq_dict)
        if self.kind.startswith('col'):
            from nephosem import ColFreqHandler
            cv = Vocab(dict(self.cols)) if self.kind == 'colv' else None
            h = ColFreqHandler(self.settings, workers=w)
            m = h.build_col_freq(fnames=fn, row_vocab=Vocab(dict(self.rows)), col_vocab=cv)
            return corp.cells(m)
        if self.kind.startswith('tok'):
            from nephosem import TokenHandler
            cv = Vocab(dict(self.cols)) if self.kind == 'tokv' else None
            h = TokenHandler(Vocab(dict(self.rows)), settings=self.settings, workers=w, col_vocab=cv)
            m = h.retrieve_tokens(fnames=fn)
            return corp.token_view(h.type2toks), corp.cells(m)
        from nephosem.models.deprel import DepRelHandler
        h = DepRelHandler(self.settings, workers=w)
        h.read_templates(macros=self.macros)
        return corp.cells(h.build_dependency(fnames=fn))

    def diff(self, value):
        if self.kind.startswith('tok'):
            view, cl = value
            if view != self.want:
                return 'tokens %r, expected %r' % (view, self.want)
            got = {}
            for (r, c), v in cl.items():
                got.setdefault(r, {})[c] = v
            want = {r: v for r, v in self.wantpos.items() if v}
            if {r: set(v) for r, v in got.items()} != {r: set(v) for r, v in want.items()}:
                return 'token matrix %r, expected %r' % (got, want)
            for r in got:
                for c in got[r]:
                    if got[r][c] not in want[r][c]:
                        return 'position of %s at %s is %r, expected one of %r' % (
                            c, r, got[r][c], want[r][c])
            return None
        if value != self.want:
            return 'got %r, expected %r' % (value, self.want)
        return None


def explore(kind, w, f, ctx, faults=0, content='own', grain=''):
    job = Job(kind, w, f, ctx.work, content)
    ex = sched.Explorer(faults=faults, files=os.path.join(ctx.work, 'handlertmp') if grain else None)
    name = '%s:workers=%d:files=%d:%s%s' % (kind, w, f, content, grain)

    def execute():
        ctx.ran()
        corp.clear(os.path.join(ctx.work, 'handlertmp'))
        ctx.guard(40)
        try:
            return job.execute()
        finally:
            ctx.unguard()

    def judge(sim, choices, outcome, value):
        case = {'kind': kind, 'workers': w, 'files': f, 'content': content, 'grain': grain, 'schedule': choices, 'trace': sim.trace}
        if outcome == 'deadlock':
            ctx.fail('%s:hang' % kind, '%s: no process can proceed (%s); schedule %s'
                     % (name, value, ' '.join(sim.trace)), case)
        elif outcome == 'raise':
            ctx.fail('%s:raise' % kind, '%s: raised %r; schedule %s'
                     % (name, value, ' '.join(sim.trace)), case)
        else:
            d = job.diff(value)
            if d:
                ctx.fail('%s:result' % kind, '%s: %s; schedule %s'
                         % (name, d, ' '.join(sim.trace)), case)
            left = corp.leftovers(os.path.join(ctx.work, 'handlertmp'))
            if left:
                ctx.fail('%s:leftover' % kind, '%s: temporary files left behind: %s; schedule %s'
                         % (name, left, ' '.join(sim.trace)), case)
        if ex.complete == 1:
            ctx.sample({'config': name, 'schedule': ' '.join(sim.trace), 'result': str(value)[:300]})

    try:
        ex.run(execute, judge)
    finally:
        for k in ex.visited:
            ctx.states.add(_mix(name, k))
        ctx.trans(ex.edges)
        ctx.count('complete_schedules', ex.complete)


def _mix(name, k):
    from mc.core import h64
    return h64(name.encode() + k)


def run_shard(shard, ctx):
    kind, w, f, content = shard[:4]
    try:
        explore(kind, w, f, ctx, content=content, grain=shard[4] if len(shard) > 4 else '')
    except sched_timeout() as e:
        ctx.fail('%s:timeout' % kind, 'workers=%d files=%d: a process never reached the next queue '
                 'operation' % (w, f), {'kind': kind, 'workers': w, 'files': f})


def sched_timeout():
    from mc.core import CaseTimeout
    return CaseTimeout


def replay(case, ctx):
    ctx.work = os.path.join(env.SCRATCH, 'replay')
    os.makedirs(ctx.work, exist_ok=True)
    job = Job(case['kind'], case['workers'], case['files'], ctx.work, case.get('content', 'own'))
    sim, outcome, value = sched.replay_schedule(
        case.get('schedule', []), 0, job.execute,
        files=os.path.join(ctx.work, 'handlertmp') if case.get('grain') else None)
    print('schedule:', ' '.join(sim.trace))
    print('outcome:', outcome, value)
    if outcome != 'ok' or job.diff(value):
        ctx.fail('replay', '%s %s' % (outcome, value if outcome != 'ok' else job.diff(value)), case)
