"""C07: settings and inputs are never modified and calls are repeatable.

fmt   every sequence of creating formatters and changing the item formats of the settings
      they all share
conf  every subset of settings-file lines through ConfigLoader, compared with an overlay
      of the lines on the defaults; what was handed out before is changed in between
seq   every sequence of operations on shared settings, vocabularies, queries, patterns and
      (partly) shared handlers; each result is compared with the direct count
"""
import copy
import itertools
import os

from mc import env, ref, corp
from mc.checks import c01, c04

ID = 'C07'
LEVEL = 'model_checking'
ASSUMPTIONS = ['worker scheduling is C01\'s subject; workers run one after the other here']
BOUNDS = ('all subsets of 8 settings-file lines x {update, load} x interference; all sequences of <=4 (thorough 5) changes of formats and '
          'creations of formatters; all sequences of <=3 (thorough 4) '
          'operations out of 15')
S, X, tok = c04.S, c04.X, c04.tok
FILES = [[tok('a'), tok('b'), S, tok('c'), tok('a')], [tok('b'), tok('c'), tok('a'), X], [tok('b'), tok('b'), tok('d')]]
SETS = {'1': [0, 1], '2': [1, 2], '3': [2]}
ROWS = {'a/N': 3, 'b/N': 4}
ROW1 = {'b/N': 4}
COLS = {'b/N': 4, 'c/N': 2, 'd/N': 1}
OPS = ['item1', 'item2', 'col1', 'col2', 'colv1', 'colv2', 'colr1', 'colr2', 'tok1', 'tok2', 'tokv3', 'dep1', 'dep2', 'span', 'poke']

# ------------------------------------------------------------------ conf --
LINES = [('Span', 'left-span', '3'), ('Span', 'right-span', '0'), ('Corpus-Format', 'type', 'word/pos'),
         ('Corpus-Format', 'Type', 'upper'), ('Data', 'corpus-path', '/x/y z'), ('New', 'extra', '# no = comment'),
         ('Span', 'my-span', '-7'), ('Corpus-Format', 'line-machine', r'([^\t]+)\t(\w+)')]


def shards(tier):
    n = 3 if tier == 'quick' else 4
    out = [('conf', i, 2) for i in range(2)] + [('fmt',)]
    out += [('seq', n, a, b) for a in OPS for b in ('-', 0, 1)]
    return out


def conf_case(m, how, work):
    nephosem = env.load()
    from nephosem.conf import ConfigLoader
    import configparser
    lines = [l for i, l in enumerate(LINES) if m >> i & 1]
    p = os.path.join(work, 'c.ini')
    with open(p, 'w') as f:
        for sect in sorted({l[0] for l in lines}):
            f.write('[%s]\n; remark\n' % sect)
            for s, k, v in lines:
                if s == sect:
                    f.write('%s = %s\n' % (k, v))
    # defaults read independently
    cp = configparser.RawConfigParser()
    cp.optionxform = str
    cp.read(os.path.join(os.path.dirname(nephosem.__file__), 'config.ini'))
    base = {}
    for sect in cp.sections():
        for k in cp.options(sect):
            base[k] = int(cp.get(sect, k)) if sect == 'Span' else cp.get(sect, k)
    over = {k: int(v) if s == 'Span' else v for s, k, v in lines}
    conf = ConfigLoader()
    if how == 'load':
        got = ConfigLoader(p).settings
        return None if got == over else 'settings %r, expected %r' % (got, over)
    first = conf.settings
    if first != base:
        return 'defaults %r, expected %r' % (first, base)
    if how in ('mutate', 'both'):
        first['left-span'] = 99
        first['new'] = 1
        del first['type']
    got = conf.update_config(p)
    want = dict(base)
    want.update(over)
    if got != want:
        return 'updated settings differ: %r' % sorted(set(map(str, got.items())) ^ set(map(str, want.items())))
    if how == 'both':
        got['right-span'] = 77
        got.clear()
    for c in (conf, ConfigLoader()):
        if c.settings != base:
            return 'the defaults were changed: %r' % sorted(set(map(str, c.settings.items())) ^ set(map(str, base.items())))
    if conf.update_config(p) != want:
        return 'updating again gives something else'
    return None


# ------------------------------------------------------------------- fmt --
FOPS = [('new',), ('type', 'lemma'), ('type', 'word/pos'), ('colloc', 'lemma'), ('colloc', 'word/pos/lemma'), ('colloc', None),
        ('token', 'pos/fid/lid'), ('global-columns', 'lemma,pos,word'), ('handler',)]


def fmt_case(ops, work):
    nephosem = env.load()
    from nephosem.core.terms import CorpusFormatter
    sett = corp.base_settings(work, **{'line-machine': r'(\S+)\t(\S+)\t(\S+)'})
    sett.pop('colloc', None)
    made = []
    for op in ops:
        if op[0] in ('new', 'handler'):
            before = copy.deepcopy(sett)
            f = CorpusFormatter(sett) if op[0] == 'new' else nephosem.ItemFreqHandler(settings=sett, workers=1).formatter
            if sett != before:
                return 'the settings were changed: %r' % sorted(set(map(str, sett.items())) ^ set(map(str, before.items())))
            cols = before.get('global-columns', before.get('line-format')).split(',')
            val = dict(zip(cols, ('A', 'B', 'C')))
            join = lambda fm: '/'.join(val[x] for x in fm.split('/'))
            made.append((f, (join(before['type']), join(before.get('colloc', before['type'])),
                             join('/'.join(before['token'].split('/')[:-2])) + '/f/7')))
        elif op[1] is None:
            sett.pop(op[0], None)
        else:
            sett[op[0]] = op[1]
        for f, want in made:
            m = f.match_line('A\tB\tC')
            got = (f.get(m, 'type'), f.get(m, 'colloc'), f.get(m, 'token', 'f', 7))
            if got != want:
                return 'items %r, expected %r' % (got, want)
    return None


# ------------------------------------------------------------------- seq --
def dep_want(files):
    return c01.dep_expected(files)


class World(object):
    def __init__(self, work):
        env.load()
        from nephosem import Vocab
        self.work = work
        self.paths = [os.path.join(work, 'corpus', 'f%d.txt' % i) for i in range(3)]
        self.dpaths = [os.path.join(work, 'corpus', 'd%d.txt' % i) for i in range(3)]
        self.dfiles = c01.dep_files(3)
        self.s = corp.base_settings(work, **{'left-span': 1, 'right-span': 2})
        self.ds = corp.base_settings(work, **corp.DEP)
        self.rows, self.cols = Vocab(dict(ROWS)), Vocab(dict(COLS))
        self.row1 = Vocab(dict(ROW1))
        self.queries = Vocab(dict(ROWS))
        self.macros = c01.macros()
        self.h = {}
        self.span = 1
        self.last = None

    def view(self):
        return (copy.deepcopy(self.s), copy.deepcopy(self.ds), dict(self.rows.get_dict()), dict(self.cols.get_dict()), dict(self.row1.get_dict()),
                dict(self.queries.get_dict()), len(self.macros),
                [(copy.deepcopy(m.matched_nodes), copy.deepcopy(m.matched_edges), repr(m.target_filter), m.target_idx,
                  sorted((n, sorted(a.items())) for n, a in m.graph.nodes(data=True)),
                  sorted((u, v, sorted(a.items())) for u, v, a in m.graph.edges(data=True)))
                 for m in self.macros])

    def handler(self, kind):
        kind = 'col' if kind in ('colv', 'colr') else kind
        from nephosem import ItemFreqHandler, ColFreqHandler, TokenHandler
        from nephosem.models.deprel import DepRelHandler
        if kind not in self.h:
            if kind == 'item':
                h = ItemFreqHandler(self.s, workers=2)
            elif kind == 'col':
                h = ColFreqHandler(self.s, workers=2, row_vocab=self.row1)
            elif kind == 'tok':
                h = TokenHandler(self.queries, settings=self.s, workers=2)
            elif kind == 'tokv':
                h = TokenHandler(self.queries, settings=self.s, workers=1, col_vocab=self.cols)
            else:
                h = DepRelHandler(self.ds, workers=2)
                h.read_templates(macros=self.macros)
            self.h[kind] = (h, self.span)
        return self.h[kind]

    def do(self, op):
        if op == 'span':       # the caller edits the settings: handlers made before keep theirs
            self.span = 3 - self.span
            self.s['left-span'] = self.span
            return None
        if op == 'poke':       # the caller changes the last result in place
            r = self.last
            if r is None:
                return None
            if hasattr(r, 'increment'):
                for k in list(r.keys()):
                    r.increment(k, 5)
                r['zz/N'] = 3
            else:
                r.matrix.data[:] = 42
                r.row_items[0] = 'other'
                r.col_items.append('more')
            return None
        kind, fs = op[:-1], SETS[op[-1]]
        h, span = self.handler(kind)
        before = self.view()
        given = [self.paths[i] for i in fs]
        files = [FILES[i] for i in fs]
        if kind == 'dep':
            given = [self.dpaths[i] for i in fs]
            files = [self.dfiles[i] for i in fs]
        fn = list(given)
        try:
            if kind == 'item':
                res = h.build_item_freq(fnames=fn)
                got, want = dict(res.get_dict()), ref.item_freq(files)
            elif kind in ('col', 'colv', 'colr'):    # the vocabularies of the handler, of the call, of both
                kw = {'col': {}, 'colr': {'row_vocab': self.rows}, 'colv': {'row_vocab': self.rows, 'col_vocab': self.cols}}[kind]
                res = h.build_col_freq(fnames=fn, **kw)
                got = corp.cells(res)
                want = ref.col_freq(files, span, 2, rows=set(ROW1 if kind == 'col' else ROWS), cols=set(COLS) if kind == 'colv' else None)
            elif kind in ('tok', 'tokv'):
                res = h.retrieve_tokens(fnames=fn)
                got = corp.token_view(h.type2toks), {k: set(v) for k, v in rows_of(res).items()}
                t = ref.tokens(files, ['f%d' % i for i in fs], span, 2, set(ROWS), cols=set(COLS) if kind == 'tokv' else None)
                want = {k: sorted(v) for k, v in t.items()}, {k: set(v) for k, v in ref.position_matrix(t).items() if v}
            else:
                res = None
                try:
                    res = h.build_dependency(fnames=fn)
                except ValueError:
                    if dep_want(files):
                        raise
                got, want = corp.cells(res), dep_want(files)
        finally:
            after = self.view()
        if got != want:
            return '%s gives %r, expected %r' % (op, got, want)
        if fn != given:
            return '%s changed the list of file names' % op
        if before != after:
            return '%s changed its inputs: %r' % (op, [(x, y) for x, y in zip(before, after) if x != y])
        self.last = res
        return None


def rows_of(m):
    d = {}
    for (r, c), v in corp.cells(m).items():
        d.setdefault(r, {})[c] = v
    return d


def run_seq(seq, work):
    w = World(work)
    for n, op in enumerate(seq):
        d = w.do(op)
        if d:
            return 'step %d: %s' % (n + 1, d)
    return None


def setup(work):
    corp.fresh(work)
    corp.write(work, FILES)
    corp.write(work, [corp.render_dep(f) for f in c01.dep_files(3)], names=['d%d.txt' % i for i in range(3)])


def run_shard(shard, ctx):
    if shard[0] == 'conf':
        for m in range(1 << len(LINES)):
            if m % shard[2] != shard[1]:
                continue
            for how in ('load', 'plain', 'mutate', 'both'):
                case = {'conf': m, 'how': how}
                ctx.ran()
                ctx.state(repr(case))
                ctx.trans(4)
                ok, d = ctx.attempt(lambda: conf_case(m, how, ctx.work), 'conf', case)
                if ok and d:
                    ctx.fail('conf:%s' % how, '%s for %r' % (d, case), case)
        return
    if shard[0] == 'fmt':
        for n in range(1, 5 if ctx.tier == 'quick' else 6):
            for ops in itertools.product(FOPS, repeat=n):
                if ops[-1][0] not in ('new', 'handler') or sum(o[0] == 'handler' for o in ops) > 1:
                    continue
                case = {'fmt': ops}
                ctx.ran()
                ctx.state(repr(case))
                ctx.trans(n)
                ok, d = ctx.attempt(lambda: fmt_case(ops, ctx.work), 'fmt', case)
                if ok and d:
                    ctx.fail('fmt', '%s for %r' % (d, ops), case)
        return
    _, n, first, half = shard
    setup(ctx.work)
    if half == '-':
        seqs = [(first,)]
    else:
        seqs = [(first, b) + rest for b in OPS[half::2] for k in range(n - 1)
                for rest in itertools.product(OPS, repeat=k)]
    for seq in seqs:
        ctx.ran()
        ctx.trans(len(seq))
        ctx.state(' '.join(seq))
        case = {'seq': list(seq)}
        ok, d = ctx.attempt(lambda: run_seq(seq, ctx.work), 'seq', case)
        if ok and d:
            ctx.fail('seq:%s' % seq[-1], '%s in %s' % (d, ' '.join(seq)), case)
        ctx.sample(case, 1)


def replay(case, ctx):
    ctx.work = env.SCRATCH
    if 'fmt' in case:
        ok, d = ctx.attempt(lambda: fmt_case(case['fmt'], ctx.work), 'replay', case)
    elif 'conf' in case:
        ok, d = ctx.attempt(lambda: conf_case(case['conf'], case['how'], ctx.work), 'replay', case)
    else:
        setup(ctx.work)
        ok, d = ctx.attempt(lambda: run_seq(case['seq'], ctx.work), 'replay', case)
    if ok and d:
        ctx.fail('replay', d, case)
