"""C06: the corpus processed is exactly the set of files selected."""
import itertools
import os
from collections import Counter

from mc import env, ref, corp

ID = 'C06'
LEVEL = 'model_checking'
ASSUMPTIONS = ['entries of a file-names file are base names, absolute paths, or paths from the working directory']
BOUNDS = ('all subsets of 9 candidate paths (folders, no suffix, hidden, blanks, #, *) as corpus directory; all file-names files of <=4 (thorough 5) lines over '
          '10 line kinds; all lists of <=3 files; directories of up to 400 files and 300 folders; paths from the working directory; three ways to name the file-names file; line ends; trailing slash')
CAND = ['a.txt', 'b.txt', 'noext', '.hidden', 'd/a.txt', 'd/e/c.txt', 'z z/\u00e9.txt', 'a#1.txt', 'b -;%*.txt.gz']
LINES = ['a.txt', 'b.txt', '@d/a.txt', '# a.txt', '', '  b.txt\t', '#', '@z z/\u00e9.txt', 'a#1.txt', 'b -;%*.txt.gz']


def shards(tier):
    n = 4 if tier == 'quick' else 5
    out = [('tree', i, 4) for i in range(4)]
    out += [('fnames', n, i) for i in range(len(LINES))]
    out += [('fnames0', 0), ('list', 0), ('missing', 0), ('relative', 0), ('many', 0), ('many', 1)]
    return out


def cases(shard):
    k = shard[0]
    if k == 'tree':
        for m in range(1 << len(CAND)):
            if m % shard[2] == shard[1]:
                yield {'kind': 'tree', 'tree': [c for i, c in enumerate(CAND) if m >> i & 1],
                       'slash': m % 3 == 0, 'explicit_none': m % 2 == 0}
    elif k in ('fnames', 'fnames0'):
        if k == 'fnames0':
            for name in ('sel.fnames', 'sel', 'sel.v1', 'sub.d/sel'):
                for eol in ('\n', '\r\n'):
                    for fin in (True, False):
                        for lines in ([], ['a.txt'], ['a.txt', '#x', '', '@d/a.txt'], ['b.txt', 'b.txt']):
                            for slash in (True, False):
                                yield {'kind': 'fnames', 'lines': lines, 'name': name, 'eol': eol, 'final': fin,
                                       'slash': slash}
            return
        for m in range(shard[1]):
            for rest in itertools.product(LINES, repeat=m):
                yield {'kind': 'fnames', 'lines': [LINES[shard[2]]] + list(rest), 'name': 'sel.fnames'}
    elif k == 'list':
        for m in range(4):
            for l in itertools.product(['a.txt', 'b.txt', 'd/a.txt', 'z z/\u00e9.txt'], repeat=m):
                yield {'kind': 'list', 'list': list(l)}
    elif k == 'many':
        trees = [['f%d.txt' % i for i in range(400)], ['d%d/f%d.txt' % (i, i) for i in range(300)],
                 ['/'.join('e%d' % j for j in range(i)) + '/f.txt' if i else 'f.txt' for i in range(40)],
                 ['d%d/%d/f%d' % (i % 9, i % 11, i) for i in range(99)]]
        for t in trees[shard[1]::2]:
            for slash in (True, False):
                yield {'kind': 'tree', 'tree': t, 'slash': slash, 'explicit_none': slash}
                yield {'kind': 'list', 'list': t[::-1] + t[:3], 'tree': t, 'slash': slash}
                f = ['@' + x if '/' in x else x for x in t]
                yield {'kind': 'fnames', 'lines': f[7:300] + ['#'] + f[:2], 'tree': t, 'name': 'sel.fnames', 'slash': slash}
    elif k == 'relative':       # paths that are not absolute are found from the working directory
        for m in range(1, 4):
            for l in itertools.product(['@./d/a.txt', '@d/a.txt', '@./a.txt', 'b.txt', '@d/../b.txt'], repeat=m):
                yield {'kind': 'fnames', 'lines': list(l), 'name': 'sel.fnames', 'cwd': True}
    else:
        yield {'kind': 'missing', 'name': 'nothere.fnames'}
        yield {'kind': 'missing', 'name': 'nothere'}


def token_of(path):
    return 't' + (str(CAND.index(path)) if path in CAND else path.replace('/', '.'))


def run_case(case, work):
    if not case.get('cwd'):
        return run_in(case, work)
    old = os.getcwd()
    d = os.path.join(work, 'elsewhere')
    os.makedirs(os.path.join(d, 'd'), exist_ok=True)
    for c in ('a.txt', 'b.txt', 'd/a.txt'):
        with open(os.path.join(d, c), 'w') as f:
            f.write(ref.render([('t', 'x', 'N', 'x'), ('t', 'else.' + c.replace('/', '.'), 'N', 'else.' + c.replace('/', '.'))], ref.SEP, ref.COLS))
    os.chdir(d)
    try:
        return run_in(case, work)
    finally:
        os.chdir(old)


def run_in(case, work):
    env.load()
    from nephosem import ItemFreqHandler, ColFreqHandler, TokenHandler, Vocab
    root = os.path.join(work, 'corpus')
    corp.clear(root)
    have = case.get('tree', CAND)
    for c in have:
        corp.write(work, [[('t', token_of(c), 'N', token_of(c)), ('t', 'x', 'N', 'x')]], names=[c])
    s = corp.base_settings(work)
    if case.get('slash'):
        s['corpus-path'] = root + '/'
    arg = None
    if case['kind'] == 'tree':
        want = [os.path.join(root, c) for c in have]
    elif case['kind'] == 'list':
        want = arg = [os.path.join(root, c) for c in case['list']]
    else:
        d = os.path.join(work, 'out')
        corp.clear(d)
        p = os.path.join(d, case['name'])
        os.makedirs(os.path.dirname(p), exist_ok=True)
        arg = p
        want = []
        if case['kind'] == 'fnames':
            out = []
            for l in case['lines']:
                out.append((os.path.join(root, l[1:]) if not case.get('cwd') else l[1:]) if l.startswith('@') else l)
                t = l.strip()
                if t and not t.startswith('#'):
                    want.append(os.path.normpath(t[1:]) if case.get('cwd') and t.startswith('@') else os.path.join(root, t.lstrip('@')))
            eol = case.get('eol', '\n')
            text = eol.join(out) + (eol if case.get('final', True) and out else '')
            with open(p if p.endswith('.fnames') else p + '.fnames', 'wb') as f:
                f.write(text.encode('utf-8'))
    given = list(arg) if isinstance(arg, list) else arg
    handlers = [ItemFreqHandler(s, workers=1), ColFreqHandler(s, workers=1),
                TokenHandler(Vocab({'x/N': 1}), settings=s, workers=1)]
    for h in handlers:
        try:
            got = h.prepare_fnames() if arg is None and case.get('explicit_none') else h.prepare_fnames(arg)
        except (IOError, OSError):
            if case['kind'] == 'missing':
                continue
            raise
        if case['kind'] == 'missing':
            return 'a missing file-names file was accepted: %r' % (got,)
        if Counter(map(os.path.normpath, got)) != Counter(want):
            return 'files %r, expected %r' % (got, want)
    if case['kind'] == 'missing':
        return None
    if isinstance(arg, list) and arg != given:
        return 'the list given was changed to %r' % (arg,)
    # and the processing really reads them
    v = handlers[0].build_item_freq(fnames=arg)
    exp = Counter()
    for w in want:
        exp[('else.' + w.replace('/', '.') if not os.path.isabs(w) else token_of(os.path.relpath(w, root))) + '/N'] += 1
        exp['x/N'] += 1
    if dict(v.get_dict()) != dict(exp):
        return 'counts %r, expected %r' % (v.get_dict(), dict(exp))
    if want:
        m = handlers[1].build_col_freq(fnames=arg, row_vocab=Vocab({'x/N': 1}))
        if corp.cells(m) != {('x/N', i): n for i, n in exp.items() if i != 'x/N'}:
            return 'collocate counts %r' % corp.cells(m)
    return None


def run_shard(shard, ctx):
    corp.fresh(ctx.work)
    for case in cases(shard):
        ctx.ran()
        ctx.state(repr(case))
        ctx.trans(len(case.get('lines', case.get('tree', case.get('list', [0])))))
        ok, d = ctx.attempt(lambda: run_case(case, ctx.work), 'files:%s' % shard[0], case)
        if ok and d:
            ctx.fail('files:%s' % shard[0], '%s for %r' % (d, case), case)
        ctx.sample(case, 1)


def replay(case, ctx):
    ctx.work = env.SCRATCH
    corp.fresh(ctx.work)
    ok, d = ctx.attempt(lambda: run_case(case, ctx.work), 'replay', case)
    if ok and d:
        ctx.fail('replay', d, case)
