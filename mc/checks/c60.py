"""C60: type and token objects and the text utilities keep their information.

Strings in every format are parsed, printed and parsed again; lines of every column layout become the right nodes; all
short histories of append, merge, sample (every outcome of the random source), save and load over two type objects run
against a list model; concordances and query files are written and read over all small contents and layouts.
"""
import io
import itertools
import os
import random

from mc import env, corp, ref

ID = 'C60'
LEVEL = 'model_checking'
ASSUMPTIONS = ['a part other than the file id contains no connector; contexts contain no tab',
               'the random source is the standard library generator (otherwise only one outcome per call is seen)']
BOUNDS = ('formats: all orders of word, lemma, pos, fid, lid, values from 9 odd strings; lines: all column orders with up to 2 '
          'extra columns; histories of <=6 operations (14 operations, 2 type objects, 3 tokens, every random outcome); '
          'concordances of <=2 types and <=3 tokens; query files of <=3 lines over 17 kinds; thorough: histories of 9, '
          'queries of 4 lines')
PARTS = ('word', 'lemma', 'pos')
VALS = ['be', 'B', 'é', 'a b', ',', 'x.y', '1', 'unknown', '-1']
FIDS = ['f0', 'dir/f0', 'a/b/c', 'f.1', 'x y', 'unknown', 'a/b/3']
LIDS = ['1', '23', '-1']


def orders(parts, least=1):
    for n in range(least, len(parts) + 1):
        for p in itertools.permutations(parts, n):
            yield p


# ---- strings ------------------------------------------------------------------------------------------------------
def types(case, ctx):
    from nephosem.core.terms import TypeNode, ItemNode
    fmt, vals = case['fmt'], case['vals']
    text, f = '/'.join(vals), '/'.join(fmt)
    want = {p: None for p in PARTS}
    want.update(zip(fmt, vals))
    made = [('parsed', TypeNode(type_str=text, type_fmt=f)), ('built', TypeNode(type_fmt=f, **dict(zip(fmt, vals))))]
    made.append(('again', TypeNode(type_str=str(made[0][1]), type_fmt=f)))
    made.append(('merged', TypeNode.merge([made[0][1], made[1][1]])))
    made.append(('first', made[0][1].sample(2, 'first')))
    made.append(('random', made[0][1].sample(2)))
    for how, n in made:
        got = {p: getattr(n, p) for p in PARTS}
        if got != want:
            return '%s %r in format %s has the parts %r' % (how, text, f, got)
        if str(n) != text or n.type != text or repr(n) != text:
            return '%s %r in format %s is printed %r, %r' % (how, text, f, str(n), n.type)
        if n.freq != 0 or list(n.tokens) != [] or len(n.get_collocs()) != 0:
            return '%s %r has tokens' % (how, text)
        if n.to_type() != text:
            return '%s %r in format %s gives to_type() %r' % (how, text, f, n.to_type())
        for sub in orders(fmt):
            e = '/'.join(want[p] for p in sub)
            if n.to_type('/'.join(sub)) != e or n.to_colloc('/'.join(sub)) != e:
                return '%s %r in format %s gives %r in format %s' % (how, text, f, n.to_type('/'.join(sub)), '/'.join(sub))
    it = ItemNode(**dict(zip(fmt, vals)))
    for sub in orders(fmt):
        e = '/'.join(want[p] for p in sub)
        g = ItemNode(type_fmt='/'.join(sub), colloc_fmt='/'.join(sub), **dict(zip(fmt, vals)))
        if (it.to_type('/'.join(sub)), it.to_colloc('/'.join(sub)), g.to_type(), g.to_colloc()) != (e,) * 4:
            return 'item %r gives %r in format %s' % (vals, it.to_type('/'.join(sub)), '/'.join(sub))
    # wrong number of parts: refused
    if len(fmt) > 1:
        try:
            TypeNode(type_str='/'.join(vals[:-1]), type_fmt=f)
        except ValueError:
            pass
        else:
            return 'type string %r accepted in format %s' % ('/'.join(vals[:-1]), f)
    return None


def tokens(case, ctx):
    from nephosem.core.terms import TokenNode
    fmt, vals = case['fmt'], case['vals']
    text, f = '/'.join(vals), '/'.join(fmt)
    want = dict({p: None for p in PARTS}, fid='unknown', lid='-1')
    want.update(zip(fmt, vals))
    kw = dict(zip(fmt, vals))
    made = [('parsed', TokenNode(token_str=text, token_fmt=f)), ('built', TokenNode(token_fmt=f, **kw))]
    if 'lid' in kw:
        made.append(('built', TokenNode(token_fmt=f, **dict(kw, lid=int(kw['lid'])))))
    made.append(('again', TokenNode(token_str=str(made[0][1]), token_fmt=f)))
    for how, n in made:
        got = {p: getattr(n, p) for p in want}
        if got != want:
            return '%s %r in format %s has the parts %r' % (how, text, f, got)
        if str(n) != text or n.token != text or repr(n) != text:
            return '%s %r in format %s is printed %r' % (how, text, f, str(n))
        if n.lspan != 0 or n.rspan != 0:
            return '%s %r has contexts' % (how, text)
        for sub in orders([p for p in fmt if p in PARTS]):
            if n.to_colloc('/'.join(sub)) != '/'.join(want[p] for p in sub):
                return '%s %r gives %r in format %s' % (how, text, n.to_colloc('/'.join(sub)), '/'.join(sub))
    if len(fmt) > 1:
        try:
            TokenNode(token_str='/'.join(fmt[:-1]), token_fmt=f)
        except ValueError:
            pass
        else:
            return 'token string %r accepted in format %s' % ('/'.join(fmt[:-1]), f)
    return None


# ---- corpus lines -------------------------------------------------------------------------------------------------
def line(case, ctx):
    from nephosem.core.terms import CorpusFormatter, ItemNode, TypeNode, TokenNode
    cols, ty, co, to = case['cols'], case['type'], case['colloc'], case['token']
    val = {'word': 'is', 'lemma': 'be', 'pos': 'V', 'id': '7', 'x': 'q-r'}
    over = {'line-machine': '\t'.join(['([^\t]+)'] * len(cols)), 'line-format': ','.join(cols), 'type': '/'.join(ty),
            'token': '/'.join(to) + '/fid/lid'}
    s = corp.base_settings(ctx.work, **over)
    s.pop('global-columns', None)
    s.pop('colloc', None)
    if co is not None:
        s['colloc'] = '/'.join(co)
    fm = CorpusFormatter(s)
    m = fm.match_line('\t'.join(val[c] for c in cols))
    t = '/'.join(val[c] for c in ty)
    c = '/'.join(val[x] for x in (co if co is not None else ty))
    k = '/'.join(val[x] for x in to)
    got = (fm.get_type(m), fm.get(m, 'type'), fm.get_colloc(m), fm.get(m, 'colloc'), fm.get_token(m, 'd/f', '3'),
           fm.get(m, 'token', 'd/f', 3))
    want = (t, t, c, c, k + '/d/f/3', k + '/d/f/3')
    if got != want:
        return 'formatter gives %r, expected %r' % (got, want)
    for col in cols:
        if fm.get(m, col) != val[col]:
            return 'column %s is %r' % (col, fm.get(m, col))
    it = ItemNode(match=m, formatter=fm, fid='d/f', lid=3)
    tn = TypeNode(match=m, formatter=fm)
    tk = TokenNode(match=m, formatter=fm, fid='d/f', lid=3)
    parts = {p: val[p] if p in cols else None for p in PARTS}
    for n in (it, tn, tk):
        if {p: getattr(n, p) for p in PARTS} != parts:
            return '%s has the parts %r' % (type(n).__name__, {p: getattr(n, p) for p in PARTS})
    if (it.to_type(), it.to_colloc(), tn.type, str(tn), tn.to_type(), str(tk), tk.to_colloc()) != \
            (t, c, t, t, t, k + '/d/f/3', c):
        return 'nodes print as %r' % ([it.to_type(), it.to_colloc(), tn.type, str(tk), tk.to_colloc()],)
    repr(it), str(it)
    if (tk.fid, str(tk.lid)) != ('d/f', '3'):
        return 'the token is of %r line %r' % (tk.fid, tk.lid)
    # what is printed is parsed again
    q = TypeNode(type_str=t, type_fmt=s['type'])
    if str(q) != t or any(getattr(q, p) != val[p] for p in ty):
        return 'type %r parsed again: %r' % (t, q)
    q = TokenNode(token_str=str(tk), token_fmt=s['token'])
    if str(q) != str(tk) or q.fid != 'd/f' or str(q.lid) != '3' or any(getattr(q, p) != val[p] for p in to):
        return 'token %r parsed again: %r' % (tk, q)
    return None


# ---- histories ----------------------------------------------------------------------------------------------------
def items(colls):
    from nephosem.core.terms import ItemNode
    return [ItemNode(**dict(zip(PARTS, c))) for c in colls]


def mktok(spec, fmt='word/pos/fid/lid'):
    """spec: (word, lemma, pos, fid, lid, left, right)"""
    from nephosem.core.terms import TokenNode
    w, l, p, fid, lid, left, right = spec
    return TokenNode(token_fmt=fmt, word=w, lemma=l, pos=p, fid=fid, lid=lid, lcollocs=items(left), rcollocs=items(right))


def view_tok(t):
    def it(x):
        return tuple(getattr(x, p) for p in PARTS)
    return (t.word, t.lemma, t.pos, t.fid, str(t.lid), tuple(map(it, t.lcollocs)), tuple(map(it, t.rcollocs)), str(t))


def want_tok(spec, fmt='word/pos/fid/lid'):
    w, l, p, fid, lid, left, right = spec
    d = {'word': w, 'lemma': l, 'pos': p, 'fid': fid, 'lid': str(lid)}
    return (w, l, p, fid, str(lid), tuple(map(tuple, left)), tuple(map(tuple, right)), '/'.join(d[x] for x in fmt.split('/')))


C1, C2, C3 = ('the', 'the', 'D'), ('d/og', 'dog', 'N'), ('é', 'e', None)
SPECS = [('is', 'be', 'V', 'f0', 1, [C1, C2], [C1]),
         ('was', 'be', 'V', 'd/f0', '2', [], [C2, C2]),
         ('is', 'be', 'V', 'f0', 11, [], [])]
OPS = ['addA0', 'addA1', 'addB2', 'addB0', 'mergeAB', 'mergeBA', 'mergeA', 'mergeAA', 'first0', 'first1', 'first2', 'rand1', 'rand2',
       'saveA', 'load']


class Chooser(object):
    """All outcomes of the integers drawn from the standard generator, one run after the other."""

    def __init__(self):
        self.trail = []                  # [choice, of]
        self.pos = 0
        self.used = False

    def __call__(self, n):
        self.used = True
        if self.pos == len(self.trail):
            self.trail.append([0, n])
        c = self.trail[self.pos][0]
        self.pos += 1
        return c

    def more(self):
        while self.trail and self.trail[-1][0] + 1 >= self.trail[-1][1]:
            self.trail.pop()
        if not self.trail:
            return False
        self.trail[-1][0] += 1
        return True


def drawing(fn):
    """Every outcome of fn over the random source, and whether it used it."""
    ch = Chooser()
    inst = random._inst
    out = []
    while True:
        ch.pos = 0
        inst._randbelow = ch
        try:
            out.append(fn())
        finally:
            del inst._randbelow
        if not ch.more() or len(out) > 5000:
            return out, ch.used


class World(object):
    def __init__(self, work):
        from nephosem.core.terms import TypeNode
        self.A = TypeNode(type_str='be/V', type_fmt='lemma/pos')
        self.B = TypeNode(lemma='be', pos='V', type_fmt='lemma/pos')
        self.a, self.b, self.file = (), (), None
        self.path = os.path.join(work, 'out', 'type.json')

    def copy(self):
        w = World.__new__(World)
        w.A, w.B, w.a, w.b, w.file, w.path = self.A, self.B, self.a, self.b, self.file, self.path
        return w

    def key(self):
        return (self.a, self.b, self.file)


def same(tn, idx, name):
    got, want = [view_tok(t) for t in tn.tokens], [want_tok(SPECS[i]) for i in idx]
    if got != want:
        return '%s holds %r, expected %r' % (name, got, want)
    if str(tn) != 'be/V' or tn.format != 'lemma/pos' or (tn.lemma, tn.pos) != ('be', 'V') or tn.to_type() != 'be/V':
        return '%s is the type %r' % (name, tn)
    if tn.freq != len(idx):
        return '%s: freq is %r with %d tokens' % (name, tn.freq, len(idx))
    coll = {c for i in idx for c in SPECS[i][5] + SPECS[i][6]}
    gotc = {(c.word, c.lemma, c.pos) for c in tn.get_collocs()}
    if gotc != coll or {(c.word, c.lemma, c.pos) for c in tn.collocs} != coll:
        return '%s: collocates %r, expected %r' % (name, gotc, coll)
    return None


def append(tn, spec):
    """A new object (the history tree shares its nodes) with one more token, through append_token."""
    from nephosem.core.terms import TypeNode
    n = TypeNode(type_str=str(tn), type_fmt=tn.format, tokens=tn.tokens)
    n.append_token(mktok(spec))
    return n


def scribble(tn):
    """What is done to a result does not reach what it was made from."""
    for t in tn.tokens:
        t.lid, t.fid = 'x', 'y'
        t.lcollocs[:] = []
        t.rcollocs.append(None)
    del tn.tokens[:]


def apply(w, op):
    """Successor worlds of one operation; (message, []) on a violation."""
    from nephosem.core.terms import TypeNode
    out = []
    if op.startswith('add'):
        i = int(op[4])
        n = w.copy()
        if op[3] == 'A':
            n.A, n.a = append(w.A, SPECS[i]), w.a + (i,)
        else:
            n.B, n.b = append(w.B, SPECS[i]), w.b + (i,)
        out.append(n)
    elif op.startswith('merge'):
        n = w.copy()
        which = op[5:]
        n.A = TypeNode.merge([w.A if x == 'A' else w.B for x in which])
        n.a = sum((w.a if x == 'A' else w.b for x in which), ())
        scribble(TypeNode.merge([w.A if x == 'A' else w.B for x in which]))
        out.append(n)
    elif op.startswith('first'):
        k = int(op[5])
        n = w.copy()
        n.A, n.a = w.A.sample(k, 'first'), w.a[:k]
        scribble(w.A.sample(k, 'first'))
        out.append(n)
    elif op.startswith('rand'):
        k = int(op[4])
        res, used = drawing(lambda: w.A.sample(k))
        seen = set()
        m = len(w.a)
        full = [want_tok(SPECS[i]) for i in w.a]
        for r in res:
            got = [view_tok(t) for t in r.tokens]
            pick = None
            for sub in itertools.permutations(range(m), min(k, m)):
                if [full[i] for i in sub] == got:
                    pick = sub
                    break
            if pick is None:
                return 'sample of %d from %r holds %r' % (k, full, got), []
            seen.add(tuple(sorted(full[i] for i in pick)))
            n = w.copy()
            n.A, n.a = r, tuple(w.a[i] for i in pick)
            out.append(n)
        if used and len(res) <= 5000:
            need = {tuple(sorted(full[i] for i in sub)) for sub in itertools.combinations(range(m), min(k, m))}
            if need - seen:
                return 'no outcome of sample(%d) from %r selects %r' % (k, full, sorted(need - seen)[0]), []
    elif op == 'saveA':
        n = w.copy()
        w.A.save(w.path, verbose=False)
        n.file = (w.a, open(w.path, 'rb').read())
        out.append(n)
    elif op == 'load':
        if w.file is None:
            return None, []
        with open(w.path, 'wb') as f:
            f.write(w.file[1])
        n = w.copy()
        n.A, n.a = TypeNode.load(w.path), w.file[0]
        out.append(n)
    for n in out:
        d = same(n.A, n.a, 'A') or same(n.B, n.b, 'B') or same(w.A, w.a, 'A before') or same(w.B, w.b, 'B before')
        if d:
            return d, []
    return None, out


def history(case, ctx):
    """Depth-first over all histories that start with case['first']."""
    deepest = case['depth']
    only = case.get('ops')
    best = {}

    def go(w, trail):
        if len(trail) == deepest or len(w.a) > 4:
            return None
        left = deepest - len(trail)
        if best.get(w.key(), -1) >= left and len(trail) >= 1:
            return None
        best[w.key()] = left
        for op in OPS:
            if len(trail) < len(case['first']) and op != case['first'][len(trail)]:
                continue
            if only and len(trail) < len(only) and op != only[len(trail)]:
                continue
            d, nxt = apply(w, op)
            ctx.trans(max(1, len(nxt)))
            if d:
                return 'after %s: %s' % (' '.join(trail + [op]), d)
            for n in nxt:
                ctx.state(n.key())
                d = go(n, trail + [op])
                if d:
                    return d
        return None
    return go(World(ctx.work), [])


# ---- one object on disk -------------------------------------------------------------------------------------------
def disk(case, ctx):
    from nephosem.core.terms import TypeNode
    word, lemma, pos = case['parts']
    fmt = case['fmt']
    d = dict(zip(PARTS, (word, lemma, pos)))
    specs = [(word, lemma, pos, s[0], s[1], s[2], s[3]) for s in case['toks']]
    toks = [mktok(s, case['tfmt']) for s in specs]
    a = TypeNode(type_fmt=fmt, tokens=toks, **d)
    path = os.path.join(ctx.work, 'out', case['name'])
    enc = case['enc']
    if enc:
        a.save(path, encoding=enc, verbose=False)
        b = TypeNode.load(path, encoding=enc)
    else:
        a.save(path, verbose=False)
        b = TypeNode.load(path)
    for name, n in (('the saved object', a), ('the loaded object', b)):
        text = '/'.join(d[x] for x in fmt.split('/'))
        if str(n) != text or n.format != fmt or n.to_type() != text:
            return '%s is the type %r in format %r, expected %r in %r' % (name, n, n.format, text, fmt)
        if any(getattr(n, x) != d[x] for x in fmt.split('/')):
            return '%s has the parts %r' % (name, {x: getattr(n, x) for x in PARTS})
        got, want = [view_tok(t) for t in n.tokens], [want_tok(s, case['tfmt']) for s in specs]
        if got != want or n.freq != len(want):
            return '%s holds %r, expected %r' % (name, got, want)
    c = TypeNode.merge([a, b])
    if [view_tok(t) for t in c.tokens] != want + want:
        return 'merged with the loaded object: %r' % [view_tok(t) for t in c.tokens]
    return None


# ---- concordances -------------------------------------------------------------------------------------------------
def concordance(case, ctx):
    from nephosem.core.terms import TypeNode
    from nephosem.utils import save_concordance
    cf, tfmt, enc = case['colloc'], case['tfmt'], case['enc']
    types, want = {}, []
    for name, toks in case['types']:
        types[name] = TypeNode(type_str=name, type_fmt='lemma/pos', tokens=[mktok(s, tfmt) for s in toks])
        for s in toks:
            def show(c):
                return '/'.join(dict(zip(PARTS, c))[x] for x in cf.split('/'))
            want.append('\t'.join([want_tok(s, tfmt)[-1], ' '.join(map(show, s[5])), show(s[:3]), ' '.join(map(show, s[6]))]))
    path = os.path.join(ctx.work, 'out', 'conc.tsv')
    kw = {}
    if cf != 'lemma' or case['explicit']:
        kw['colloc_fmt'] = cf
    if enc != 'utf-8' or case['explicit']:
        kw['encoding'] = enc
    save_concordance(path, types, **kw)
    with io.open(path, encoding=enc, newline='') as f:
        text = f.read()
    got = text.replace('\r\n', '\n').split('\n')
    if got[-1] != '':
        return 'the last line is not ended: %r' % text
    if sorted(got[:-1]) != sorted(want):
        return 'concordance %r, expected %r' % (got[:-1], want)
    # the tokens of a type stay in their order
    i = 0
    for name, toks in case['types']:
        lines = [x for x in want[i:i + len(toks)]]
        i += len(toks)
        pos = 0
        for x in got[:-1]:
            if pos < len(lines) and x == lines[pos]:
                pos += 1
        if pos != len(lines):
            return 'the tokens of %s are not in their order: %r' % (name, got[:-1])
    return None


def whole(case, ctx):
    """From a corpus: retrieve, print the concordance, save, load and merge the type objects."""
    from nephosem.core.vocab import Vocab
    from nephosem.core.terms import TypeNode
    from nephosem.models.typetoken import TokenHandler, read_token_colloc
    from nephosem.utils import save_concordance
    toks = {'a': ('t', 'as', 'N', 'a'), 'b': ('t', 'bs', 'V', 'b'), 's': ('s',)}
    files = [[toks[c] for c in f] for f in case['files']]
    corp.clear(os.path.join(ctx.work, 'corpus'))
    names = ['f0.txt', 'sub/f1.txt']
    paths = corp.write(ctx.work, files, names=names[:len(files)])
    ls, rs = case['span']
    over = {'left-span': ls, 'right-span': rs, 'line-machine': '([^\t]+)\t([^\t]+)\t([^\t]+)', 'line-format': 'word,pos,lemma',
            'separator-line-machine': ref.SEP, 'single-boundary-machine': ref.SEP,
            'type': 'lemma/pos', 'colloc': 'lemma/pos', 'token': 'lemma/pos/fid/lid'}
    s = corp.base_settings(ctx.work, **over)
    s.pop('global-columns', None)
    h = TokenHandler(Vocab({'a/N': 0, 'b/V': 0}), settings=s, workers=case['workers'])
    want = ref.tokens(files, ['f0', 'sub/f1'], ls, rs, {'a/N', 'b/V'}, tok_fmt='lemma/pos')
    try:
        h.retrieve_tokens(fnames=paths)
    except ValueError:                   # no matrix without any context; the type objects are there
        if any(left or right for lst in want.values() for _, left, right in lst):
            raise
    path = os.path.join(ctx.work, 'out', 'conc.tsv')

    def rows(t2t):
        save_concordance(path, t2t, colloc_fmt='lemma/pos')
        with io.open(path, encoding='utf-8') as f:
            return sorted(tuple(x.rstrip('\n').split('\t')) for x in f)
    exp = sorted((tid, ' '.join(left), ty, ' '.join(right)) for ty, lst in want.items() for tid, left, right in lst)
    got = rows(h.type2toks)
    if got != exp:
        return 'concordance %r, expected %r' % (got, exp)
    back = {}
    for i, (ty, tn) in enumerate(sorted(h.type2toks.items())):
        p = os.path.join(ctx.work, 'out', 't%d.json' % i)
        tn.save(p, verbose=False)
        back[ty] = TypeNode.load(p)
        if str(back[ty]) != ty or back[ty].freq != tn.freq or sorted(map(view_tok, back[ty].tokens)) != sorted(map(view_tok, tn.tokens)):
            return 'loaded %r with %r, saved %r with %r' % (back[ty], back[ty].tokens, tn, tn.tokens)
    if rows(back) != exp:
        return 'concordance of the loaded objects %r, expected %r' % (rows(back), exp)
    both = {ty: TypeNode.merge([h.type2toks[ty], back[ty]]) for ty in back}
    if rows(both) != sorted(exp + exp):
        return 'concordance of the merged objects %r' % rows(both)
    # the positions of the contexts of each token
    for lim in ((ls, rs), (1, 1)):
        for vocab in (None, {'a/N'}):
            ok = ref.position_matrix({ty: [(tid, left[len(left) - min(lim[0], len(left)):], right[:lim[1]])
                                           for tid, left, right in lst] for ty, lst in want.items()})
            for ty, tn in h.type2toks.items():
                d = read_token_colloc(tn, Vocab({'a/N': 1}) if vocab else None,
                                      dict(s, **{'left-span': lim[0], 'right-span': lim[1]}))
                for tid, _, _ in want.get(ty, []):
                    e = {k: v for k, v in ok[tid].items() if not vocab or k in vocab}
                    g = d.get(tid, {})
                    if set(g) != set(e) or any(g[k] not in e[k] for k in g):
                        return 'contexts of %s within %r: %r, expected %r' % (tid, lim, dict(g), e)
    few = {ty: tn.sample(1, 'first') for ty, tn in both.items()}
    if len(rows(few)) != sum(1 for lst in want.values() if lst) or not set(rows(few)) <= set(exp):
        return 'concordance of the sampled objects %r' % rows(few)
    return None


# ---- queries ------------------------------------------------------------------------------------------------------
QLINES = [('appel/noun', 'appel/noun'), ('', None), ('# appel/noun', None), ('#', None), ('   ', None),
          ('LeNC:rustoord/noun\tTwNC:rust_oord/noun', [('LeNC', 'rustoord/noun'), ('TwNC', 'rust_oord/noun')]),
          ('TwNC:b\tLeNC:a\tX:c', [('TwNC', 'b'), ('LeNC', 'a'), ('X', 'c')]),
          ('LeNC:a\t%(def)s:d', [('LeNC', 'a'), ('%(def)s', 'd')]),
          ('%(def)s:d\tLeNC:a', [('%(def)s', 'd'), ('LeNC', 'a')]),
          ('a b', 'a b'), ('x:y', 'x:y'), ('é/noun', 'é/noun'), ('a#b', 'a#b'), (' lead/noun ', 'lead/noun'),
          ('L: a/n \t T:b/n', [('L', 'a/n'), ('T', 'b/n')]),
          ('L::/punct\tT:a:b', [('L', ':/punct'), ('T', 'a:b')]),
          ('L:1\tT:#', [('L', '1'), ('T', '#')])]


def queries(case, ctx):
    from nephosem.utils import read_word_queries, get_word_str
    key = case['key'] or '_DEFAULT_'
    lines, want = [], []
    for i in case['lines']:
        raw, val = QLINES[i]
        lines.append(raw.replace('%(def)s', key))
        if val is None:
            continue
        if isinstance(val, list):
            val = [(k.replace('%(def)s', key), v) for k, v in val]
            d = dict(val)
            d.setdefault(key, val[0][1])
            val = d
        want.append(val)
    body = case['eol'].join(lines) + (case['eol'] if lines and case['final'] else '')
    path = os.path.join(ctx.work, 'out', 'words.txt')
    with open(path, 'wb') as f:
        f.write(body.encode(case['enc']))
    kw = {}
    if case['enc'] != 'utf-8':
        kw['encoding'] = case['enc']
    if case['key']:
        kw['wquery_default_key'] = case['key']
    got = read_word_queries(path, **kw)
    if got != want:
        return 'queries %r, expected %r' % (got, want)
    for g, w in zip(got, want):
        for name in ('LeNC', 'TwNC', 'other', key):
            for spec in (False, True):
                r = get_word_str(g, specific=spec, corpus_name=name, def_key=key)
                e = w if not isinstance(w, dict) else (w[name] if spec and name in w else w[key])
                if r != e:
                    return 'word of %r for corpus %s (specific %s) is %r' % (g, name, spec, r)
        if get_word_str(g, def_key=key) != (w if not isinstance(w, dict) else w[key]):
            return 'default word of %r is %r' % (g, get_word_str(g, def_key=key))
    return None


# ---- enumeration --------------------------------------------------------------------------------------------------
def shards(tier):
    return [('str', i, 6) for i in range(6)] + [('hist', i, len(OPS)) for i in range(len(OPS))] + \
        [('disk', i, 4) for i in range(4)] + [('conc', i, 4) for i in range(4)] + [('query', i, 8) for i in range(8)]


CONTEXTS = [[], [C1], [C2, C1], [C1, C1, C2], [C1, C2, C2] * 9 + [('w', '', 'D')]]


def gen(kind, tier):
    full = tier != 'quick'
    if kind == 'str':
        for fmt in orders(PARTS):
            for vals in itertools.product(VALS, repeat=len(fmt)):
                yield {'kind': 'types', 'fmt': fmt, 'vals': vals}
        some = VALS if full else VALS[::2]
        for fmt in orders(PARTS + ('fid', 'lid')):
            if not set(fmt) & set(PARTS):
                continue
            dom = [FIDS if p == 'fid' else LIDS if p == 'lid' else some for p in fmt]
            n = 0
            for vals in itertools.product(*dom):
                n += 1
                if len(fmt) >= 4 and not full and n % 7:
                    continue
                if len(fmt) == 5 and n % 11:
                    continue
                yield {'kind': 'tokens', 'fmt': fmt, 'vals': vals}
        for base in orders(PARTS):
            for extra in ((), ('id',), ('x', 'id')):
                for cols in {base + extra, extra + base, base[:1] + extra + base[1:]}:
                    for ty in orders(base):
                        for to in orders(base):
                            for co in [None] + [base[:1], base[::-1]]:
                                yield {'kind': 'line', 'cols': cols, 'type': ty, 'token': to, 'colloc': co}
    elif kind == 'disk':
        n = 0
        for parts in [('is', 'be', 'V'), ('é', 'œ', 'ADJ'), ('a b', '"q"', '\\'), ('is', 'be', None), (None, 'be', 'V'),
                      ('is', None, None), ('', 'be', 'V')]:
            have = [p for p, v in zip(PARTS, parts) if v]
            for fmt in orders(have):
                for tf in [tuple(have[:1]), tuple(have), tuple(have[::-1])]:
                    for order in (('fid', 'lid'), ('lid', 'fid')) if full else (('fid', 'lid'),):
                        for toks in itertools.chain.from_iterable(
                                itertools.product([('f0', 1), ('d/f', '23'), ('é', -1)], repeat=k) for k in range(4 if full else 3)):
                            n += 1
                            ctxs = [[C1], [], [C2, C1], [C3], [C1, (' x', 'y ', 'N'), C2, C2]]
                            ts = [(f, l, ctxs[(n + 2 * i) % 5], ctxs[(n // 3 + i) % 5]) for i, (f, l) in enumerate(toks)]
                            yield {'kind': 'disk', 'parts': parts, 'fmt': '/'.join(fmt), 'tfmt': '/'.join(tf + order), 'toks': ts,
                                   'enc': (None, 'utf-8', 'latin-1', 'utf-16')[n % 4],
                                   'name': ('t.json', 'be.V', 'x y', 'é.json')[n // 4 % 4]}
    elif kind == 'conc':
        w1, w2 = ('is', 'be', 'V'), ('ém', 'e', 'N')
        n = 0
        for a, b in [(0, 0), (1, 0), (0, 1), (1, 1), (2, 0), (2, 1), (1, 2), (3, 0)]:
            for ctxs in itertools.product(itertools.product(range(5 if a + b < 2 else 4), repeat=2), repeat=a + b) if a + b < 3 or full else \
                    itertools.product([(0, 1), (2, 0), (3, 2), (1, 1)], repeat=a + b):
                n += 1
                if n % 7 and a + b == 3 and full:
                    continue
                ts = []
                for i, (l, r) in enumerate(ctxs):
                    w = w1 if i < a else w2
                    ts.append(w + (('f0', 'd/f1', 'f0')[i], (3, '4', 30)[i], CONTEXTS[l], CONTEXTS[r]))
                for cf in ('lemma', 'word', 'pos', 'lemma/pos', 'pos/word', 'word/lemma/pos'):
                    yield {'kind': 'concordance', 'types': [('be/V', ts[:a]), ('e/N', ts[a:])], 'colloc': cf,
                           'tfmt': ('lemma/pos/fid/lid', 'word/fid/lid', 'word/lemma/pos/fid/lid')[n % 3],
                           'enc': ('utf-8', 'latin-1', 'utf-16', 'utf-8')[n % 4], 'explicit': n % 5 == 0}
        n = 0
        for k in range(4 if not full else 5):
            for one in itertools.product('abs', repeat=k):
                for two in [None, 'ab', 'ba', 'asb']:
                    n += 1
                    fs = [''.join(one)] + ([two] if two is not None else [])
                    yield {'kind': 'whole', 'files': fs, 'span': [(1, 1), (2, 1), (0, 2), (2, 0), (3, 3)][n % 5],
                           'workers': 1 + n % 2}
    elif kind == 'query':
        n = 0
        for k in range(5 if full else 4):
            for ls in itertools.product(range(len(QLINES)), repeat=k):
                n += 1
                if k == 3 and not full and n % 2:
                    continue
                yield {'kind': 'queries', 'lines': ls, 'eol': ('\n', '\r\n')[n // 2 % 2], 'final': n % 3 > 0,
                       'enc': ('utf-8', 'latin-1', 'utf-16')[n // 3 % 3], 'key': (None, '_DEFAULT_', 'dflt')[n // 7 % 3]}


RUN = {'types': types, 'tokens': tokens, 'line': line, 'history': history, 'disk': disk, 'concordance': concordance,
       'whole': whole, 'queries': queries}


def cases(shard, tier):
    kind, i, m = shard
    if kind == 'hist':
        yield {'kind': 'history', 'first': [OPS[i]], 'depth': 6 if tier == 'quick' else 9}
        return
    for n, case in enumerate(gen(kind, tier)):
        if n % m == i:
            yield case


def run_shard(shard, ctx):
    env.load()
    corp.fresh(ctx.work)
    for case in cases(shard, ctx.tier):
        ctx.ran()
        ctx.trans()
        ctx.state(repr(case))
        sec = 600 if case['kind'] == 'history' else 30
        ok, d = ctx.attempt(lambda: RUN[case['kind']](case, ctx), 'terms:' + case['kind'], case, sec)
        if ok and d:
            ctx.fail('terms:' + case['kind'], '%s in %r' % (d, case), case)
        ctx.sample(case, 1)


def replay(case, ctx):
    env.load()
    corp.fresh(ctx.work)
    ok, d = ctx.attempt(lambda: RUN[case['kind']](case, ctx), 'replay', case, 600)
    if ok and d:
        ctx.fail('replay', d, case)
