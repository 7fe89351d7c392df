"""C11: vocabulary files load back to the same vocabulary.

All ordered vocabularies over an alphabet of awkward items and frequencies x formats x encodings
(one save, one load), and all sequences of saves and loads over two file names, three
vocabularies, the formats and encodings, against a model that maps file names to contents.
"""
import itertools
import os

from mc import env

ID = 'C11'
LEVEL = 'model_checking'
ASSUMPTIONS = ['items contain no tab and no line feed or carriage return (the plain format has one item per line)',
               'a file is loaded with the format and encoding it was saved with']
BOUNDS = ('all ordered vocabularies of <=2 (thorough 3) of 15 awkward items x 14 frequencies x 3 formats x 4 ways to '
          'give one of 4 encodings; all sequences of <=3 (thorough 4) saves and loads over 2 file names, 3 '
          'vocabularies, 2 formats, 3 encodings; vocabularies of 11 and 300 items')
ITEMS = ['a/N', 'B/N', ' lead', 'trail ', '\u00e9t\u00e9/N', '"q\\', '#x', 'a b', '1', 'x\x85y', 'x\x0cz', '', "'", 'null', '/']
WIDE = ['\u2028u', '\u4e2d', '\U0001f600']
FREQS = [1, 0, 2, 10, 0.5, 3.0, 1e-05, 10 ** 20, 1 / 3.0, 1e-15, 12345678.123456789, -1, -2.5, 2 ** 53 + 1]
ENCS = ['utf-8', 'latin-1', 'utf-16', 'utf-8-sig']
FMTS = ['json', 'plain', 'txt']
# the encoding is the vocabulary's own, or given to save, or both
HOWS = ['own', 'arg', 'both', 'default']


def vocabs(n, items, freqs):
    for its in itertools.permutations(items, n):
        for fs in itertools.product(freqs, repeat=n):
            yield list(zip(its, fs))


def shards(tier):
    out = [('one', f, e) for f in FMTS for e in ENCS]
    out += [('seq', a, i) for a in range(len(steps())) for i in range(2 if tier == 'quick' else 8)]
    return out


def steps():
    """Steps of the file histories: (save, name, vocabulary, fmt, enc) and (load, name)."""
    out = []
    for n in 'xy':
        for v in range(3):
            for f in ('json', 'plain'):
                for e in ('utf-8', 'utf-16'):
                    out.append(('save', n, v, f, e))
        out.append(('load', n))
    return out


SEQV = [[('a/N', 1), ('\u00e9', 3), ('b', 1)], [('a/N', 2)], []]


def expected_plain(pairs):
    d = dict(pairs)
    return ''.join('%s\t%s\n' % (k, d[k]) for k in sorted(sorted(d), key=lambda k: -d[k]))


def same(got, want):
    return got == want and all(type(got[k]) in (int, float) for k in want)


def run_one(case, work):
    from nephosem import Vocab
    import json
    pairs, fmt, enc, how = [tuple(p) for p in case['vocab']], case['fmt'], case['enc'], case['how']
    d = dict(pairs)
    p = os.path.join(work, 'v.file')
    if os.path.exists(p):
        os.remove(p)
    if how == 'own':
        v = Vocab(dict(pairs), encoding=enc)
        v.save(p, fmt=fmt)
    elif how == 'arg':
        v = Vocab(dict(pairs))
        v.save(p, encoding=enc, fmt=fmt, verbose=False)
    elif how == 'both':
        v = Vocab(dict(pairs), encoding='latin-1' if enc != 'latin-1' else 'utf-8')
        v.save(p, enc, fmt)
    else:
        v = Vocab(dict(pairs))
        if fmt == 'json' and enc == 'utf-8':
            v.save(p)
        else:
            v.save(p, encoding=enc, fmt=fmt)
    if list(v.get_dict().items()) != pairs:
        return 'saving changed the vocabulary to %r' % v.get_dict()
    with open(p, 'rb') as f:
        text = f.read().decode(enc)
    if fmt == 'json':
        if json.loads(text) != d:
            return 'file contents %r' % text
    elif text != expected_plain(pairs):
        return 'file contents %r, expected %r' % (text, expected_plain(pairs))
    w = Vocab.load(p) if how == 'default' and fmt == 'json' and enc == 'utf-8' else Vocab.load(p, encoding=enc, fmt=fmt)
    if not same(w.get_dict(), d):
        return 'loaded %r, expected %r' % (dict(w.get_dict()), d)
    if len(w) != len(d) or not w.equal(v) or (d and w.get_item_list(sorting='freq', descending=True) !=
                                             sorted(sorted(d), key=lambda k: -d[k])):
        return 'loaded vocabulary differs'
    # a file of some types
    if fmt == 'json':
        some = [k for k, _ in pairs][::-2] + ['absent/N', '\u00e9']
        kw = {} if enc == 'utf-8' else {'encoding': enc}
        v.make_type_file(list(some), p + '.types', **kw)
        with open(p + '.types', 'rb') as f:
            t = json.loads(f.read().decode(enc))
        if t != {k: d.get(k, 0) for k in some}:
            return 'type file %r' % t
        if list(v.get_dict().items()) != pairs:
            return 'writing the type file changed the vocabulary to %r' % v.get_dict()
    # what is made from a vocabulary is saved in its encoding
    if how != 'both':
        some = [k for k, _ in pairs][::2]
        for n, (z, e) in enumerate(((w.copy(), d), (w.deepcopy(), d), (w[list(some)], {k: d[k] for k in some}),
                                    (w if any(isinstance(x, float) for x in d.values()) else w[:], d),
                                    (w.subvocab(list(some)), {k: d[k] for k in some}), (w[w.freq > -9, w.freq < 10 ** 21], d),
                                    (w.select_items('a'), {k: d[k] for k in d if k.rsplit('/', 1)[0] == 'a'}))):
            z.save(p, fmt=fmt)
            with open(p, 'rb') as f:
                text = f.read().decode(enc)
            if (json.loads(text) != e) if fmt == 'json' else (text != expected_plain(list(e.items()))):
                return 'derived vocabulary %d is saved as %r' % (n, text)
    # a loaded vocabulary saved again gives the same again
    w.save(p, fmt=fmt)
    z = Vocab.load(p, encoding=enc, fmt=fmt)
    if not same(z.get_dict(), d):
        return 'after saving and loading again %r, expected %r' % (dict(z.get_dict()), d)
    return None


def run_seq(case, work):
    from nephosem import Vocab
    vs = [Vocab(dict(p)) for p in SEQV]
    want = [dict(p) for p in SEQV]
    files = {}
    for n in 'xy':
        if os.path.exists(os.path.join(work, n)):
            os.remove(os.path.join(work, n))
    for op in case['ops']:
        p = os.path.join(work, op[1])
        if op[0] == 'save':
            vs[op[2]].save(p, encoding=op[4], fmt=op[3])
            files[op[1]] = (dict(want[op[2]]), op[3], op[4])
        else:
            if op[1] not in files:
                return 'skip'
            d, f, e = files[op[1]]
            v = Vocab.load(p, encoding=e, fmt=f)
            if v.get_dict() != d:
                return '%r gives %r, expected %r' % (op, dict(v.get_dict()), d)
            # keep working with what was loaded
            v.increment('loaded', 2)
            vs[1] = v
            want[1] = dict(d, loaded=d.get('loaded', 0) + 2)
        for v, d in zip(vs, want):
            if v.get_dict() != d:
                return '%r changed a vocabulary to %r, expected %r' % (op, v.get_dict(), d)
    for n in files:
        d, f, e = files[n]
        if Vocab.load(os.path.join(work, n), encoding=e, fmt=f).get_dict() != d:
            return 'file %s is not what was saved last' % n
    return None


def run_shard(shard, ctx):
    env.load()
    if shard[0] == 'one':
        _, fmt, enc = shard
        for size in (11, 300):
            for div in (1, 3, 1000):
                its = ITEMS + ['w%d' % i for i in range(size)]
                for order in (its, its[::-1], sorted(its)):
                    pairs = [(w, (i * 37 % (size + 1)) // div) for i, w in enumerate(order)]
                    for how in HOWS:
                        case = {'kind': 'one', 'vocab': pairs, 'fmt': fmt, 'enc': enc, 'how': how}
                        ctx.state(repr(case))
                        ctx.ran()
                        ctx.trans(4)
                        sig = 'roundtrip:%s:%s' % (fmt, enc)
                        ok, m = ctx.attempt(lambda: run_one(case, ctx.work), sig, case)
                        if ok and m:
                            ctx.fail(sig, '%s in %r' % (m, case), case)
        items = ITEMS + ([] if enc == 'latin-1' else WIDE)
        for n in range(0, 3 if ctx.tier == 'quick' else 4):
            fs = FREQS if n < 2 else FREQS[:1] + FREQS[3:6] if n == 2 else [1, 2]
            for pairs in vocabs(n, items, fs):
                for how in HOWS if n < 2 else ['arg']:
                    case = {'kind': 'one', 'vocab': pairs, 'fmt': fmt, 'enc': enc, 'how': how}
                    ctx.state(repr(case))
                    ctx.ran()
                    ctx.trans(4)
                    sig = 'roundtrip:%s:%s' % (fmt, enc)
                    ok, m = ctx.attempt(lambda: run_one(case, ctx.work), sig, case)
                    if ok and m:
                        ctx.fail(sig, '%s in %r' % (m, case), case)
                    ctx.sample(case, 1)
        return
    _, a, i = shard
    st = steps()
    k = 2 if ctx.tier == 'quick' else 8
    for depth in range(1, 3 if ctx.tier == 'quick' else 4):
        for j, rest in enumerate(itertools.product(st, repeat=depth - 1)):
            if j % k != i:
                continue
            seq = [st[a]] + list(rest)
            if not legal(seq):
                continue
            for last in ('x', 'y'):
                full = seq + [('load', last)]
                if not legal(full):
                    continue
                case = {'kind': 'seq', 'ops': full}
                ctx.state(repr(full))
                ctx.ran()
                ctx.trans(len(full))
                ok, m = ctx.attempt(lambda: run_seq(case, ctx.work), 'history', case)
                if ok and m:
                    ctx.fail('history', '%s in %r' % (m, case), case)


def legal(seq):
    have = set()
    for op in seq:
        if op[0] == 'save':
            have.add(op[1])
        elif op[1] not in have:
            return False
    return True


def replay(case, ctx):
    env.load()
    f = run_one if case['kind'] == 'one' else run_seq
    ok, m = ctx.attempt(lambda: f(case, env.SCRATCH), 'replay', case)
    if ok and m:
        ctx.fail('replay', m, case)
