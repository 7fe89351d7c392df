"""C61: SaveLoad objects come back as they were saved, and saving never changes the object, even when it fails.

All small objects (attributes over 7 kinds of values, nested objects), all ways to store attributes apart or leave them out,
plain and compressed names, every file of a save in turn impossible to write, and all short histories of changes, saves,
saves into an open file and loads.
"""
import io
import itertools
import os
import shutil

import numpy as np
import scipy.sparse as sp

from mc import env, corp

ID = 'C61'
LEVEL = 'model_checking'
ASSUMPTIONS = ['a failing write shows as an OSError of the file operation (a directory stands where the file belongs)']
BOUNDS = ('objects of <=2 attributes out of 8 kinds and at most one nested object of one attribute, all lists of attributes to '
          'store apart or to ignore, 3 size limits, 3 names, 3 ways to map memory, each file of a save in turn unwritable; '
          'histories of <=4 operations out of 12 (thorough: 6)')

KINDS = ['int', 'str', 'list', 'vec', 'mat', 'empty', 'csr', 'csc']


def value(kind, seed=0):
    if kind == 'int':
        return 7 + seed
    if kind == 'str':
        return 'é%d' % seed
    if kind == 'list':
        return [1, {'x': seed}]
    if kind == 'vec':
        return (np.arange(5) + seed).astype('i2')
    if kind == 'mat':
        return np.asfortranarray(np.arange(6.).reshape(2, 3) + seed)
    if kind == 'empty':
        return np.zeros((0, 3), 'f4')
    m = sp.csr_matrix(np.array([[0, 1, 2], [3 + seed, 0, 0]], dtype='f4' if seed else 'i8'))
    return m if kind == 'csr' else m.tocsc()


def plain(v):
    """A comparable image of a value."""
    if isinstance(v, np.ndarray):
        return ('array', v.shape, v.dtype.str, v.tolist())
    if sp.issparse(v):
        return ('sparse', v.getformat(), v.shape, v.dtype.str, v.data.tolist(), v.indices.tolist(), v.indptr.tolist())
    if hasattr(v, 'save') and hasattr(v, '__dict__'):
        return image(v)
    return repr(v)


def image(o):
    return tuple(sorted((k, plain(v)) for k, v in o.__dict__.items() if not k.startswith('__')))


_CLS = {}


def cls():
    from nephosem.utils import SaveLoad
    if SaveLoad not in _CLS:
        class Box(SaveLoad):
            pass
        Box.__module__, Box.__qualname__ = __name__, 'Box'
        globals()['Box'] = Box
        _CLS[SaveLoad] = Box
    return _CLS[SaveLoad]


def make(spec):
    o = cls()()
    for name, kind in spec:
        setattr(o, name, make(kind) if isinstance(kind, (tuple, list)) else value(kind))
    return o


def expected(spec, sep, ign):
    """The image after loading: what was ignored is None, in nested objects too."""
    out = []
    for name, kind in spec:
        if name in ign:
            out.append((name, repr(None)))
        elif isinstance(kind, (tuple, list)):
            out.append((name, expected(kind, None, ign)))
        else:
            out.append((name, plain(value(kind))))
    return tuple(sorted(out))


def files(d):
    return sorted(os.listdir(d))


def once(case, ctx):
    d = os.path.join(ctx.work, 'out')
    corp.clear(d)
    o = make(case['spec'])
    before = image(o)
    path = os.path.join(d, case['name'])
    kw = {'ignore': frozenset(case['ign'])}
    if case['sep'] is not None:
        kw['separately'] = list(case['sep'])
    if case['limit'] is not None:
        kw['sep_limit'] = case['limit']
    o.save(path, **kw)
    if image(o) != before:
        return 'saving changed the object: %r, before %r' % (image(o), before)
    if case['sep'] is not None:
        # the same list of attributes used again for another object
        other = make(case['spec'] + [('z', 'int')])
        other.save(path + '2', separately=kw['separately'])
        got = image(cls().load(path + '2'))
        if got != expected(case['spec'] + [('z', 'int')], case['sep'], ()):
            return 'saved after another object with the same list, loaded %r' % (got,)
        corp.clear(d)
        o.save(path, **kw)
    zipped = path.endswith(('.gz', '.bz2'))
    want = expected(case['spec'], case['sep'], case['ign'])
    for mm in (None,) if zipped else (None, 'r', 'c'):
        got = cls().load(path, mmap=mm) if mm else cls().load(path)
        if image(got) != want:
            return 'loaded (mmap %r) %r, expected %r' % (mm, image(got), want)
        for n, k in case['spec']:
            f = path + '.' + n + '.npy'
            if os.path.exists(f) and k in ('vec', 'mat') and isinstance(getattr(got, n), np.memmap) != bool(mm):
                return 'loaded with mmap %r, attribute %s is %s' % (mm, n, type(getattr(got, n)))
    made = files(d)
    if case['limit'] == 0 and case['sep'] is None:
        apart = [n for n, k in case['spec'] if k in ('vec', 'mat', 'empty', 'csr', 'csc') and n not in case['ign']]
        for n in apart:
            if not any(f.startswith('%s.%s.' % (case['name'], n)) for f in made):
                return 'attribute %s is not stored apart: %r' % (n, made)
    del got
    # every file of this save in turn cannot be written
    for bad in made:
        corp.clear(d)
        os.makedirs(os.path.join(d, bad))
        try:
            o.save(path, **kw)
        except OSError:
            pass
        else:
            if not os.path.isfile(os.path.join(d, bad)):
                return 'no error although %s could not be written' % bad
        if image(o) != before:
            return 'a save that failed at %s changed the object: %r, before %r' % (bad, image(o), before)
        shutil.rmtree(os.path.join(d, bad))
        o.save(path, **kw)
        if image(cls().load(path)) != want:
            return 'loaded %r after a save that failed at %s, expected %r' % (image(cls().load(path)), bad, want)
    return None


OPS = ['num', 'arr', 'mat', 'drop', 'nest', 'save', 'apart', 'ignore', 'all', 'handle', 'load', 'loadh']


def history(case, ctx):
    d = os.path.join(ctx.work, 'out')
    corp.clear(d)
    path, hpath = os.path.join(d, 'obj'), os.path.join(d, 'handle')
    o = make([('a', 'vec'), ('n', 'int'), ('s', 'csr')])
    model = {'a': plain(value('vec')), 'n': plain(value('int')), 's': plain(value('csr'))}
    disk = {}
    seed = 0
    for step, op in enumerate(case['ops']):
        seed += 1
        if op == 'num':
            o.n = value('int', seed)
            model['n'] = plain(o.n)
        elif op == 'mat':
            o.a = value('mat', seed)
            model['a'] = plain(o.a)
        elif op == 'arr':       # other values, of the same size
            o.a = o.a + seed
            model['a'] = plain(o.a)
            if 's' in model:
                o.s = value('csr', seed)
                model['s'] = plain(o.s)
        elif op == 'drop':
            o.__dict__.pop('s', None)
            model.pop('s', None)
        elif op == 'nest':
            o.k = make([('a', 'csc'), ('n', 'str')])
            model['k'] = image(o.k)
        elif op in ('save', 'apart', 'ignore', 'all'):
            kw = {'save': {}, 'apart': {'separately': ['a', 's', 'n']}, 'ignore': {'ignore': frozenset(['n'])}, 'all': {'sep_limit': 0}}[op]
            o.save(path, **kw)
            disk[path] = dict(model)
            if op == 'ignore':
                if 'n' in model:
                    disk[path]['n'] = plain(None)
                if 'k' in model:
                    disk[path]['k'] = tuple((k, repr(None) if k == 'n' else v) for k, v in model['k'])
        elif op == 'handle':
            with open(hpath, 'wb') as f:
                o.save(f)
            disk[hpath] = dict(model)
        else:
            p = path if op == 'load' else hpath
            if p not in disk:
                return None
            o = cls().load(p)
            model = dict(disk[p])
        if image(o) != tuple(sorted(model.items())):
            return 'after %s: %r, expected %r' % (' '.join(case['ops'][:step + 1]), image(o), tuple(sorted(model.items())))
    return None


def shards(tier):
    return [('once', i, 16) for i in range(16)] + [('hist', i, 16) for i in range(16)]


def gen(kind, tier):
    full = tier != 'quick'
    if kind == 'hist':
        for n in range(1, 5 if not full else 6):
            for ops in itertools.product(OPS, repeat=n):
                if n >= 2 and not any(x.startswith('load') for x in ops) and not full:
                    continue
                yield {'kind': 'history', 'ops': ops}
        return
    specs = [[('a', k)] for k in KINDS] + [[('a', x), ('b', y)] for x, y in itertools.product(KINDS, repeat=2)]
    specs += [[('a', x), ('k', (('a', y),))] for x, y in itertools.product(KINDS, repeat=2)]
    specs += [[('k', (('b', y), ('k', (('a', x),))))] for x, y in itertools.product(KINDS[3:], repeat=2)]
    n = 0
    for spec in specs:
        names = [x for x, _ in spec]
        subsets = [[]] + [list(c) for r in range(1, len(names) + 1) for c in itertools.combinations(names, r)]
        for sep in [None] + [s for s in subsets]:
            for ign in subsets:
                if any(isinstance(k, tuple) and x in ign for x, k in spec) and not full:
                    pass
                if sep and set(sep) & set(ign):
                    continue             # apart and ignored at once
                for limit in (None, 0, 4) if sep is None else (None,):
                    n += 1
                    for name in ('obj', 'o.b.gz', 'x.bz2') if full else (('obj', 'o.b.gz', 'x.bz2')[n % 3],):
                        yield {'kind': 'once', 'spec': spec, 'sep': sep, 'ign': ign, 'limit': limit, 'name': name}


RUN = {'once': once, 'history': history}


def run_shard(shard, ctx):
    env.load()
    corp.fresh(ctx.work)
    kind, i, m = shard
    for n, case in enumerate(gen(kind, ctx.tier)):
        if n % m != i:
            continue
        ctx.ran()
        ctx.trans(len(case.get('ops', 'x')))
        ctx.state(repr(case))
        ok, d = ctx.attempt(lambda: RUN[case['kind']](case, ctx), 'saveload:' + case['kind'], case)
        if ok and d:
            ctx.fail('saveload:' + case['kind'], '%s in %r' % (d, case), case)
        ctx.sample(case, 1)


def replay(case, ctx):
    env.load()
    corp.fresh(ctx.work)
    case['spec'] = [tuple(x) for x in case.get('spec', [])]
    ok, d = ctx.attempt(lambda: RUN[case['kind']](case, ctx), 'replay', case)
    if ok and d:
        ctx.fail('replay', d, case)
