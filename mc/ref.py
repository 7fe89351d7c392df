"""Reference semantics of corpora, independent of nephosem's code.

A corpus file is abstract: a list of items, each
   ('t', word, pos, lemma)   an annotated token line
   ('s',)                    a separator line (end of article / sentence)
   ('x', text)               a line that is neither: ignored
"""
from collections import Counter, defaultdict

SEP = '</artikel>'


COLS = 'word,pos,lemma'


def render(items, sep=SEP, cols=COLS):
    out = []
    for it in items:
        if it[0] == 't':
            d = {'word': it[1], 'pos': it[2], 'lemma': it[3]}
            out.append('\t'.join(d[c] for c in cols.split(',')))
        elif it[0] == 's':
            out.append(sep)
        else:
            out.append(it[1])
    return ''.join(l + '\n' for l in out)


def fmt(tok, form):
    d = {'word': tok[1], 'pos': tok[2], 'lemma': tok[3]}
    return '/'.join(d[c] for c in form.split('/'))


def segments(items):
    """Segments of (token, line number)."""
    segs, cur = [], []
    for i, it in enumerate(items):
        if it[0] == 't':
            cur.append((it, i + 1))
        elif it[0] == 's':
            segs.append(cur)
            cur = []
    segs.append(cur)
    return segs


def item_freq(files, type_fmt='lemma/pos'):
    c = Counter()
    for items in files:
        for it in items:
            if it[0] == 't':
                c[fmt(it, type_fmt)] += 1
    return dict(c)


def col_freq(files, lspan, rspan, rows=None, cols=None, type_fmt='lemma/pos', col_fmt='lemma/pos'):
    c = Counter()
    for items in files:
        for seg in segments(items):
            n = len(seg)
            for i in range(n):
                r = fmt(seg[i][0], type_fmt)
                if rows is not None and r not in rows:
                    continue
                for j in range(max(0, i - lspan), min(n, i + rspan + 1)):
                    if j == i:
                        continue
                    k = fmt(seg[j][0], col_fmt)
                    if cols is not None and k not in cols:
                        continue
                    c[(r, k)] += 1
    return dict(c)


def tokens(files, fids, lspan, rspan, queries, cols=None, type_fmt='lemma/pos',
           tok_fmt='word/pos', col_fmt='lemma/pos'):
    """type -> list of (token id, left collocates, right collocates)."""
    res = defaultdict(list)
    for items, fid in zip(files, fids):
        for seg in segments(items):
            n = len(seg)
            for i in range(n):
                t, lid = seg[i]
                ty = fmt(t, type_fmt)
                if ty not in queries:
                    continue
                left = [fmt(seg[j][0], col_fmt) for j in range(max(0, i - lspan), i)]
                right = [fmt(seg[j][0], col_fmt) for j in range(i + 1, min(n, i + rspan + 1))]
                if cols is not None:
                    left = [x for x in left if x in cols]
                    right = [x for x in right if x in cols]
                res[ty].append(('%s/%s/%d' % (fmt(t, tok_fmt), fid, lid), left, right))
    return dict(res)


def position_matrix(toks):
    """token id -> {collocate: set of admissible signed positions}.

    When a context word occurs more than once around a token the matrix has one
    cell for it; any of its positions is admissible.
    """
    res = {}
    for lst in toks.values():
        for tid, left, right in lst:
            row = res.setdefault(tid, {})
            for k, c in enumerate(reversed(left)):
                row.setdefault(c, set()).add(-(k + 1))
            for k, c in enumerate(right):
                row.setdefault(c, set()).add(k + 1)
    return res
