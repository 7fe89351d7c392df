"""Writing tiny corpora and running the real handlers on them."""
import os
import shutil

from mc import env, ref

DEP_SEP = '</s>'


def base_settings(work, **over):
    nephosem = env.load()
    from nephosem.conf import ConfigLoader
    s = ConfigLoader().settings
    s['corpus-path'] = os.path.join(work, 'corpus')
    s['output-path'] = os.path.join(work, 'out')
    s['tmp-path'] = os.path.join(work, 'handlertmp')
    s.update(over)
    return s


def fresh(work):
    for d in ('corpus', 'out', 'handlertmp'):
        p = os.path.join(work, d)
        if os.path.isdir(p):
            shutil.rmtree(p)
        os.makedirs(p)


def write(work, files, names=None, sep=ref.SEP, encoding='utf-8', cols=ref.COLS, eol='\n',
          final_eol=True):
    """Write abstract files below <work>/corpus; returns the paths."""
    out = []
    for i, items in enumerate(files):
        name = names[i] if names else 'f%d.txt' % i
        p = os.path.join(work, 'corpus', name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        text = items if isinstance(items, str) else ref.render(items, sep, cols)
        if not final_eol and text.endswith('\n'):
            text = text[:-1]
        with open(p, 'wb') as f:
            f.write(text.replace('\n', eol).encode(encoding))
        out.append(p)
    return out


def clear(root):
    if os.path.isdir(root) and os.listdir(root):
        shutil.rmtree(root)
    os.makedirs(root, exist_ok=True)


def leftovers(root):
    out = []
    for d, _, fs in os.walk(root):
        for f in fs:
            out.append(os.path.relpath(os.path.join(d, f), root))
    return sorted(out)


def cells(mtx):
    """(row label, column label) -> value for every stored non-zero cell."""
    import numpy as np
    if mtx is None:
        return {}
    rows, cols = list(mtx.row_items), list(mtx.col_items)
    m = mtx.matrix
    d = {}
    if hasattr(m, 'tocoo'):
        c = m.tocoo()
        if c.shape != (len(rows), len(cols)):
            raise ValueError('shape %s but %d row and %d column labels'
                             % (c.shape, len(rows), len(cols)))
        for i, j, v in zip(c.row, c.col, c.data):
            k = (rows[i], cols[j])
            d[k] = d.get(k, 0) + v.item()
        return {k: v for k, v in d.items() if v != 0}
    m = np.asarray(m)
    if m.shape != (len(rows), len(cols)):
        raise ValueError('shape %s but %d row and %d column labels'
                         % (m.shape, len(rows), len(cols)))
    for i, r in enumerate(rows):
        for j, c in enumerate(cols):
            if m[i, j] != 0:
                d[(r, c)] = m[i, j].item()
    return d


def token_view(type2toks):
    """type -> sorted list of (id, left, right) of a retrieval result."""
    out = {}
    for k, tn in type2toks.items():
        if tn is None:
            continue
        lst = []
        for t in tn.tokens:
            lst.append((str(t), [c.to_colloc() for c in t.lcollocs],
                        [c.to_colloc() for c in t.rcollocs]))
        if lst:
            out[str(k)] = sorted(lst)
    return out


# ------------------------------------------------------- dependency corpora --
DEP = {
    'line-machine': '([^\t]+)\t([^\t])[^\t]*\t([^\t]+)\t([^\t]+)\t([^\t]+)\t([^\t]+)',
    'line-format': 'word,pos,lemma,id,head,deprel',
    'global-columns': 'word,pos,lemma,id,head,deprel',
    'node-attr': 'word,pos,lemma',
    'edge-attr': 'deprel',
    'type': 'lemma/pos', 'colloc': 'lemma/pos', 'token': 'word/pos/fid/lid',
    'separator-line-machine': DEP_SEP, 'single-boundary-machine': DEP_SEP,
}


def render_dep(sents, trailing=True):
    """sents: list of sentences; a sentence is a list of
    (lemma, pos, id, head, rel) or a string (raw line)."""
    lines = []
    for n, s in enumerate(sents):
        for t in s:
            if isinstance(t, str):
                lines.append(t)
            else:
                lemma, pos, i, h, rel = t
                lines.append('\t'.join((lemma, pos, lemma, str(i), str(h), rel)))
        if trailing or n < len(sents) - 1:
            lines.append(DEP_SEP)
    return ''.join(l + '\n' for l in lines)
