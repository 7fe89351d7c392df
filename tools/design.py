"""Regenerate the generated tables of DESIGN.md (between <!-- x --> markers)."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def findings():
    rows = []
    for l in open(f'{V}/known_findings.jsonl'):
        l = l.strip()
        if l.startswith('fixed:'):
            m = re.match(r'fixed: property=(\S+) (\S+) (.*)', l)
            rows.append((m.group(1), '`%s`' % m.group(2), m.group(3)))
        elif l and not l.startswith('#'):
            d = json.loads(l)
            rows.append((d['property'], '**known finding** (not repaired)', d.get('what', '') + ' (signature `%s`)' % d['signature']))
    rows.sort(key=lambda r: r[0])
    return '| property | repair | what failed |\n|---|---|---|\n' + '\n'.join('| %s | %s | %s |' % tuple(x.replace('|', '\\|') for x in r) for r in rows)
def seeded():
    first = json.load(open(f'{V}/tools/seeded_first.json'))
    out = ['| bug | property | needs | what it breaks | first | now |', '|---|---|---|---|---|---|']
    for s in sorted(os.listdir(f'{V}/seeded')):
        m = json.load(open(f'{V}/seeded/{s}/meta.json'))
        f = first.get(s, ['?', '?'])
        out.append('| %s | %s | %s | %s | %s | %s |' % tuple(x.replace('|', '\\|').replace('\n', ' ') for x in (s, m['property'], m['needs'], m['what_it_breaks'], f[0], f[1])))
    return '\n'.join(out)
p = f'{V}/DESIGN.md'
t = open(p).read()
for k, fn in (('findings', findings), ('seeded', seeded)):
    t = re.sub(r'(<!-- %s -->\n).*?(<!-- /%s -->)' % (k, k), lambda m: m.group(1) + fn() + '\n' + m.group(2), t, flags=re.S)
open(p, 'w').write(t)
