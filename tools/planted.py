#!/usr/bin/env python3
# Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json.
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(os.listdir(root + '/seeded')):
    m = json.load(open(f'{root}/seeded/{d}/meta.json'))
    rows.append((m['property'], d, m['what_it_breaks'], m['needs']))
rows.sort()
out = ['| check that catches it | change | what it breaks | what it needs |', '|---|---|---|---|']
out += ['| %s | %s | %s | %s |' % tuple(x.replace('|', '\\|').replace('\n', ' ') for x in r) for r in rows]
p = root + '/DESIGN.md'
s = open(p).read()
t = '<!-- planted -->\n' + '\n'.join(out) + '\n<!-- end planted -->'
s = s.replace('PLANTED-TABLE', t) if 'PLANTED-TABLE' in s else re.sub(r'<!-- planted -->.*?<!-- end planted -->', lambda m: t, s, flags=re.S)
open(p, 'w').write(s)
