"""Writes the table of planted bugs into DESIGN.md (after the line '## Planted bugs' up to the end marker)."""
import glob
import json
import os
import re

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
also = json.load(open(V + '/tools/also.json')) if os.path.exists(V + '/tools/also.json') else {}
rows = ['| id | needs | caught by |', '|---|---|---|']
for f in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(f))
    i = f.split('/')[-2]
    rows.append('| %s | %s | %s |' % (i, m['needs'].replace('|', '\\|'), also.get(i, m['property'])))
t = open(V + '/DESIGN.md').read()
a, b = '<!-- table -->', '<!-- end of table -->'
if a not in t:
    t = t.replace('SEEDTABLE', a + '\n' + b)
i, j = t.index(a) + len(a), t.index(b)
t = t[:i] + '\n' + '\n'.join(rows) + '\n' + t[j:]
open(V + '/DESIGN.md', 'w').write(t)
