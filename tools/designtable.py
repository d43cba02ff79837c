#!/usr/bin/env python3
"""Rewrites the table of planted changes in DESIGN.md (section 5) from
seeded/*/meta.json and tools/detected.txt (written by detect.py)."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = {}
for l in open(V + '/tools/detected.txt'):
    w = l.split()
    if len(w) >= 2:
        res[w[0]] = ' '.join(w[1:])
rows = ['| change | property | what it needs to manifest | caught by |', '| --- | --- | --- | --- |']
for i in sorted(os.listdir(V + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (V, i)))
    rows.append('| %s | %s | %s | %s |' % (i, m['property'], m['needs'], res.get(i, 'not run')))
s = open(V + '/DESIGN.md').read()
s = re.sub(r'<!-- table -->.*<!-- end -->', lambda _: '<!-- table -->\n' + '\n'.join(rows) + '\n<!-- end -->', s, flags=re.S)
open(V + '/DESIGN.md', 'w').write(s)
