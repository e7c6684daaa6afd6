#!/usr/bin/env python3
"""Fills the table of planted bugs in DESIGN.md."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| Planted bug | Property | Needs | Breaks |', '|---|---|---|---|']
for f in sorted(glob.glob(V + '/seeded/*/meta.json'), key=lambda f: (json.load(open(f))['property'], f)):
    m = json.load(open(f))
    rows.append('| %s | %s | %s | %s |' % (f.split('/')[-2], m['property'], m['needs'], m['what_it_breaks']))
p = V + '/DESIGN.md'
t = open(p).read()
t = re.sub(r'<!-- seeded -->.*<!-- /seeded -->', lambda _: '<!-- seeded -->\n' + '\n'.join(rows) + '\n<!-- /seeded -->', t, flags=re.S)
open(p, 'w').write(t)
