#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| bug | property | needs | breaks |', '|---|---|---|---|']
for d in sorted(os.listdir(H + '/seeded')):
    m = json.load(open(H + '/seeded/%s/meta.json' % d))
    rows.append('| %s | %s | %s | %s |' % (d, m['property'], m['needs'].replace('|', '\\|'), m['what_it_breaks'].replace('|', '\\|')))
s = open(H + '/DESIGN.md').read()
s = re.sub(r'<!-- seeded -->.*?<!-- end -->', lambda _: '<!-- seeded -->\n' + '\n'.join(rows) + '\n<!-- end -->', s, flags=re.S)
open(H + '/DESIGN.md', 'w').write(s)
