#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md."""
import json, os, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| bug | caught by | needs |', '|-|-|-|']
for d in sorted(os.listdir(os.path.join(R, 'seeded'))):
    m = json.load(open(os.path.join(R, 'seeded', d, 'meta.json')))
    rows.append('| %s | %s | %s |' % (d, m['property'], m['needs'].replace('|', '/')))
p = os.path.join(R, 'DESIGN.md')
t = open(p).read()
t = re.sub(r'<!-- bugs -->.*?<!-- /bugs -->', lambda _: '<!-- bugs -->\n' + '\n'.join(rows) + '\n<!-- /bugs -->', t, flags=re.S)
open(p, 'w').write(t)
