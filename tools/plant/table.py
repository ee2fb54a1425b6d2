#!/usr/bin/env python3
"""Writes the table of planted bugs into DESIGN.md from results.json and the seeded folder."""
import json, os, re
H = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(os.path.dirname(H))
r = json.load(open(H + '/results.json'))
out = ['| bug | property | needs | caught by the quick check |', '|---|---|---|---|']
for i in sorted(os.listdir(V + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (V, i)))
    e = r.get(i, {})
    out.append('| %s | %s | %s | %s |' % (i, m['property'], m['needs'].replace('|', '/'),
               'yes' if e.get('caught') else 'NO' if 'caught' in e else '?'))
p = V + '/DESIGN.md'
s = open(p).read()
s = re.sub(r'<!-- table -->.*<!-- /table -->', lambda _: '<!-- table -->\n' + '\n'.join(out) + '\n<!-- /table -->', s, flags=re.S)
open(p, 'w').write(s)
