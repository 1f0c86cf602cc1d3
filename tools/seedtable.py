#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md (between the markers) from seeded/*/meta.json."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| bug | what it breaks | needs | caught by |", "|-----|----------------|-------|-----------|"]
for i in sorted(os.listdir(R + '/seeded')):
    m = json.load(open(f'{R}/seeded/{i}/meta.json'))
    rows.append(f"| {i} | {m['what_it_breaks']} | {m['needs']} | {m['property']}{m.get('note', '')} |")
p = R + '/DESIGN.md'
s = open(p).read()
a, b = '<!-- seeds -->\n', '<!-- /seeds -->'
i, j = s.index(a) + len(a), s.index(b)
open(p, 'w').write(s[:i] + '\n'.join(rows) + '\n' + s[j:])
