#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json (run by hand)."""
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in os.listdir(os.path.join(V, 'seeded')):
    m = json.load(open(os.path.join(V, 'seeded', d, 'meta.json')))
    rows.append((m['property'], d, m['needs'].replace('|', '/').replace('\n', ' ')))
p = os.path.join(V, 'DESIGN.md')
s = open(p).read()
head = '<!-- seeded table -->'
s = s.split(head)[0].rstrip() + '\n\n' + head + '\n| caught by | planted bug | what it needs |\n|---|---|---|\n'
open(p, 'w').write(s + ''.join(f'| {a} | {b} | {c} |\n' for a, b, c in sorted(rows)))
print(len(rows))
