#!/usr/bin/env python3
"""Regenerates the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = set(open(os.path.join(V, 'tools', 'first_missed.txt')).read().split())
rows = []
for d in sorted(os.listdir(os.path.join(V, 'seeded'))):
    m = json.load(open(os.path.join(V, 'seeded', d, 'meta.json')))
    rows.append('| `%s` | %s | %s | %s |' % (d, m['needs'], m['property'], 'yes' if d in MISSED else ''))
p = os.path.join(V, 'DESIGN.md')
t = open(p).read()
h = '| change | needs | caught by | first missed? |\n|---|---|---|---|\n'
t = re.sub(re.escape(h) + r'(\|.*\n)*', lambda _: h + '\n'.join(rows) + '\n', t)
open(p, 'w').write(t)
