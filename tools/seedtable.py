#!/usr/bin/env python3
"""Writes the table of planted changes into DESIGN.md."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(V, 'DESIGN.md')
s = open(p).read().split('\n## Planted changes')[0].rstrip('\n')
s += '\n\n## Planted changes\n\nMade by `tools/seed.py` from `tools/seeds/`. Every one builds, passes the stable tests, and is caught by the check of its\nproperty (quick tier, seed 1); no check reads them.\n\n| change | caught by | what it breaks |\n|---|---|---|\n'
rows = []
for f in glob.glob(os.path.join(V, 'seeded', '*', 'meta.json')):
    m = json.load(open(f))
    rows.append((m['property'], os.path.basename(os.path.dirname(f)), m['what_it_breaks']))
for q, n, w in sorted(rows):
    s += '| %s | %s | %s |\n' % (n, q, w)
open(p, 'w').write(s)
