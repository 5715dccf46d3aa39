#!/usr/bin/env python3
"""Rewrites the table of seeded changes at the end of DESIGN.md from seeded/*/meta.json and tools/missed.json."""
import json, glob, os
os.chdir(os.path.join(os.path.dirname(__file__), '..'))
first = json.load(open('tools/missed.json'))
rows = []
for p in sorted(glob.glob('seeded/*/meta.json')):
    m = json.load(open(p)); i = p.split('/')[1]
    rows.append((m['property'], i, m['what_it_breaks'].replace('|', '\\|'), first.get(i, 'caught as first planted')))
rows.sort()
s = open('DESIGN.md').read()
mark = '<!-- seeded table -->\n'
s = s.split(mark)[0] + mark + '| caught by | change | what it breaks | history |\n|---|---|---|---|\n' + ''.join(
    f'| {a} | {b} | {c} | {d} |\n' for a, b, c, d in rows)
open('DESIGN.md', 'w').write(s)
