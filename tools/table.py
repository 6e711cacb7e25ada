#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in glob.glob(root + '/seeded/*/meta.json'):
    m = json.load(open(f))
    rows.append((m['property'], os.path.basename(os.path.dirname(f)), m['needs']))
t = '| bug | property | needs |\n|-----|----------|-------|\n' + ''.join(f'| {b} | {p} | {n} |\n' for p, b, n in sorted(rows))
d = open(root + '/DESIGN.md').read()
d = re.sub(r'\| bug \| property \| needs \|\n(\|.*\n)*', lambda _: t, d)
open(root + '/DESIGN.md', 'w').write(d)
