#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json
import pathlib

V = pathlib.Path(__file__).resolve().parent.parent
doc = V/'DESIGN.md'
lines = doc.read_text().splitlines()
i = lines.index('| planted bug | needs | caught by |') + 2
j = i
old = {}
while j < len(lines) and lines[j].startswith('| c'):
    c = [x.strip() for x in lines[j].strip('|').split('|')]
    old[c[0]] = (c[1], c[2])
    j += 1
rows = []
for d in sorted((V/'seeded').iterdir()):
    m = json.loads((d/'meta.json').read_text())
    needs, by = old.get(d.name, (m['needs'].replace('|', '/'), m['property']))
    rows.append(f'| {d.name} | {needs} | {by} |')
lines[i:j] = rows
doc.write_text('\n'.join(lines) + '\n')
