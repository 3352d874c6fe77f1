#!/usr/bin/env python3
"""Rewrites the table of the planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, collections
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
by = collections.defaultdict(list)
for i in sorted(os.listdir('seeded')):
    m = json.load(open(f'seeded/{i}/meta.json'))
    by[m['property']].append((i, m['needs']))
rows = '| property | planted bugs (what they need to manifest) |\n|---|---|\n'
for p in sorted(by):
    rows += f"| {p} | " + '; '.join(f"{i.split('-', 1)[1]} ({n})" for i, n in by[p]) + " |\n"
s = open('DESIGN.md').read()
a, b = s.index('<!-- rows -->'), s.index('<!-- /rows -->')
open('DESIGN.md', 'w').write(s[:a] + '<!-- rows -->\n' + rows + s[b:])
