#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, glob, os, re
v = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| id | property | what it breaks | needs |', '|---|---|---|---|']
for m in sorted(glob.glob(v + '/seeded/*/meta.json')):
    d = json.load(open(m))
    rows.append('| %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(m)), d['property'], d['what_it_breaks'].replace('|', '/'), d['needs'].replace('|', '/')))
p = v + '/DESIGN.md'
s = open(p).read()
t = '\n'.join(rows)
if '@TABLE@' in s:
    s = s.replace('@TABLE@', t)
else:
    s = re.sub(r'\| id \| property \|.*?\n\n', lambda _: t + '\n\n', s, flags=re.S)
open(p, 'w').write(s)
