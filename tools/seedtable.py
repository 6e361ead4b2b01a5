#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob
import json
import os
import re

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| bug | caught by | needs | breaks |', '|---|---|---|---|']
for f in sorted(glob.glob(V + '/seeded/*/meta.json'), key=lambda f: (json.load(open(f))['property'], f)):
    m = json.load(open(f))
    rows.append(f'| {os.path.basename(os.path.dirname(f))} | {m["property"]} | {m["needs"]} | {m["what_it_breaks"]} |')
p = V + '/DESIGN.md'
s = open(p).read()
t = '<!-- seeded -->\n' + '\n'.join(rows) + '\n<!-- /seeded -->'
s = re.sub(r'<!-- seeded -->.*<!-- /seeded -->', lambda _: t, s, flags=re.S) if '<!-- seeded -->' in s else s.replace('SEEDTABLE', t)
open(p, 'w').write(s)
