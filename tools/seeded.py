#!/usr/bin/env python3
"""Rewrite the table of planted bugs in DESIGN.md (development aid; tools/catches.json is written by the planting script)."""
import json, glob, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
cat = json.load(open(here + '/tools/catches.json'))
out = ['| planted bug | breaks | needs | caught by family |', '|---|---|---|---|']
for f in sorted(glob.glob(here + '/seeded/*/meta.json')):
    i = f.split('/')[-2]
    d = json.load(open(f))
    c = cat.get(i)
    out.append('| %s | %s | %s | %s |' % (i, d['what_it_breaks'], d['needs'], ', '.join(c) if c else ('**missed**' if c == [] else '?')))
p = here + '/DESIGN.md'
s = open(p).read()
a, b = '<!-- seeded -->', '<!-- /seeded -->'
i, j = s.index(a) + len(a), s.index(b)
open(p, 'w').write(s[:i] + '\n' + '\n'.join(out) + '\n' + s[j:])
