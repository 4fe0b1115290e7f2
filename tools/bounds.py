#!/usr/bin/env python3
"""Rewrite the generated bounds section of DESIGN.md from evidence/*.json (development aid)."""
import json, glob, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = []
for f in sorted(glob.glob(here + '/evidence/C*.json')):
    d = json.load(open(f))
    if d['tier'] != 'quick':
        continue
    out.append('### %s (%d executions, %d comparisons, %.0f s)\n' % (d['property'], d['coverage']['traces_validated_against_impl'], d['coverage']['transitions'], d['wall_s']))
    for x in d['coverage']['families']:
        out.append('* **%s** - %s (%d)' % (x['name'], x['bound'], x['traces']))
    out.append('')
p = here + '/DESIGN.md'
s = open(p).read()
a, b = '<!-- bounds -->', '<!-- /bounds -->'
i, j = s.index(a) + len(a), s.index(b)
open(p, 'w').write(s[:i] + '\n' + '\n'.join(out) + '\n' + s[j:])
