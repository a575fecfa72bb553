#!/usr/bin/env python3
"""Regenerates the two generated tables of DESIGN.md from tools/design_rows.json-like python data and seeded/*/meta.json."""
import json, os, re, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R)
from tools.design_rows import ROWS
T = {json.loads(l)['id']: json.loads(l)['title'] for l in open(R + '/properties.jsonl')}
import checks
rows = []
for i in sorted(T):
    if i in ROWS and i in checks.REGISTRY:
        rows.append('| %s | %s | %s | %s | %s | %s |' % ((i, T[i]) + ROWS[i]))
    else:
        rows.append('| %s | %s | not claimed: %s | | | |' % (i, T[i], checks.NA.get(i, 'no check has been built')))
seeds = ['| seed | property | what it breaks | caught by |', '|---|---|---|---|']
for d in sorted(os.listdir(R + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (R, d)))
    seeds.append('| %s | %s | %s | %s |' % (d, m['property'], m['what_it_breaks'].replace('|', '/'), m.get('caught_by', m['property'])))
p = R + '/DESIGN.md'
s = open(p).read()
def put(s, tag, body):
    b, e = '<!-- %s -->' % tag, '<!-- /%s -->' % tag
    body = b + '\n' + body + '\n' + e
    if '@@%s@@' % tag in s:
        return s.replace('@@%s@@' % tag, body)
    return s[:s.index(b)] + body + s[s.index(e) + len(e):]
hdr = '| id | property | deciding analysis | oracle | bounds / residual assumptions | cost |\n|----|----|----|----|----|----|\n'
s = s.replace(hdr + '@@TABLE@@', '@@TABLE@@')
s = put(s, 'TABLE', hdr + '\n'.join(rows))
s = put(s, 'SEEDS', '\n'.join(seeds))
open(p, 'w').write(s)
