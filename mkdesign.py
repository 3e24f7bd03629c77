#!/usr/bin/env python3
"""writes DESIGN.md: hand-written parts (design_head.md, design_tail.md) around one section per property and the table of planted bugs"""
import glob, json, os, re
from catalogue import PROPS
H = os.path.dirname(os.path.abspath(__file__))
BOUND = json.load(open(os.path.join(H, 'design_bounds.json')))
out = [open(os.path.join(H, 'design_head.md')).read()]
out.append('## Properties\n')
for p in PROPS:
    if p.get('na'):
        continue
    src = open(os.path.join(H, 'checks', p['id'].lower() + '.py')).read()
    ex = re.search(r'EXPLAIN = """(.*?)"""', src, re.S).group(1).replace('\n', ' ').strip()
    b = BOUND.get(p['id'], ['', '', ''])
    out.append('### %s %s\n\n- **Decided by:** %s.\n- **What is analysed, against what:** %s\n- **Oracle:** %s\n- **Bounds:** %s\n- **Cost:** %s (8 cores)\n- **Beyond the tests:** %s\n'
               % (p['id'], p['title'], p['tech'], ex, b[0], b[1], b[2], p['why']))
out.append('## Not applicable\n')
for p in PROPS:
    if p.get('na'):
        out.append('- **%s %s**: %s' % (p['id'], p['title'], p['na']))
out.append('')
out.append('## Planted bugs and what catches them\n\nEvery one builds, passes the 108 tests, and is reported by the check of its property (`/verif/seeded/<id>`).\n\n| bug | property | what it breaks | needs |\n|---|---|---|---|')
for d in sorted(glob.glob(os.path.join(H, 'seeded', '*', 'meta.json'))):
    m = json.load(open(d))
    out.append('| %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(d)), m['property'], m['what_it_breaks'].replace('|', '\\|').replace('\n', ' '), m['needs'].replace('|', '\\|').replace('\n', ' ')))
out.append('')
out.append(open(os.path.join(H, 'design_tail.md')).read())
open(os.path.join(H, 'DESIGN.md'), 'w').write('\n'.join(out))
