#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from the catalogue in catalogue.py"""
import json, os
from catalogue import PROPS, COMMON_NOTE
H = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(H, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
                            'anchors': {'files': p['files'], 'state': [dict(zip(('name', 'meaning', 'where'), s)) for s in p.get('state', [])],
                                        'mechanism': [dict(zip(('name', 'where'), m)) for m in p['mech']], 'observe_at': p.get('obs', []), 'hook_needed': None}}) + '\n')
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': [], 'not_applicable': []}
for p in PROPS:
    assert len(p['title']) <= 80, p['id']
    if p.get('na'):
        m['not_applicable'].append({'property': p['id'], 'reason': p['na']})
    else:
        m['checks'].append({'property': p['id'], 'quick_cmd': '%s check.py %s quick' % (p.get('py', 'python3'), p['id']), 'thorough_cmd': '%s check.py %s thorough' % (p.get('py', 'python3'), p['id']),
                            'technique': p['tech'], 'level': 'other', 'level_note': p.get('note', COMMON_NOTE)})
json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
print(len(m['checks']), 'checks', len(m['not_applicable']), 'not applicable')
