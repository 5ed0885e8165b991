#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from meta/props.py (the single source of both)."""
import json, os, sys
sys.dont_write_bytecode = True
H = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, H)
from props import PROPS
R = os.path.dirname(H)
with open(os.path.join(R, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        q = {k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}
        assert len(q['title']) <= 80, q['title']
        f.write(json.dumps(q) + '\n')
m = {'version': 1, 'setup_cmd': 'python3 check.py --setup', 'checks': [], 'not_applicable': [],
     'hooks': {'guard': 'WLA_STRICT_C90 (CMake option)', 'enable': 'nothing to enable: the checks read the sources; the option only selects -ansi again', 'source_commits': ['0d2f7db']}}
for p in PROPS:
    if p.get('na'):
        m['not_applicable'].append({'property': p['id'], 'reason': p['na']})
    else:
        m['checks'].append({'property': p['id'], 'quick_cmd': 'python3 check.py %s' % p['id'], 'thorough_cmd': 'VERIF_TIER=thorough python3 check.py %s' % p['id'],
                            'technique': p['technique'], 'level': 'other', 'level_note': p['note']})
json.dump(m, open(os.path.join(R, 'MANIFEST.json'), 'w'), indent=1)
print(len(m['checks']), 'claimed', len(m['not_applicable']), 'not applicable')
