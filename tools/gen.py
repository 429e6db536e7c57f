#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py (the single place where properties are stated)."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from props import PROPS  # noqa

V = os.path.dirname(HERE)
with open(os.path.join(V, 'properties.jsonl'), 'w') as fh:
    for p in PROPS:
        assert len(p['title']) <= 80, p['id']
        fh.write(json.dumps({k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}) + '\n')
m = {'version': 1,
     'setup_cmd': 'python3 -B -m compileall -q sa run.py >/dev/null 2>&1; mkdir -p evidence/replays; exit 0',
     'checks': [], 'not_applicable': [],
     'notes': 'All checks are one abstract interpreter over the source of /repo/copulae (.py and .pyx) with one rule per '
              'property; nothing of /repo is imported or run. No hooks.'}
for p in PROPS:
    if p.get('na'):
        m['not_applicable'].append({'property': p['id'], 'reason': p['na']})
    else:
        m['checks'].append({'property': p['id'], 'quick_cmd': 'python3 run.py %s --tier quick' % p['id'],
                            'thorough_cmd': 'python3 run.py %s --tier thorough' % p['id'],
                            'evidence_file': 'evidence/%s.json' % p['id'], 'technique': p['technique'], 'level': 'other',
                            'level_note': p['level_note']})
with open(os.path.join(V, 'MANIFEST.json'), 'w') as fh:
    json.dump(m, fh, indent=1)
    fh.write('\n')
