#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables in props.py (run by hand after editing them)."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import CLAIMED, NOT_APPLICABLE, TECHNIQUE, NOTE  # noqa

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in CLAIMED + [q for q, _ in NOT_APPLICABLE]:
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': ' '.join(p['statement'].split()),
            'quantifier': {'over': p['over'], 'text': p['quant']},
            'why_tests_cant': p['why'],
            'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]},
        }) + '\n')
m = {
    'version': 1,
    'setup_cmd': 'python3-vt -c "import sa.check, sa.registry"',
    'checks': [{
        'property': p['id'],
        'quick_cmd': 'python3-vt -m sa.check %s quick' % p['id'],
        'thorough_cmd': 'python3-vt -m sa.check %s thorough' % p['id'],
        'technique': p.get('technique', TECHNIQUE),
        'level': 'other',
        'level_note': p.get('note', NOTE),
    } for p in CLAIMED],
    'not_applicable': [{'property': p['id'], 'reason': why} for p, why in NOT_APPLICABLE],
    'notes': 'Static analysis only: nothing in /repo is imported or executed. No hooks are needed in /repo. See DESIGN.md.',
}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(CLAIMED), 'claimed,', len(NOT_APPLICABLE), 'not applicable')
