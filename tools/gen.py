#!/usr/bin/python3
"""Regenerates properties.jsonl and MANIFEST.json from tools/props.py."""
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(HERE, 'tools'))
from props import PROPS, NA     # noqa: E402

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in sorted(PROPS + NA, key=lambda p: p['id']):
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['text']},
            'why_tests_cant': p['why'],
            'anchors': {'files': p['files'],
                        'mechanism': [{'name': n, 'where': w}
                                      for n, w in p['mech']]}}) + '\n')
man = {
    'version': 1,
    'setup_cmd': 'true',
    'checks': [{
        'property': p['id'],
        'quick_cmd': '/usr/bin/python3 check.py %s --tier quick' % p['id'],
        'thorough_cmd': '/usr/bin/python3 check.py %s --tier thorough' % p['id'],
        'technique': p['technique'],
        'level': 'other',
        'level_note': p['note'],
    } for p in sorted(PROPS, key=lambda p: p['id'])],
    'not_applicable': [{'property': p['id'], 'reason': p['reason']}
                       for p in sorted(NA, key=lambda p: p['id'])],
    'notes': 'All checks parse the sources under /repo on every run and '
             'import or execute none of them; see DESIGN.md.',
}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1)
    f.write('\n')
