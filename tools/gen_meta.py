#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props_meta.py."""
import json
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props_meta import PROPS, NOT_APPLICABLE, NOTES, HOOKS

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LEVEL_NOTE = ('Random sampling of real executions judged by an independent oracle: no violation means none '
              'on the executions observed (counts in the evidence file). Trusts the reference model in vf/, '
              'CPython, and the assumptions listed in the evidence file.')
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        files = p['files']
        d = {'id': p['id'], 'title': p['title'], 'statement': p['statement'],
             'quantifier': {'over': p['over'], 'text': p['text']},
             'why_tests_cant': p['why'],
             'anchors': {'files': files,
                         'mechanism': [{'name': n, 'where': w} for n, w in p['mech']],
                         'hook_needed': None}}
        assert len(d['title']) <= 80, p['id']
        f.write(json.dumps(d) + '\n')
na = {n['property'] for n in NOT_APPLICABLE}
m = {'version': 1,
     'setup_cmd': '/opt/venv/bin/python tools/setup.py',
     'hooks': HOOKS,
     'checks': [{'property': p['id'],
                 'quick_cmd': f'/opt/venv/bin/python run.py {p["id"]} --quick',
                 'thorough_cmd': f'/opt/venv/bin/python run.py {p["id"]} --thorough',
                 'technique': 'runtime monitoring: ' + p['tech'],
                 'level': 'exploration',
                 'level_note': LEVEL_NOTE + (' ' + p['note'] if 'note' in p else '')}
                for p in PROPS if p['id'] not in na],
     'not_applicable': NOT_APPLICABLE, 'notes': NOTES}
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(PROPS), 'properties')
