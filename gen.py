#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from specs/props.py"""
import json
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(HERE, 'specs'))
from props import PROPS, NA
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for i in sorted(PROPS):
        p = PROPS[i]
        f.write(json.dumps({'id': i, 'title': p['title'], 'statement': p['statement'],
                            'quantifier': {'over': p['over'], 'text': p['qtext']}, 'why_tests_cant': p['why'],
                            'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']],
                                        'state': [{'name': p['state'], 'meaning': p['state'], 'where': p['files'][0]}], 'observe_at': [p['observe']],
                                        'hook_needed': None}}) + '\n')
    for n in NA:
        f.write(json.dumps(n['record']) + '\n')
M = {'version': 1, 'setup_cmd': 'python3 setup.py', 'checks': [], 'not_applicable':
     [{'property': n['record']['id'], 'reason': n['reason']} for n in NA],
     'notes': 'All checks are static: they compile drivers in /verif/drivers against /repo/include to LLVM IR (or type-check them) in a temporary directory and never run the result.'}
for i in sorted(PROPS):
    p = PROPS[i]
    M['checks'].append({'property': i, 'quick_cmd': f'python3 check.py {i}', 'thorough_cmd': f'python3 check.py {i} --tier thorough',
                        'technique': 'static analysis: ' + p['technique'], 'level': 'other', 'level_note': p['level_note']})
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(M, f, indent=1)
    f.write('\n')
