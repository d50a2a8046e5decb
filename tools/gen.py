#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from props.py; a property without a check is listed as not applicable with the reason."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
sys.dont_write_bytecode = True
from props import PROPS, NA
with open(os.path.join(V, 'properties.jsonl'), 'w') as out:
    for p in PROPS + NA:
        if len(p["title"]) > 80: print("TOO LONG", p["id"], len(p["title"]))
        out.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                              'quantifier': {'over': p['over'], 'text': p['qtext']}, 'why_tests_cant': p['why'],
                              'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']]}}) + '\n')
checks, na = [], []
for p in PROPS:
    if os.path.exists(os.path.join(V, 'checks', p['id'].lower() + '.py')):
        c = {'property': p['id'], 'quick_cmd': './check %s' % p['id'], 'thorough_cmd': './check %s thorough' % p['id'], 'technique': 'static analysis: ' + p['technique'],
             'level': 'other', 'level_note': p['note'] or 'Static decision over every construct of the current source; no execution.'}
        checks.append(c)
    else:
        na.append({'property': p['id'], 'reason': 'no check has been built for it yet'})
for p in NA:
    na.append({'property': p['id'], 'reason': p['reason']})
json.dump({'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na}, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
