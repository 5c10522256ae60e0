#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from props.py"""
import json, os
from props import PROPERTIES
H = os.path.dirname(os.path.abspath(__file__))
NOTE = ('Every clause of the contract is discharged for all inputs and states of the unit; trusted: the model of the system calls (env/os.c), of formatted '
        'printing and of the block functions memcpy/memcmp (env/mem.c, env/stdio.c), checksum collisions ignored where DESIGN.md says so.')
with open(H + '/properties.jsonl', 'w') as f:
    for p in PROPERTIES:
        f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['text']),
                                why_tests_cant=p['why'], anchors=dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mech']]))) + '\n')
m = dict(version=1, setup_cmd='python3 zv.py setup', checks=[], not_applicable=[], notes='See DESIGN.md.')
for p in PROPERTIES:
    if p['na']:
        m['not_applicable'].append(dict(property=p['id'], reason=p['na']))
        continue
    m['checks'].append(dict(property=p['id'], quick_cmd='python3 zv.py check %s quick' % p['id'], thorough_cmd='python3 zv.py check %s thorough' % p['id'],
                            technique='contract-based deductive verification (function contracts on the real C code, discharged by CBMC)',
                            level=p['level'], level_note=(p['note'] + ' ' if p['note'] else '') + NOTE))
json.dump(m, open(H + '/MANIFEST.json', 'w'), indent=1)
