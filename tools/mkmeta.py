#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (development tool; no check runs it)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []
def prop(id, title, statement, over, text, why, files, mech, technique, note, level='proof', state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why, files=files, mech=mech, technique=technique, note=note, level=level, observe=observe))
exec(open(ROOT + '/tools/props_table.py').read())
TECH = 'contract-based deductive verification of the clang IR of the real sources (own VC generator in /verif/nbv, z3 and an exact polynomial/rational back end)'
with open(ROOT + '/properties.jsonl', 'w') as f:
    for p in P + NA:
        an = dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mech']])
        if p.get('observe'): an['observe_at'] = p['observe']
        f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=p['quantifier'], why_tests_cant=p['why_tests_cant'], anchors=an)) + '\n')
        assert len(p['title']) <= 80, p['id']
man = dict(version=1, setup_cmd='true', checks=[], not_applicable=[dict(property=p['id'], reason=p['reason']) for p in NA],
           notes='python3-vt /verif/check.py <ID> --tier quick|thorough. Every run recompiles /repo\'s current sources: once to LLVM IR for the verifier, once with g++ and sanitizers for the concrete replay harness. No hooks in /repo.')
for p in P:
    man['checks'].append(dict(property=p['id'], quick_cmd='python3-vt /verif/check.py %s --tier quick' % p['id'], thorough_cmd='python3-vt /verif/check.py %s --tier thorough' % p['id'],
                              technique=TECH + ('; ' + p['technique'] if p['technique'] else ''), level=p['level'], level_note=p['note']))
json.dump(man, open(ROOT + '/MANIFEST.json', 'w'), indent=1)
print(len(P), 'claimed', len(NA), 'not applicable')
