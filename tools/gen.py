#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from the table below"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, quant, why, files, mech, state=(), observe=(), note='', technique=None, level='proof', na=None, claim=True):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, state=state, observe=observe, note=note, technique=technique, level=level, na=na, claim=claim))
TECH = 'deductive verification of the real C++ functions (contracts, VC generation on the clang AST, z3/cvc5), counterexamples replayed on the compiled code'
exec(open(os.path.join(V, 'tools', 'table.py')).read())
with open(os.path.join(V, 'properties.jsonl'), 'w') as o:
    for p in P:
        o.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['quant']}, 'why_tests_cant': p['why'],
            'anchors': {'files': p['files'], 'state': [dict(name=a, meaning=b, where=c) for a, b, c in p['state']], 'mechanism': [dict(name=a, where=b) for a, b in p['mech']], 'observe_at': list(p['observe']), 'hook_needed': None}}) + '\n')
        assert len(p['title']) <= 80, p['title']
m = {'version': 1, 'setup_cmd': 'python3-vt check.py setup',
     'checks': [{'property': p['id'], 'quick_cmd': 'python3-vt check.py %s quick' % p['id'], 'thorough_cmd': 'python3-vt check.py %s thorough' % p['id'], 'evidence_file': 'evidence/%s.json' % p['id'],
                 'technique': p['technique'] or TECH, 'level': p['level'], 'level_note': p['note']} for p in P if p['claim'] and not p['na']],
     'not_applicable': [{'property': p['id'], 'reason': p['na']} for p in P if p['na']],
     'notes': 'No hooks in /repo: contracts live in side files under /verif/props and are applied to the functions as they stand in /repo/src on every run.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(P), 'properties,', len(m['checks']), 'claimed')
