#!/usr/bin/env python3
"""DESIGN.md = tools/design_head.md + one section per property"""
import json, os, importlib, sys, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
man = json.load(open(V + '/MANIFEST.json')); chk = {c['property']: c for c in man['checks']}; na = {c['property']: c['reason'] for c in man['not_applicable']}
seeds = {}
for f in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(f)); seeds.setdefault(m['property'], []).append((os.path.basename(os.path.dirname(f)), m))
kf = [l.strip() for l in open(V + '/KNOWN_FINDINGS.txt') if l.strip()]
o = [open(V + '/tools/design_head.md').read(), '## 4. Properties\n']
for p in props:
    i = p['id']; o.append('### %s — %s\n' % (i, p['title'])); o.append(p['statement'] + '\n')
    if i in na: o.append('*Not applicable:* ' + na[i] + '\n'); continue
    o.append('*Quantified over:* %s. *Why tests cannot settle it:* %s.\n' % (p['quantifier']['text'], p['why_tests_cant']))
    ev = V + '/evidence/%s.json' % i
    if os.path.exists(ev):
        e = json.load(open(ev)); c = e['coverage']
        fs = ['`%s`%s' % (f['function'], '' if f['status'] == 'proved' else ' (%s)' % f['status']) for f in c.get('functions', [])]
        o.append('*Proved function by function* (%d functions, %d obligations): %s.\n' % (c.get('functions_under_contract', len(fs)), c['obligations'], ', '.join(fs)))
    try:
        m = importlib.import_module('props.' + i.lower())
        o.append('*Oracle:* the contracts in `props/%s.py`; harness `harness/%s`, which compares the compiled code with an independent reference model on random histories.\n' % (i.lower(), m.HARNESS.src if getattr(m, 'HARNESS', None) else '-'))
        if m.ASSUME: o.append('*Assumed:* ' + '; '.join(m.ASSUME) + '.\n')
        if getattr(m, 'BOUNDED', None): o.append('*Bounded only:* ' + '; '.join(map(str, m.BOUNDED)) + '.\n')
    except Exception as ex: o.append('(%s)\n' % ex)
    if chk[i]['level_note']: o.append('*Limits:* ' + chk[i]['level_note'] + '\n')
    for l in kf:
        if 'property=%s ' % i in l: o.append('* ' + l)
    o.append('')
o.append('## 5. Planted changes\n\nAll are valid (they build, pass the stable tests, and their demonstration separates the two trees) and are caught by the check of their property.\n')
o.append('| change | property | needs | breaks |\n|---|---|---|---|')
for k in sorted(seeds):
    for s, m in seeds[k]: o.append('| %s | %s | %s | %s |' % (s, k, m['needs'].replace('|', '/'), m['what_it_breaks'].replace('|', '/')))
open(V + '/DESIGN.md', 'w').write('\n'.join(o) + '\n')
