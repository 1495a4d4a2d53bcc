#!/usr/bin/env python3
import json, os, sys
H = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(H)
sys.path.insert(0, H)
from props import P
ORDER = ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')
with open(V + '/properties.jsonl', 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps({k: p[k] for k in ORDER}) + '\n')
NOTE = ('Every listed function is executed symbolically from the LLVM IR of the current source and each named obligation is discharged by z3/cvc5 for all inputs and iterations. '
        'Assumes: doubles as reals, machine integers as mathematical, std:: containers by contract, the documented invariants of the mesh/model world. ')
m = dict(version=1, setup_cmd='bash /verif/setup.sh', checks=[], not_applicable=[])
for p in P:
    if p['na']:
        m['not_applicable'].append(dict(property=p['id'], reason=p['na']))
        continue
    m['checks'].append(dict(property=p['id'], quick_cmd='python3-vt /verif/check.py %s --tier quick' % p['id'], thorough_cmd='python3-vt /verif/check.py %s --tier thorough' % p['id'],
                            technique=p['technique'] or 'contract-based deductive verification of the compiled source (LLVM IR), SMT-discharged obligations',
                            level='proof', level_note=NOTE + (p['note'] or '')))
m['notes'] = 'properties.jsonl and this file are generated by meta/gen.py from meta/props.py'
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)

# DESIGN.md from its template: lists of fixes, planted bugs and unclaimed properties
import glob
t = open(H + '/DESIGN.tmpl').read()
k = json.load(open(V + '/known_findings.json'))
fx = ['| %s | %s | %s |' % (x['line'].split()[2], x['property'], ' '.join(x['line'].split()[3:])) for x in k if x['status'] == 'fixed']
fx += ['| (not repaired) | %s | %s |' % (x['property'], x['line']) for x in k if x['status'] != 'fixed']
try:
    res = json.load(open(H + '/seed_results.json'))
except OSError:
    res = {}
sd = []
for d in sorted(glob.glob(V + '/seeded/*/meta.json')):
    i, m = os.path.basename(os.path.dirname(d)), json.load(open(d))
    r = res.get(i, {})
    sd.append('| %s | %s | %s | %s |' % (i, m['needs'], m['property'] if r.get('caught') else 'not caught' if r else '?', 'yes' if r.get('input') else 'no'))
na = ['* **%s** %s: %s' % (p['id'], p['title'], p['na']) for p in P if p['na']] or ['Every property in `properties.jsonl` has a check.']
open(V + '/DESIGN.md', 'w').write(t.replace('@@FIXES@@', '\n'.join(fx)).replace('@@SEEDS@@', '\n'.join(sd)).replace('@@NA@@', '\n'.join(na)).replace('@@MORE@@\n', ''))
