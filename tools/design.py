#!/usr/bin/env python3
"""DESIGN.md from tools/design.in.md, tools/proofs.py, the last evidence, known-findings.json, seeded/*/meta.json and tools/catches.json"""
import glob
import json
import os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(ROOT + '/tools/proofs.py').read(), ns)
PROOF = ns['PROOF']
import sys
sys.path.insert(0, ROOT + '/lib')
from registry import PROPS
store = ROOT + '/tools/bounds.json'
bounds = json.load(open(store)) if os.path.exists(store) else {}
props = [json.loads(l) for l in open(ROOT + '/properties.jsonl')]
for p in props:
    f = ROOT + '/evidence/%s.json' % p['id']
    if os.path.exists(f):
        e = json.load(open(f))
        c = e['coverage']
        if e['level'] == PROPS[p['id']]['level']:
            bounds[p['id']] = {'rule': c.get('rule', ''), 'ob': c['obligations'], 'fns': len(c['functions_under_contract'])}
json.dump(bounds, open(store, 'w'), indent=1, sort_keys=True)
out = ['## 2. Per property', '']
for p in props:
    i = p['id']
    b = bounds.get(i, {})
    out.append('### %s %s' % (i, p['title']))
    out.append('')
    if i in PROOF:
        t, n, th = PROOF[i]
        out.append('*Proved* (Verus; modules %s; %s functions under contract, %s obligations): %s.' % (', '.join('`%s`' % m for m in PROPS[i].get('verus', [])), b.get('fns', '?'), b.get('ob', '?'), t))
        out.append('')
        out.append(n + (' Theorems: ' + ', '.join('`%s`' % x for x in th) + '.' if th else ''))
    else:
        out.append(WHY[i] if i in (WHY := ns.get('BOUNDED', {})) else 'Bounded.')
    out.append('')
    out.append('*Bounded stand-in*: %s' % b.get('rule', '?'))
    out.append('')
k = json.load(open(ROOT + '/known-findings.json'))
find = ['* %s `%s`: %s' % (f['property'], f['key'], f['what']) for f in k['findings']]
cf = ROOT + '/tools/catches.json'
catches = json.load(open(cf)) if os.path.exists(cf) else {}
seeds = ['| planted bug | property | needs | caught |', '|---|---|---|---|']
for d in sorted(glob.glob(ROOT + '/seeded/*/meta.json')):
    m = json.load(open(d))
    n = d.split('/')[-2]
    seeds.append('| %s | %s | %s | %s |' % (n, m['property'], m['needs'].replace('|', '/'), catches.get(n, '?')))
s = open(ROOT + '/tools/design.in.md').read()
s = s.replace('PERPROP', '\n'.join(out).rstrip()).replace('FINDINGS', '\n'.join(find)).replace('SEEDS', '\n'.join(seeds))
open(ROOT + '/DESIGN.md', 'w').write(s.rstrip() + '\n')
