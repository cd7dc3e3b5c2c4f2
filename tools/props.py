#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json (run after editing; both outputs are committed)."""
import json
import os
import subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None, technique='', level='proof', note='', theorems=None, na=None):
    assert len(title) <= 80, title
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if state:
        a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    if observe:
        a['observe_at'] = observe
    a['hook_needed'] = hook
    P.append(({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why, 'anchors': a},
              {'technique': technique, 'level': level, 'note': note, 'theorems': theorems, 'na': na}))


exec(open(os.path.join(ROOT, 'tools', 'props_list.py')).read())
exec(open(os.path.join(ROOT, 'tools', 'proofs.py')).read())
for _p, _m in P:
    if _p['id'] in PROOF:
        t, n, th = PROOF[_p['id']]
        _m.update(technique=V + t + '.', level='proof', note=n + S, theorems=th)

with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for p, _ in P:
        f.write(json.dumps(p, ensure_ascii=False) + '\n')
log = subprocess.run(['git', '-C', '/repo', 'log', '--format=%h %s'], capture_output=True, text=True).stdout.splitlines()
hooks = [l.split()[0] for l in log if l.split(' ', 1)[1].startswith('hook')]
checks = []
for p, m in P:
    if m['na']:
        continue
    i = p['id']
    m['technique'] = m['technique'] or 'bounded execution of the contracts of the property on the real crate (stand-in)'
    m['note'] = m['note'] or 'bounded stand-in'
    c = {'property': i, 'quick_cmd': 'python3 check.py %s quick' % i, 'thorough_cmd': 'python3 check.py %s thorough' % i, 'evidence_file': 'evidence/%s.json' % i,
         'technique': m['technique'], 'level': m['level'], 'level_note': m['note']}
    if m['theorems']:
        c['theorems'] = m['theorems']
    checks.append(c)
man = {'version': 1, 'setup_cmd': 'python3 setup.py', 'hooks': {'guard': 'none: no hook was needed', 'enable': 'nothing to enable; functions are extracted from the source text', 'source_commits': hooks},
       'checks': checks, 'not_applicable': [{'property': p['id'], 'reason': m['na']} for p, m in P if m['na']]}
json.dump(man, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks')
