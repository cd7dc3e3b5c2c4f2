#!/usr/bin/env python3
"""check.py <property> <quick|thorough>

Decides one property of /repo's current working tree.  Order of work:
  1. native   - the contracts of the property executed on the real crate over a bounded input set
                (stand-in for what no verifier reaches; also the counterexample search / replay)
  2. verus    - functions extracted from the current source, with contracts, discharged by Verus/Z3
  3. kani     - contracts on the compiled crate, discharged by Kani/CBMC
Exit 0: held.  Exit 1: a line "VIOLATION property=<id> replay=<path> [no-failing-input-found]".
A tool limit (lost anchor, unsupported construct, resource limit) is never an alarm: the part is
reported as not decided by proof in the evidence and the bounded part stands in for it.
"""
import importlib
import json
import os
import sys
import time

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, 'lib'))
import backends  # noqa: E402
from registry import PROPS  # noqa: E402


def main():
    prop, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick'))
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    spec = PROPS[prop]
    known = [k for k in json.load(open(os.path.join(ROOT, 'known-findings.json')))['findings'] if k['property'] == prop]
    parts = []          # result dicts of each back end
    if spec.get('native'):
        parts.append(backends.native(prop, tier, seed))
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(4) as ex:
        parts += list(ex.map(lambda mod: backends.verus(prop, importlib.import_module(mod), tier), spec.get('verus', [])))
    for mod in spec.get('vcgen', []):
        parts.append(backends.vcgen(prop, importlib.import_module(mod), tier))
    if spec.get('kani'):
        parts.append(backends.kani(prop, spec['kani'], tier))

    violations, known_hit = [], []
    for p in parts:
        for v in p.get('violations', []):
            hit = next((k for k in known if k['key'] == v['key']), None)
            if hit:
                if hit not in known_hit:
                    known_hit.append(hit)
            else:
                violations.append(v)
    failed = [f for p in parts for f in p.get('failed', [])]
    if failed and not violations:
        # a proof obligation fails: look harder for a concrete failing input on the real code
        extra = backends.native(prop, 'search', seed) if spec.get('native') else None
        if extra:
            parts.append(extra)
            violations += [v for v in extra['violations'] if not any(k['key'] == v['key'] for k in known)]

    rc = 0
    rdir = os.path.join(ROOT, '.build', 'replay')
    os.makedirs(rdir, exist_ok=True)
    if violations or failed:
        rc = 1
        path = os.path.join(rdir, '%s.json' % prop)
        json.dump({'property': prop, 'tier': tier, 'violations': violations[:20], 'failed_obligations': failed,
                   'rerun': 'python3 %s/check.py %s %s' % (ROOT, prop, tier)}, open(path, 'w'), indent=1)
        for v in violations[:5]:
            print('  failing input: %s: %s' % (v['key'], v['message'][:600]))
        for f in failed[:10]:
            print('  failed obligation [%s]: %s' % (f['backend'], f['obligation'][:400]))
        concrete = bool(violations) or any(f.get('replayed') for f in failed)
        print('VIOLATION property=%s replay=%s%s' % (prop, path, '' if concrete else ' no-failing-input-found'))
    for k in known_hit:
        print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))

    ob = sum(p.get('obligations', 0) for p in parts)
    dis = sum(p.get('discharged', 0) for p in parts)
    cov = {
        'obligations': ob, 'discharged': dis,
        'checker_cmd': '; '.join(p['cmd'] for p in parts if p.get('cmd') and p['backend'] != 'native') or 'none',
        'trusted_base': sorted({a for p in parts for a in p.get('trusted', [])}),
        'functions_under_contract': sorted({f for p in parts for f in p.get('functions', [])}),
        'back_ends': [{k: p.get(k) for k in ('backend', 'name', 'status', 'obligations', 'discharged', 'solver_s', 'wall_s', 'canary', 'note', 'detail', 'extraction_rewrites') if p.get(k) is not None} for p in parts],
    }
    for p in parts:
        if p['backend'] == 'native':
            cov['bounded_stand_in'] = {'evaluations': p.get('cases', 0), 'distinct_nontrivial': p.get('distinct', 0), 'bound': p.get('bound', ''), 'samples': p.get('samples', [])[:5]}
            cov['evaluations'] = p.get('cases', 0)
            cov['distinct_nontrivial'] = p.get('distinct', 0)
            cov['rule'] = p.get('bound', '')
            cov['samples'] = p.get('samples', [])[:5]
            break
    level = spec['level']
    undecided = [p['name'] for p in parts if p.get('status') == 'tool-limit']
    if level == 'proof' and (undecided or ob == 0):
        level = 'other'
        cov['explanation'] = 'proof part not generated on this tree (%s); only the bounded stand-in ran' % ', '.join(undecided)
    cov.setdefault('explanation', spec.get('explanation', ''))
    ev = {
        'property': prop, 'tier': tier if tier in ('quick', 'thorough') else 'quick', 'seed': seed, 'level': level, 'coverage': cov,
        'assumptions': sorted({a for p in parts for a in p.get('assumptions', [])} | set(spec.get('assumptions', []))),
        'wall_s': round(time.time() - t0, 2), 'violations': len(violations) + len(failed),
    }
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w'), indent=1)
    print('%s %s: %s; obligations %d discharged %d; stand-in cases %d; undecided-by-proof %s; %.1fs' % (
        prop, tier, 'VIOLATED' if rc else 'held', ob, dis, cov.get('evaluations', 0), undecided or 'none', time.time() - t0))
    return rc


if __name__ == '__main__':
    sys.exit(main())
