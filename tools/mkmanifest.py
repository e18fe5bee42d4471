#!/usr/bin/python3
'''Writes MANIFEST.json from properties.jsonl and the plan.'''
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'harness'))
sys.dont_write_bytecode = True
import plan
props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
NOTE = ('TLC model-checks the TLA+ specification within the bounds named in the evidence; the implementation is bound to it by '
        'TLC trace validation of recorded calls: exhaustive small inputs plus generated ones')
checks = []
for p in props:
    if p['id'] not in plan.PLAN:
        continue
    x = plan.PLAN[p['id']]
    checks.append({'property': p['id'],
                   'quick_cmd': 'VERIF_TIER=quick /usr/bin/python3 -B harness/check.py ' + p['id'],
                   'thorough_cmd': 'VERIF_TIER=thorough /usr/bin/python3 -B harness/check.py ' + p['id'],
                   'evidence_file': 'evidence/%s.json' % p['id'],
                   'technique': x.get('technique', 'TLA+ specification: TLC model checking + TLC trace validation of the real code'),
                   'level': 'model_checking', 'level_note': x.get('note', NOTE)})
have = set(c['property'] for c in checks)
na = [{'property': p['id'], 'reason': 'not built yet'} for p in props if p['id'] not in have]
json.dump({'version': 1, 'setup_cmd': '/usr/bin/python3 -B tools/setup.py', 'checks': checks, 'not_applicable': na},
          open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
