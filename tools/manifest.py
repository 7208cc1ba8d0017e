"""Regenerate /verif/MANIFEST.json:  python3 tools/manifest.py"""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from jobs import META
props = [json.loads(l) for l in open(f'{H}/properties.jsonl')]
checks = []
for p in props:
    i = p['id']
    if i not in META: continue
    checks.append({'property': i, 'quick_cmd': f'python3 check.py {i} --tier quick', 'thorough_cmd': f'python3 check.py {i} --tier thorough',
      'technique': META[i].get('technique', 'online oracle monitors on seeded workloads, run under AddressSanitizer and UndefinedBehaviorSanitizer'),
      'level': 'exploration',
      'level_note': META[i].get('note', 'Holds on every execution observed (counts and classes in the evidence file); assumes the independent oracle of the harness and the compiler sanitizers are right, and says nothing about inputs the generators cannot produce.')})
m = {'version': 1, 'setup_cmd': 'python3 check.py --selftest', 
     'checks': checks, 'not_applicable': [{'property': p['id'], 'reason': 'check under construction'} for p in props if p['id'] not in META],
     'notes': 'No hooks were needed in /repo: every monitor attaches at public interfaces. Fixes of genuine defects are listed in known_findings.json.'}
json.dump(m, open(f'{H}/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(m['not_applicable']), 'n/a')
