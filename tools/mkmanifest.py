"""regenerate MANIFEST.json from the checks present and tools/claims.py"""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, 'tools'))
from claims import CLAIMS, NOT
ids = [json.loads(l)['id'] for l in open(os.path.join(H, 'properties.jsonl'))]
checks = []
na = []
for i in ids:
    if i in CLAIMS:
        t, n = CLAIMS[i]
        checks.append({'property': i, 'quick_cmd': 'python3 checks/%s.py' % i, 'thorough_cmd': 'VERIF_TIER=thorough python3 checks/%s.py' % i, 'evidence_file': 'evidence/%s.json' % i,
                       'technique': t, 'level': 'other', 'level_note': n})
    else:
        na.append({'property': i, 'reason': NOT.get(i, 'check not built yet')})
m = {'version': 1, 'setup_cmd': 'python3 engine/facts.py', 'checks': checks, 'not_applicable': na}
json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
