"""Write MANIFEST.json from the registered checks (run by hand)."""
import json
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import checks  # noqa: E402
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(x) for x in open(os.path.join(ROOT, 'properties.jsonl'))]
m = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': [], 'not_applicable': []}
for p in props:
    i = p['id']
    if i not in checks.CHECKS:
        m['not_applicable'].append({'property': i, 'reason': 'specified in DESIGN.md; its check is not built yet'})
        continue
    c = checks.CHECKS[i]
    m['checks'].append({
        'property': i, 'quick_cmd': 'python3 check.py ' + i, 'thorough_cmd': 'VERIF_TIER=thorough python3 check.py ' + i,
        'evidence_file': 'evidence/%s.json' % i,
        'technique': checks.TECHNIQUE[i], 'level': c[1], 'level_note': checks.NOTE[i]})
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
