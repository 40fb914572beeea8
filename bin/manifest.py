"""Writes properties.jsonl and MANIFEST.json."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/bin')
from props import PROPS
from texts import TEXTS, NOT_APPLICABLE, HOOKS

with open(V + '/properties.jsonl', 'w') as f:
    for t in TEXTS:
        f.write(json.dumps(t) + '\n')
have = {t['id']: t for t in TEXTS}
checks = []
for i, p in sorted(PROPS.items()):
    assert i in have, i
    checks.append({
        'property': i,
        'quick_cmd': f'python3 bin/check.py {i}',
        'thorough_cmd': f'VERIF_TIER=thorough python3 bin/check.py {i}',
        'evidence_file': f'evidence/{i}.json',
        'technique': p.get('technique', 'contract harnesses on the real functions, discharged by Kani/CBMC'),
        'level': p['level'],
        'level_note': p['note'],
    })
na = [{'property': i, 'reason': NOT_APPLICABLE[i]} for i in have if i not in PROPS]
json.dump({
    'version': 1,
    'setup_cmd': 'bash bin/setup.sh',
    'hooks': HOOKS,
    'checks': checks,
    'not_applicable': na,
    'notes': 'Run checks from /verif; see DESIGN.md.',
}, open(V + '/MANIFEST.json', 'w'), indent=1)
