#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os
from checks import CHECKS

here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(line) for line in open(os.path.join(here, 'properties.jsonl')) if line.strip()]
ids = [p['id'] for p in props]
assert len(set(ids)) == len(ids), 'duplicate ids'
assert not set(CHECKS) - set(ids), set(CHECKS) - set(ids)
checks = []
for p in props:
    c = CHECKS.get(p['id'])
    if not c:
        continue
    checks.append({
        'property': p['id'],
        'quick_cmd': 'python3 check.py ' + p['id'],
        'thorough_cmd': 'VERIF_TIER=thorough python3 check.py ' + p['id'],
        'technique': c['technique'],
        'level': c.get('level', 'exploration'),
        'level_note': c.get('note', 'Held on every generated case of the run (counts and samples in the evidence file); '
                            'no claim beyond what was generated. Trusts the Go toolchain and the reference in harness/%s.' % c['pkg']),
    })
from checks import NOT_APPLICABLE
manifest = {
    'version': 1,
    'setup_cmd': 'python3 setup.py',
    'checks': checks,
    'not_applicable': [{'property': k, 'reason': v} for k, v in NOT_APPLICABLE.items()],
    'notes': 'No hooks: /repo carries only fix: commits. Tier and seed come from VERIF_TIER and VERIF_SEED. '
             'Replay a violation with: python3 check.py <ID> --replay <path>.',
}
with open(os.path.join(here, 'MANIFEST.json'), 'w') as f:
    json.dump(manifest, f, indent=1)
    f.write('\n')
