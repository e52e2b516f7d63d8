#!/usr/bin/env python3
"""Writes MANIFEST.json from lib/config.py and properties.jsonl."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'lib'))
from config import PROPS
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks = []
na = []
for p in props:
    i = p['id']
    if i not in PROPS:
        na.append({'property': i, 'reason': 'no check has been built yet'})
        continue
    c = PROPS[i]
    checks.append({
        'property': i,
        'quick_cmd': 'VERIF_TIER=quick python3 check.py ' + i,
        'thorough_cmd': 'VERIF_TIER=thorough python3 check.py ' + i,
        'evidence_file': 'evidence/%s.json' % i,
        'technique': c.get('technique', 'property-based testing: ' + c['rule'].split('.')[0][0].lower() + c['rule'].split('.')[0][1:]),
        'level': 'exploration',
        'level_note': c.get('note', 'Generated cases only, no exhaustiveness: a pass means no counterexample among the cases counted in the evidence. ') +
                      'Trusts the reference model and error bounds of the harness (DESIGN.md), the compiler and the C library.',
    })
m = {
    'version': 1,
    'setup_cmd': 'python3 check.py setup',
    'checks': checks,
    'not_applicable': na,
    'notes': 'No hooks: the harnesses use only the public interface. Every check compiles its harness against the headers in /repo each time it runs. '
             'VERIF_SEED selects the random cases; check.py replay FILE re-runs a counterexample. See DESIGN.md.',
}
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
