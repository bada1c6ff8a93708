#!/usr/bin/env python3
"""Writes MANIFEST.json: which properties are claimed and by which commands."""
import json, sys
claimed = open('/verif/scripts/claimed.txt').read().split()
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
TECH = 'contract-based deductive verification of the Go code (weakest preconditions over go/ssa, SMT)'
NOTE = {}
for l in open('/verif/scripts/notes.txt'):
    k, _, v = l.partition(':')
    NOTE[k.strip()] = v.strip()
checks, na = [], []
for p in props:
    i = p['id']
    if i in claimed:
        checks.append({
            'property': i,
            'quick_cmd': f'bash scripts/check.sh {i} quick',
            'thorough_cmd': f'bash scripts/check.sh {i} thorough',
            'technique': TECH, 'level': 'proof',
            'level_note': NOTE.get(i, '') + (' ' if i in NOTE else '') + NOTE['*'],
        })
    else:
        na.append({'property': i, 'reason': NOTE.get('-' + i, 'contracts for this property are not finished')})
m = {'version': 1, 'setup_cmd': 'bash scripts/setup.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'Every check regenerates all obligations from the Go code in /repo and asks the solvers again; nothing is cached. See DESIGN.md.'}
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
open('/verif/MANIFEST.json', 'a').write('\n')
