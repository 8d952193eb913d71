#!/usr/bin/env python3
# writes MANIFEST.json from the tables below and properties.jsonl
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
from manifest_data import CLAIMED, NOTES, NA
checks, na = [], []
for p in props:
    i = p['id']
    if i in CLAIMED:
        checks.append({
            'property': i,
            'quick_cmd': './check %s quick' % i,
            'thorough_cmd': './check %s thorough' % i,
            'evidence_file': 'evidence/%s.json' % i,
            'technique': 'bounded symbolic execution of the Go SSA, assertions decided by SMT (z3, cvc5), counterexamples replayed natively',
            'level': 'model_checking',
            'level_note': NOTES.get(i, ''),
        })
    else:
        na.append({'property': i, 'reason': NA.get(i, 'check not built yet')})
m = {'version': 1, 'setup_cmd': './check --setup', 'checks': checks, 'not_applicable': na}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
open(V + '/MANIFEST.json', 'a').write('\n')
