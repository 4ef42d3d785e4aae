#!/usr/bin/env python3
"""writes MANIFEST.json from the table below and properties.jsonl"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = 'contract-based deductive verification: contracts on the functions of the real headers, compiled to LLVM IR on every run; irv symbolic executor generates the obligations, z3/cvc5 discharge them'
exec(open(V + '/tools/claims.py').read())   # CLAIMS {id: (level, note)}, NA {id: reason}
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
m = dict(version=1, setup_cmd='true', hooks=HOOKS, checks=[], not_applicable=[])
for i in ids:
    if i in CLAIMS:
        lv, note = CLAIMS[i]
        m['checks'].append(dict(property=i, quick_cmd='./check %s' % i, thorough_cmd='VERIF_TIER=thorough ./check %s' % i, technique=T, level=lv, level_note=note))
    else: m['not_applicable'].append(dict(property=i, reason=NA.get(i, 'contracts for this part are not finished yet')))
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
