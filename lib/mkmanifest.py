#!/usr/bin/env python3
"""Writes MANIFEST.json from the properties and the claims below."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(HERE + '/properties.jsonl')]
T = 'contract-based deductive verification: '
IR = T + 'function contracts discharged on the LLVM IR of the real sources by a VC generator (identity testing, intervals, z3); counterexamples replayed on the compiled code'
CLAIMS = {}
NA = {}
exec(open(HERE + '/lib/claims.py').read())
checks = []
for p in props:
    i = p['id']
    if i not in CLAIMS: continue
    c = CLAIMS[i]
    checks.append(dict(property=i, quick_cmd='python3-vt check.py %s --tier quick' % i, thorough_cmd='python3-vt check.py %s --tier thorough' % i,
                       evidence_file='evidence/%s.json' % i, technique=c.get('technique', IR), level=c.get('level', 'proof'), level_note=c['note']))
man = dict(version=1, setup_cmd='python3-vt lib/setup.py', checks=checks,
           not_applicable=[dict(property=p['id'], reason=NA[p['id']]) for p in props if p['id'] not in CLAIMS])
json.dump(man, open(HERE + '/MANIFEST.json', 'w'), indent=1)
open(HERE + '/MANIFEST.json', 'a').write('\n')
