#!/usr/bin/env python3
"""Rewrites MANIFEST.json from properties.jsonl and the table of finished checks below."""
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
exec(open(os.path.join(V, 'tool', 'claims.py')).read())
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in CLAIMS:
        t, n = CLAIMS[i]
        checks.append({'property': i, 'quick_cmd': 'python3-vt tool/check.py %s quick' % i,
                       'thorough_cmd': 'python3-vt tool/check.py %s thorough' % i,
                       'technique': t, 'level': 'other', 'level_note': n})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'The check for this property is not finished yet, so nothing is claimed.')})
m = {'version': 1, 'setup_cmd': 'python3-vt tool/setup.py', 'checks': checks, 'not_applicable': na,
     'notes': 'All checks are static: they compile /repo to LLVM IR or to an AST, never run it, and decide on that. No hooks in /repo.'}
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
