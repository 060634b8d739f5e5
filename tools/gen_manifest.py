#!/usr/bin/env python3
"""writes MANIFEST.json: every property with a contract file is claimed"""
import json, os, re, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
have = set()
for fn in sorted(os.listdir(os.path.join(here, 'contracts'))):
    if fn.endswith('.py') and not fn.startswith('_'):
        have |= set(re.findall(r"@scenario\('([A-Z]\d+)'", open(os.path.join(here, 'contracts', fn)).read()))
        have |= set(re.findall(r"^PID = '([A-Z]\d+)'", open(os.path.join(here, 'contracts', fn)).read(), re.M))
sys.path.insert(0, here)
from tools.notes import NOTES, NA
checks, na = [], []
for p in props:
    i = p['id']
    if i in have and i not in NA:
        checks.append(dict(property=i, quick_cmd='python3-vt check.py %s --tier quick' % i, thorough_cmd='python3-vt check.py %s --tier thorough' % i,
                           evidence_file='evidence/%s.json' % i,
                           technique='contract-based deductive verification: symbolic execution of the current source against contracts, obligations discharged by normal-form/z3 provers',
                           level='proof',
                           level_note=NOTES.get(i, '') + ' Exact-real semantics for floats; numpy semantics, scipy ellipk/ellipe contracts and the verifier are trusted; obligations the prover leaves open fall back to a labelled bounded CPython check.'))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'contracts for this property are not written yet')))
m = dict(version=1, setup_cmd='python3-vt -c "import z3, sympy, mpmath, numpy" && /opt/venv/bin/python -c "import numpy, scipy, mpmath"', checks=checks, not_applicable=na,
         notes='one engine (pyvc) and one driver (check.py); contracts/ holds the specifications; see DESIGN.md')
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
print('claimed', [c['property'] for c in checks], 'not applicable', [n['property'] for n in na])
