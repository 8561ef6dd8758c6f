#!/usr/bin/env python3
"""writes MANIFEST.json from the property list and the notes below"""
import json, os
H = os.path.dirname(os.path.abspath(__file__))
NOTE = 'Contracts on the real functions (LLVM IR of the unmodified sources, inlined below the public API), all inputs and list lengths; real arithmetic instead of doubles; see coverage.trusted_base and DESIGN.md.'
exec(open(os.path.join(H, 'claims.py')).read())
props = [json.loads(l) for l in open(os.path.join(H, 'properties.jsonl'))]
checks = []; na = []
for p in props:
    i = p['id']
    if i in CLAIM:
        checks.append(dict(property=i, quick_cmd='python3-vt check.py %s --tier quick' % i, thorough_cmd='python3-vt check.py %s --tier thorough' % i,
            technique='contract-based deductive verification of the LLVM IR of the real code', level='proof', level_note=(NOTE + ' ' + CLAIM[i]).strip()))
    else: na.append(dict(property=i, reason=NA.get(i, 'no check built yet')))
json.dump(dict(version=1, setup_cmd='python3-vt -c "import z3" && clang++ --version && mkdir -p build evidence', hooks=dict(guard='SLAT_VERIF', enable='no hooks: the checks compile the unmodified sources with the contracts in /verif/contracts', source_commits=[]),
    checks=checks, not_applicable=na, notes='python3-vt is the preinstalled tooling interpreter (z3, cvc5). Every check recompiles /repo/src.'), open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not applicable')
