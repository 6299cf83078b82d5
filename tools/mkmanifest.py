#!/usr/bin/env python3
"""writes MANIFEST.json from the table below and properties.jsonl"""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = [json.loads(l) for l in open(os.path.join(H, 'properties.jsonl'))]
exec(open(os.path.join(H, 'tools', 'claims.py')).read())
checks, na = [], []
for p in PROPS:
    i = p['id']
    if i in CLAIMS:
        level, note = CLAIMS[i]
        checks.append(dict(property=i, quick_cmd=f'python3-vt /verif/check.py {i} --tier quick', thorough_cmd=f'python3-vt /verif/check.py {i} --tier thorough',
                           technique=TECH[level], level=level, level_note=note))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'no check built yet')))
m = dict(version=1, setup_cmd='python3-vt /verif/tools/setup.py', checks=checks, not_applicable=na,
         notes='See DESIGN.md. Deductive contracts: contracts/*.py over the verifier pyvc/ (weakest-precondition style symbolic execution of the AST of /repo on every run; z3, cvc5). Bounded contract oracles on the real code: oracles/*.py, labelled bounded in the evidence.')
json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
