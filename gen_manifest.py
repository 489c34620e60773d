"""Writes MANIFEST.json from claims.json (run by hand)."""
import json
import os
HERE = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
claims = json.load(open(os.path.join(HERE, 'claims.json')))
checks, na = [], []
for p in props:
    i = p['id']
    c = claims.get(i)
    if c and not c.get('not_applicable'):
        checks.append(dict(
            property=i, quick_cmd=f'python3 check.py {i} --tier quick',
            thorough_cmd=f'python3 check.py {i} --tier thorough',
            technique=c.get('technique', 'contract-based deductive '
                            'verification of the real code (pyvc: '
                            'weakest-precondition style VCs, z3/cvc5), '
                            'failing inputs replayed on the real code'),
            level=c['level'], level_note=c['note']))
    else:
        na.append(dict(property=i, reason=(c or {}).get(
            'not_applicable', 'no contract for it has been built yet')))
json.dump(dict(version=1, setup_cmd='bash setup.sh', checks=checks,
               not_applicable=na), open(os.path.join(
                   HERE, 'MANIFEST.json'), 'w'), indent=1)
