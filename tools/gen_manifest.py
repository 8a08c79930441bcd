"""Writes MANIFEST.json from the contract modules present and NOTES below."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
from notes import NOTES, NOT_APPLICABLE
props = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks = []
na = []
for p in props:
    if p in NOTES and os.path.exists(os.path.join(HERE, 'contracts', p.lower() + '.py')):
        n = NOTES[p]
        checks.append(dict(property=p, quick_cmd='python3-vt check.py %s' % p,
                           thorough_cmd='python3-vt check.py %s --tier thorough' % p,
                           technique=n.get('technique', 'contract-based deductive verification of the real source (PyVC: symbolic '
                                     'execution + SMT, loop invariants, callee contracts); bounded runtime contracts as labelled supplement'),
                           level=n.get('level', 'proof'), level_note=n['note']))
    else:
        na.append(dict(property=p, reason=NOT_APPLICABLE.get(p, 'check not built yet')))
m = dict(version=1, setup_cmd='python3-vt -c "import z3, sys; print(z3.get_version_string())"', checks=checks, not_applicable=na,
         notes='No hooks in /repo: contracts live in /verif/contracts and are keyed to the functions of /repo by qualified '
               'name; the source is re-read on every run.')
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
