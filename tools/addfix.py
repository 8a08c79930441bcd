"""python3 tools/addfix.py PROPERTY COMMIT TEXT - records a repaired defect"""
import json, sys
P = '/verif/known_findings.json'
L = json.load(open(P))
prop, commit, what = sys.argv[1:4]
L.append({'property': prop, 'status': 'fixed', 'commit': commit, 'what': 'fixed: property=%s %s %s' % (prop, commit, what)})
json.dump(L, open(P, 'w'), indent=1)
open(P, 'a').write('\n')
