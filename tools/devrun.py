"""developer runner: python3-vt tools/devrun.py c01 [unit filter...] [-v]"""
import sys, importlib, time
import os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import pyvc.repo
from pyvc.unit import UnitRun, summarize
m=importlib.import_module('contracts.'+sys.argv[1])
sel=[x for x in sys.argv[2:] if x!="-v"] 
for U in m.UNITS:
    u=U() if isinstance(U,type) else U
    if sel and not any(s in u.name for s in sel): continue
    r=UnitRun(u).explore()
    print('==',u.name,'paths',r['paths'],'complete',r['complete'],'restarts',r['restarts'],'wall',r['wall_s'],'q',r['solver_queries'])
    print('  covers',r['covers'],'missing', [x for x in u.covers if x not in r['covers']])
    if r['unsupported']: 
        from collections import Counter
        print('  UNSUPPORTED',Counter(r['unsupported']).most_common(5))
    if r['incomplete']: print('  INCOMPLETE',list(set(r['incomplete']))[:5])
    for n,d in summarize(r).items():
        flag='' if d['refuted']==d['unknown']==0 else '   <<<<<'
        if flag or '-v' in sys.argv: print('   ',n,d,flag)
    k=0
    for o in r['obligations']:
        if o.status!='proved' and k<3:
            k+=1
            print('   FAIL',o.name,o.status,o.inputs if o.inputs is None else {a:(b if not isinstance(b,bytes) else (len(b),b[:30].hex())) for a,b in o.inputs.items()},o.detail)
            if o.inputs and u.oracle:
                try: print('   replay:',u.oracle(o.inputs))
                except Exception as e: print('   replay EXC',repr(e))
    print('  obl', sum(sum(d.values()) for d in summarize(r).values()), 'funcs', len(r['functions']))
