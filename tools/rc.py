import sys, importlib, time
sys.path.insert(0,'/verif')
from pyvc.run import run_contract
m = importlib.import_module('contracts.'+sys.argv[1])
pat = sys.argv[2] if len(sys.argv)>2 else ''
repo = sys.argv[3] if len(sys.argv)>3 else '/repo'
for c in m.CONTRACTS:
    if pat and pat not in c.name: continue
    t=time.time()
    r = run_contract(repo, c)
    print('%-45s %-11s %5.1fs paths=%s obl=%d %s' % (c.name, r.status, time.time()-t, r.paths, len(r.obligations), r.reason))
    if r.status!='proved':
        if getattr(r,'trace',''): print(r.trace)
        for f in r.failed: print('    FAILED', f[0], f[2], f[3][:300])
        if hasattr(r,'counter'): print('    COUNTER', r.counter)
