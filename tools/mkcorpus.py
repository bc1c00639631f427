"""One-off: dump the zoo curves of the pinned commit as plain data (committed; checks do not run this)."""
import sys, json
sys.path.insert(0, '/repo'); sys.path.insert(0, '/verif/bounded')
from peano import zoo
import inspect
out = {}
for nm, fn in inspect.getmembers(zoo, inspect.isfunction):
    if nm.startswith('get_') and nm != 'get_all_curves':
        cu = fn().curve
        out[nm[4:].replace('_curve', '').replace('_Curve', '')] = dict(dim=cu.dim, div=cu.div, pnum=cu.pnum, pats=[
            ([list(c) for c in p.proto], [[[[list(x) for x in s.base_map.coords], s.base_map.time_rev], s.pnum] for s in p.specs])
            for p in cu.patterns])
json.dump(out, open('/verif/bounded/corpus.json', 'w'), separators=(',', ':'))
for k, v in out.items(): print(k, v['dim'], v['div'], len(v['pats']))
