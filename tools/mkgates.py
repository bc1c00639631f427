"""Offline: expected gate tuples (reference enumeration of bounded/c19.py) for configurations too slow for every run -> bounded/gates_table.json"""
import sys, os, json, resource
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [H + '/bounded', '/repo']
import c19
cfg = eval(sys.argv[1])
exp, unk, n = c19.expected(*cfg)
assert not unk, unk
txt = [[[[str(c) for c in p] for p in l] for l in t] for t in sorted(exp)]
p = '/tmp/gates_%s.json' % ''.join(str(int(x)) for x in cfg)
json.dump({'config': list(cfg), 'candidates': n, 'gates': txt}, open(p, 'w'))
print(cfg, n, len(txt))
