import sys, json
sys.path.insert(0, '/verif')
import check
json.dump({k: sorted(v) for k, v in check.consts('/repo').items()}, open('/verif/baseline_consts.json', 'w'))
