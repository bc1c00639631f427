import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
lv = json.load(open(H + '/levels.json'))
props = [json.loads(l)['id'] for l in open(H + '/properties.jsonl')]
checks = []
for p in props:
    if p not in lv or not os.path.exists('%s/bounded/%s.py' % (H, p.lower())):
        continue
    m = lv[p]
    checks.append({'property': p, 'quick_cmd': 'python3-vt -W ignore check.py %s' % p,
                   'thorough_cmd': 'VERIF_TIER=thorough python3-vt -W ignore check.py %s' % p,
                   'technique': m['technique'], 'level': m['level'], 'level_note': m['note']})
na = [{'property': p, 'reason': 'check under construction'} for p in props if p not in [c['property'] for c in checks]]
json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na,
           'notes': 'No hooks in /repo. Repairs of genuine defects are the fix: commits listed in known_findings.txt.'},
          open(H + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'n/a')
