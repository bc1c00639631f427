"""levels.json: level, technique and note of every claimed property."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = 'contract-based deductive verification of the current source (pyvc: VC generator over /repo\'s ast, z3/cvc5)'
B = 'bounded stand-in: definition-level oracle executed on the real code'
PROOF = 'Contracts on the real functions, all inputs and iterations; what is left to the bounded oracle is listed in the evidence (not_proved_here, bounded). Trusts pyvc\'s model of Python, z3/cvc5, exact Fraction arithmetic.'
BND = 'Bounded: decided on the finite input set stated in the evidence against independent reference definitions; not counted as proved.'
levels = {}
proofs = [p for p in ['C%02d' % i for i in range(1, 21)] if os.path.exists('%s/contracts/%s.py' % (H, p.lower()))]
for i in range(1, 21):
    p = 'C%02d' % i
    if not os.path.exists('%s/bounded/%s.py' % (H, p.lower())):
        continue
    if p in proofs:
        levels[p] = {'level': 'proof', 'technique': T + '; ' + B + ' for functions out of reach', 'note': PROOF}
    else:
        levels[p] = {'level': 'exploration', 'technique': B + ' (contracts not yet discharged for this property)', 'note': BND}
json.dump(levels, open(H + '/levels.json', 'w'), indent=1)
