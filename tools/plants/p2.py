SEEDS = []
def S(*a): SEEDS.append(a)

S('c06-subdivision-pattern', 'C06', [('peano/curves.py', "                div=current_curve.div * N,  # we change div so do not use ``_changed''\n                patterns=new_patterns,\n                pnum=self.pnum,\n", "                div=current_curve.div * N,  # we change div so do not use ``_changed''\n                patterns=new_patterns,\n")],
  'a curve with another selected pattern than 0', 'the subdivision forgets the selected pattern', '''
from peano import zoo
from peano.base_maps import *
c = zoo.get_beta_omega_curve() if hasattr(zoo, 'get_beta_omega_curve') else None
c = getattr(c, 'curve', c)
c = Spec(BaseMap.id_map(2), 1) * c
assert c.pnum == 1
s = c.get_subdivision()
assert s.get_entrance() == c.get_entrance() and s.pnum == 1
''')

S('c07-vertex-moments-pattern', 'C07', [('peano/curves.py', "return {vertex: self.get_face_moment(vertex, pnum) for", "return {vertex: self.get_face_moment(vertex) for")],
  'vertex moments asked for another pattern than the selected one', 'the moments of the selected pattern are returned', '''
from peano import zoo
c = zoo.get_ARW_Curve().curve
for p in range(c.mult):
    m = c.get_vertex_moments(p)
    assert m == {v: c.get_face_moment(v, pnum=p) for v in m}, p
    assert all((c.get_entrance(p) == v) == (t == 0) for v, t in m.items())
''')

S('c10-specify-defined', 'C10', [('peano/curves.py', """        if spec not in self.gen_allowed_specs(pnum, cnum):
            raise ValueError("Can't specify curve")
        if self.patterns[pnum].specs[cnum] is not None:
            return self  # optimization: spec is already defined
""", """        if self.patterns[pnum].specs[cnum] is not None:
            return self  # optimization: spec is already defined
        if spec not in self.gen_allowed_specs(pnum, cnum):
            raise ValueError("Can't specify curve")
""")],
  'specifying a fraction that already has another spec', 'a disallowed spec is silently ignored instead of refused', '''
from peano import zoo
c = zoo.get_hilbert_curve().curve.forget()
sps = list(c.gen_allowed_specs(0, 1))
d = c.specify(0, 1, sps[0])
try:
    d.specify(0, 1, sps[1])
except ValueError:
    pass
else:
    raise SystemExit('not refused')
''')

S('c10-possible-pnum', 'C10', [('peano/curves.py', "yield Curve(dim=self.dim, div=self.div, patterns=patterns, pnum=self.pnum)", "yield Curve(dim=self.dim, div=self.div, patterns=patterns)")],
  'a fuzzy curve with another selected pattern than 0', 'possible curves have pattern 0 selected', '''
from peano import zoo
from peano.base_maps import *
c = Spec(BaseMap.id_map(2), 1) * zoo.get_beta_omega_curve().curve.forget()
x = next(iter(c.gen_possible_curves()))
assert x.pnum == 1
''')

S('c11-curve-var-key', 'C11', [('peano/_sat_adapters.py', "return 'curve', tuple(curve.gen_defined_specs())", "return 'curve', tuple((cnum, sp) for _, cnum, sp in curve.gen_defined_specs())")],
  'two templates of a multi-pattern curve that differ only in the pattern numbers', 'two different templates share a variable', '''
from peano._sat_adapters import CurveSATAdapter
from peano import zoo
c = zoo.get_beta_omega_curve().curve.forget()
seen = {}
for j, ts in c.get_junction_templates().items():
    for t in ts:
        k = CurveSATAdapter._get_curve_var(t)
        d = frozenset(t.gen_defined_specs())
        assert seen.setdefault(k, d) == d
s = list(c.gen_allowed_specs(0, 0))[0]
base = list(c.gen_allowed_specs(1, 0))
a, b = c.specify(0, 0, s), None
for sp in base:
    if sp == s: b = c.specify(1, 0, sp)
assert b is None or CurveSATAdapter._get_curve_var(a) != CurveSATAdapter._get_curve_var(b)
''')

S('c13-cache-by-depth', 'C13', [('peano/dilation.py', "        return self.cnums, self.cubes, self.div, self.dim  # dim is least used in comparison", "        return self.cnums, self.cubes, self.dim")],
  'one estimator used for curves of different div', 'cached bounds of one curve are returned for another', '''
from peano.dilation import Estimator, _CurvePiecePair
from peano import zoo, utils
from peano.utils import ratio_l2_squared
from peano.curves import Curve
from peano.paths import Proto
from peano.base_maps import Spec
a = zoo.get_hilbert_curve().curve
# any 3x3 order of cubes serves; the first four run around a square like the Hilbert curve
b = Curve(dim=2, div=3, patterns=[(list(a.patterns[0].proto) + [(2, 0), (2, 1), (2, 2), (1, 2), (0, 2)], list(a.patterns[0].specs) + [Spec.parse('ij')] * 5)])
e = Estimator(ratio_l2_squared)
for c in (b, a):
    j = next(iter(c.gen_auto_junctions()))
    for n1 in range(c.genus - 1):
        for n2 in range(n1 + 2, c.genus):
            pair = _CurvePiecePair.init_first_order(c, j, n1, n2)
            for q in [pair] + [r for p in pair.divide_balanced() for r in p.divide_balanced()]:
                assert e._get_bounds(q) == Estimator(ratio_l2_squared)._get_bounds(q), (n1, n2)
''')

S('c20-check-first-pattern', 'C20', [('peano/curves.py', "if any(not path.is_continuous() for path in self.get_paths()):", "if not self.get_paths()[self.pnum].is_continuous():")],
  'a multi-pattern curve with a jump in a pattern that is not selected', 'the continuity check accepts it', '''
from peano import zoo
from peano.base_maps import *
from peano.curves import Curve
c = zoo.get_beta_omega_curve().curve
bad = 0
for n in range(c.genus):
    for bm in BaseMap.gen_base_maps(2):
        pats = [(p.proto, list(p.specs)) for p in c.patterns]
        pats[1][1][n] = Spec(bm, pats[1][1][n].pnum)
        d = Curve(dim=2, div=c.div, patterns=pats)
        cont = all(p.is_continuous() for p in d.get_paths())
        try: d.check(); acc = True
        except ValueError: acc = False
        assert acc == cont
        bad += not cont
assert bad
''')

S('c05-equal-ignores-pattern', 'C05', [('peano/curves.py', "        return (self.patterns, self.pnum) == (other.patterns, other.pnum)\n", "        return self.patterns == other.patterns and self.patterns[self.pnum] == other.patterns[other.pnum]\n")],
  'two curves with equal pattern contents and different selected patterns', 'curves selecting different patterns with the same text compare equal (and hash differently)', '''
from peano.curves import Curve
from peano.base_maps import *
a = ('jiJ', 'ji,0ij,1ij,JI'.split(','))
c = Curve.parse([('jiJ', '0ji,1ij,0ij,1JI'.split(',')), ('jiJ', '0ji,1ij,0ij,1JI'.split(','))])
d = Spec(BaseMap.id_map(2), 1) * c
assert d.pnum == 1 and c != d
''')
