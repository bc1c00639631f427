SEEDS = []
def S(*a): SEEDS.append(a)

S('c12-threshold-tie', 'C12', [('peano/_bounded_items_heap.py', "if node[-1].up > threshold]", "if node[-1].up >= threshold]")],
  'an active item whose upper bound equals the raised good threshold',
  'after raising the good threshold an item with up == threshold stays active instead of being discarded', '''
from peano._bounded_items_heap import *
h = BoundedItemsHeap(None, None)
for lo, up in [(1, 5), (2, 7)]:
    h.push(BoundedItem(Fraction(lo), Fraction(up)))
h.update_good_threshold(Fraction(5))
assert [i.up for i in h.items()] == [7], [i.up for i in h.items()]
''')

S('c07-index-by-map', 'C07', [('peano/curves.py', '''        while cur_spec not in index:
            index[cur_spec] = len(cnums)
            cur_proto''', '''        while cur_spec.base_map not in index:
            index[cur_spec.base_map] = len(cnums)
            cur_proto'''), ('peano/curves.py', 'period_start = index[cur_spec]', 'period_start = index[cur_spec.base_map]')],
  'a multi-pattern curve in which the face touch visits the same orientation with two pattern numbers',
  'the cycle of the face-touch sequence is closed too early, so moments are wrong', '''
from peano import zoo
from peano.utils import gen_faces
from peano.base_maps import *
import itertools
def bounds(curve, pnum, face, depth, last):
    """integer time of the first touching fraction at this depth, from the definition"""
    best = None
    def rec(spec, t, d):
        nonlocal best
        if d == 0:
            if best is None: best = t
            return
        proto = spec.base_map * curve.patterns[spec.pnum].proto
        G = curve.genus
        order = range(G - 1, -1, -1) if last else range(G)
        for c in order:
            if best is not None: return
            if all(e is None or x == (proto.div - 1 if e else 0) for x, e in zip(proto[c], face)):
                oc = G - 1 - c if spec.base_map.time_rev else c
                rec(spec.base_map * curve.patterns[spec.pnum].specs[oc], t * G + c, d - 1)
    rec(Spec(BaseMap.id_map(curve.dim), pnum), 0, depth)
    return best
for name in ('get_beta_omega_curve', 'get_ARW_Curve', 'get_neptunus_curve', 'get_luna_curve', 'get_haverkort_curve_f', 'get_spring_curve', 'get_iupiter_curve'):
    f = getattr(zoo, name, None)
    if f is None: continue
    try:
        curve = f()
    except TypeError:
        curve = f(1)
    curve = getattr(curve, 'curve', curve)
    D = 3
    for pnum in range(curve.mult):
        for fd in range(curve.dim):
            for face in gen_faces(curve.dim, fd):
                for last in (False, True):
                    m = curve.get_face_moment(face, pnum, last=last)
                    t = bounds(curve, pnum, face, D, last)
                    G = curve.genus ** D
                    assert t <= m * G <= t + 1, (name, pnum, face, last, m, t)
''')

S('c11-shared-clauses', 'C11', [('peano/_sat_adapters.py', 'self._int_clauses = other._int_clauses[:]', 'self._int_clauses = other._int_clauses')],
  'a copied encoding in which something is forbidden, and then the original or another copy is used',
  'forbidding in a copy changes the encoding it was copied from', '''
from peano import zoo
from peano._sat_adapters import CurveSATAdapter
pc = zoo.get_hilbert_curve().curve.forget()
a = CurveSATAdapter(pc)
n = a.get_problem_size().clauses
b = CurveSATAdapter(adapter=a)
for j in pc.gen_auto_junctions():
    b.add_forbid_clause(j, pc)
assert not b.solve()
assert CurveSATAdapter(adapter=a).solve()
assert a.get_problem_size().clauses == n
''')

S('c01-negative-power', 'C01', [('peano/base_maps.py', "            return self.get_inverse()**(-power)", "            return self.get_inverse()**((-power) % 4 or 4)")],
  'a power of -5 or less of a map whose order does not divide 4 (order 3 or 6, dimension at least 3)',
  'negative powers are reduced modulo 4', '''
from peano.base_maps import *
for d in (1, 2, 3):
    for a in BaseMap.gen_base_maps(d):
        inv = a.get_inverse()
        r = BaseMap.id_map(d)
        for n in range(1, 13):
            r = r * inv
            assert a ** (-n) == r, (str(a), n)
''')

S('c01-cube-start', 'C01', [('peano/base_maps.py', "1-cube_start[k]-cube_length if b", "-cube_start[k] if b")],
  'a cube of length other than 1 passed to apply_cube_start',
  'the start vertex of a reflected cube ignores the cube length', '''
from peano.base_maps import *
b = BaseMap(((0, True), (1, False)))
assert b.apply_cube_start((Fraction(1, 4), Fraction(1, 2)), Fraction(1, 4)) == (Fraction(1, 2), Fraction(1, 2))
''')

S('c18-facet-intersect', 'C18', [('peano/subsets.py', "        if any(c1 != c2 for c1, c2 in zip(self.cubes, other.cubes)):  # zip shortest\n", "        if self.cubes and other.cubes and self.cubes[0] != other.cubes[0]:\n")],
  'two facet subsets that agree in the first nested cube and differ deeper',
  'disjoint facet subsets are reported as intersecting', '''
from peano.subsets import *
a = FacetDivSubset(2, 2, (0, 0), [(0,), (1,)])
b = FacetDivSubset(2, 2, (0, 0), [(0,), (0,)])
assert a.intersects(a) and not a.intersects(b)
''')

S('c18-link-std-one-side', 'C18', [('peano/subsets.py', '            other = min(other1, other2)\n', '            other = min(other1, other2) if entr.face_dim() == 0 else other1\n')],
  'a gate pair whose two points are equivalent under the cube symmetries, not vertices, with a chirality that the reversal changes',
  'the standard form of a gate pair and of its reversal differ', '''
from peano.subsets import *
from peano.base_maps import BaseMap
import itertools
F = Fraction
vals = [F(0), F(1), F(1, 4), F(3, 4), F(1, 3), F(2, 3)]
for d in (2, 3):
    pts = [Point(p) for p in itertools.product(vals, repeat=d)]
    e = Point([F(0), F(1, 4), F(1, 3)][:d])
    for x in pts:
        if x.std() == e.std():
            l = Link(e, x)
            assert l.std() == (~l).std(), (str(l), str(l.std()), str((~l).std()))
            assert l.std() == min(bm * l for bm in BaseMap.gen_base_maps(d))
''')

S('c15-sequence-tie', 'C15', [('peano/dilation.py', "                if res['lo'] <= curr_up:", "                if res['lo'] < curr_up:")],
  'a sequence whose best fuzzy curves have lower estimate exactly equal to the current upper bound (tie)',
  'a fuzzy curve attaining the minimum is dropped', '''
from peano import zoo
from peano.dilation import Estimator
from peano.utils import ratio_linf
from quicktions import Fraction
e = Estimator(ratio_linf)
c = zoo.get_hilbert_curve().curve.forget()
lo = e.estimate_dilation_fuzzy(c, rel_tol_inv=4)['lo']
r = e.estimate_dilation_sequence([c], rel_tol_inv=10, upper_bound=Fraction(6))
assert r is not None
r = Estimator(ratio_linf).estimate_dilation_sequence([c], rel_tol_inv=4, upper_bound=lo)
assert r is not None and r['idxs'] == [0], r
''')

