"""C18: gates (points, facet subsets, gate pairs) behave as the point sets they denote."""
import ast
import itertools
from contracts.common import *
from contracts.abstract import Group, new_obj, gtr, gK, gB, SymCurve, ranges, quiet, opt

SUB = 'subsets.'
PT, LKC, FD = SUB + 'Point', SUB + 'Link', SUB + 'FacetDivSubset'
MUL = ast.Mult()
seq = SymCurve.seq


def mkpoint(eng, name, d):
    x = sym_seq(eng, name, d, RealS)
    return x, new_obj(eng, cls_of(eng, PT), payload=x, sym=False)


def co(eng, p, j):
    v = item(eng, eng.plain_seq(p), j)
    return toreal(zval(v)) if not (is_z3(v) and v.sort() == RealS) else v


def is_point(eng, o, d, coord):
    return And(eng.eq(eng.length(o), d), for_index(eng, d, lambda j: co(eng, o, j) == coord(j)))


def at(x, j):
    return x[j] if isinstance(x, tuple) else x.get(j)


def is_cls(o, q):
    return isinstance(o, Obj) and o.cls.name == q.split('.')[1]


# ---- points -----------------------------------------------------------------------------------------------
def h_transform(eng, P):
    d = sym_dim(eng, P)
    x, p = mkpoint(eng, 'x', d)
    a = eng.fresh('a', RealS)
    s = sym_seq(eng, 's', d, RealS)
    f = eng.getattr(p, 'transform')
    z = lambda j: at(x, j)
    eng.prove('transform(scale, shift) maps x to a*x + s', is_point(eng, eng.call(f, [], {'scale': a, 'shift': s}), d, lambda j: a * z(j) + at(s, j)))
    eng.prove('transform(scale) maps x to a*x', is_point(eng, eng.call(f, [], {'scale': a}), d, lambda j: a * z(j)))
    eng.prove('transform(shift) maps x to x + s', is_point(eng, eng.call(f, [], {'shift': s}), d, lambda j: z(j) + at(s, j)))
    eng.prove('transform() keeps the point', is_point(eng, eng.call(f, []), d, z))
    r = eng.call(f, [], {'scale': a})
    eng.prove('the image of a point is a point', is_cls(r, PT))
    eng.prove('the point itself is not changed', quiet(eng), kind='frame')


def h_to_cube(eng, P):
    d = sym_dim(eng, P)
    x, p = mkpoint(eng, 'x', d)
    c = sym_seq(eng, 'c', d, IntS)
    n = eng.fresh('n', IntS)
    eng.assume(n >= 1)
    r = eng.call(eng.getattr(p, 'map_to_cube'), [n, c])
    eng.prove('map_to_cube puts the point into the cube', is_point(eng, r, d, lambda j: (at(x, j) + z3.ToReal(at(c, j))) / z3.ToReal(n)))


def h_point_map(eng, P):
    d = sym_dim(eng, P)
    grp = Group(eng, d)
    x, p = mkpoint(eng, 'x', d)
    g = grp.fresh('g')
    r = eng.binop(MUL, g, p)

    def want(j):
        v = item(eng, x, gK(g.term, zval(j)))
        return z3.If(gB(g.term, zval(j)), 1 - v, v)
    eng.prove('bm * point: the isometry of the unit cube', is_point(eng, r, d, want))
    eng.prove('bm * point is a point', is_cls(r, PT))
    y, q = mkpoint(eng, 'y', d)
    e = eng.truth(eng.call(eng.getattr(p, 'intersects'), [q]))
    same = for_index(eng, d, lambda j: at(x, j) == at(y, j))
    eng.prove('points intersect exactly if they coincide', And(Implies(e, same), Implies(same, e)))
    eng.prove('dim of a point is the number of its coordinates', eng.eq(eng.getattr(p, 'dim'), d))


def h_face_dim(eng, P, d=2):
    x, p = mkpoint(eng, 'x', d)
    r = eng.call(eng.getattr(p, 'face_dim'), [])
    want = sum([z3.If(z3.And(v != 0, v != 1), z3.IntVal(1), z3.IntVal(0)) for v in x], z3.IntVal(0))
    eng.prove('face_dim counts the coordinates off the boundary', eng.eq(r, want))


def listed(eng, out, d):
    """(cube, portion) pairs listed"""
    it = eng.iter_of(out)
    res = []
    for ev in (it if isinstance(it, Bag) else eng.bag_of(it)).events:
        bs, cond, e = eng.rename_event(ev)
        if len(bs) > 4 or any(b.sort() != IntS for b in bs) or not isinstance(e, tuple) or len(e) != 2:
            raise Unsupported('unexpected enumeration')
        if bs and not eng.entails(ForAll(list(bs), Implies(cond, And(*[And(b >= 0, b <= 1) for b in bs]))), 4.0):
            raise Unsupported('unexpected enumeration')
        # at most two alternatives per coordinate: list them
        for vals in itertools.product((0, 1), repeat=len(bs)):
            pairs = [(b, z3.IntVal(v)) for b, v in zip(bs, vals)]
            k, v = (eng.subst(cond, pairs), eng.subst(e, pairs)) if pairs else (cond, e)
            cube = [item(eng, v[0], j) for j in range(d)]
            eng.prove('cubes have one number per coordinate', Implies(k, eng.eq(eng.length(v[0]), d)))
            res.append((k, cube, v[1]))
    return res


def exactly(eng, who, out, inside, d):
    z = [eng.fresh('z%d' % j, IntS) for j in range(d)]
    cnt = sum([z3.If(zval(And(k, *[eng.eq(a, b) for a, b in zip(c, z)])), z3.IntVal(1), z3.IntVal(0)) for k, c, _ in out], z3.IntVal(0))
    eng.prove('%s: a cube is listed once if it meets the set, and not otherwise' % who, cnt == z3.If(inside(z), z3.IntVal(1), z3.IntVal(0)))


def h_divide_pt(eng, P, d=2):
    x, p = mkpoint(eng, 'x', d)
    n = eng.fresh('n', IntS)
    eng.assume(n >= 1)
    eng.cover('inputs')
    R = z3.ToReal
    out = listed(eng, eng.call(eng.getattr(p, 'divide'), [n]), d)
    exactly(eng, 'divide', out, lambda z: And(*[z3.And(z[j] >= 0, z[j] < n, R(z[j]) <= R(n) * x[j], R(n) * x[j] <= R(z[j]) + 1) for j in range(d)]), d)
    for k, c, q in out:
        eng.prove('divide: the portion of the point in a listed cube', Implies(k, is_point(eng, q, d, lambda j: R(n) * x[j] - R(zval(c[j])))))


def h_neighbours_pt(eng, P, d=2):
    x, p = mkpoint(eng, 'x', d)
    R = z3.ToReal
    out = listed(eng, eng.call(eng.getattr(p, 'gen_neighbours'), []), d)
    exactly(eng, 'gen_neighbours', out, lambda z: And(Or(*[z[j] != 0 for j in range(d)]), *[z3.And(R(z[j]) <= x[j], x[j] <= R(z[j]) + 1) for j in range(d)]), d)
    for k, c, q in out:
        eng.prove('gen_neighbours: the portion of the point in a listed cube', Implies(k, is_point(eng, q, d, lambda j: x[j] - R(zval(c[j])))))


def h_std_pt(eng, P, d=2):
    x, p = mkpoint(eng, 'x', d)
    s = eng.call(eng.getattr(p, 'std'), [])
    eng.prove('std of a point is a point', And(is_cls(s, PT), eng.eq(eng.length(s), d)))
    eng.prove('std is an image of the point under an isometry of the cube',
              Or(*[And(*[co(eng, s, j) == z3.If(z3.BoolVal(bool(b[j])), 1 - x[k[j]], x[k[j]]) for j in range(d)])
                   for k in itertools.permutations(range(d)) for b in itertools.product((0, 1), repeat=d)]))
    for k in itertools.permutations(range(d)):
        flips = [eng.fresh('flip', BoolS) for _ in range(d)]
        q = new_obj(eng, cls_of(eng, PT), payload=tuple(z3.If(flips[j], 1 - x[k[j]], x[k[j]]) for j in range(d)), sym=False)
        t = eng.call(eng.getattr(q, 'std'), [])
        eng.prove('std is the same for equivalent points', And(*[co(eng, t, j) == co(eng, s, j) for j in range(d)]))


# ---- facet subsets ----------------------------------------------------------------------------------------
class Facet:
    def __init__(self, eng, d, name='S', n=None, div=None, make=True):
        self.eng, self.d = eng, d
        f = eng.fresh
        self.fc, self.fv = f(name + '_fc', IntS), f(name + '_fv', IntS)
        eng.assume(And(self.fc >= 0, self.fc < d, self.fv >= 0, self.fv <= 1))
        self.div = div
        if div is None:
            self.div = f('div', IntS)
            eng.assume(self.div >= 2)
        self.n = n
        if n is None:
            self.n = f(name + '_n', IntS)
            eng.assume(self.n >= 0)
        self.q = eng.fresh_fun(name + '_q', IntS, IntS, IntS)
        self.cubes = seq(self.n, lambda t: tuple(self.q(zval(t), i) for i in range(d - 1)))
        self.obj = eng.call(cls_of(eng, FD), [d, self.div, (self.fc, self.fv), self.cubes])

    def absq(self, t, j):
        """number of cube t along the coordinate j of the space"""
        return self.q(zval(t), z3.If(zval(j) < self.fc, zval(j), zval(j) - 1))


def fview(eng, o):
    f = eng.getattr(o, 'facet')
    return zval(item(eng, f, 0)), zval(item(eng, f, 1)), eng.getattr(o, 'cubes')


def rel(fc, j):
    return z3.If(zval(j) < fc, zval(j), zval(j) - 1)


def kin(eng, o, S):
    return And(eng.eq(eng.getattr(o, 'dim'), S.d), eng.eq(eng.getattr(o, 'div'), S.div))


def anyt(eng, n):
    t = eng.fresh('t', IntS)
    eng.assume(And(t >= 0, t < zval(n)))
    return t


def h_facet_map(eng, P, d=2, n=None):
    S = Facet(eng, d, n=n)
    g = sym_bm(eng, 'g', d, False)
    co_ = eng.getattr(g, 'coords')
    R = eng.binop(MUL, g, S.obj)
    fc, fv, cubes = fview(eng, R)
    K = lambda j: zval(pair(eng, co_, j)[1])
    B = lambda j: zval(pair(eng, co_, j)[2])
    eng.prove('bm * subset: same dimension and division', kin(eng, R, S))
    eng.prove('bm * subset: the facet is the image of the facet',
              Or(*[And(fc == j, K(j) == S.fc, fv == z3.If(B(j), 1 - S.fv, S.fv)) for j in range(d)]))
    eng.prove('bm * subset: as many nested cubes', eng.eq(eng.length(cubes), S.n))
    if n == 0:
        return
    t = anyt(eng, S.n)
    row = item(eng, cubes, t)
    for j in range(d):
        src = S.absq(t, K(j))
        eng.prove('bm * subset: the nested cubes are the images of the nested cubes',
                  Implies(fc != j, zval(item(eng, row, rel(fc, j))) == z3.If(B(j), S.div - 1 - src, src)))


def h_facet_meet(eng, P, d=2):
    S = Facet(eng, d, 'S')
    T = Facet(eng, d, 'T', div=S.div)
    e = eng.truth(eng.call(eng.getattr(S.obj, 'intersects'), [T.obj]))
    t = z3.Int('t!m')
    rng = z3.And(t >= 0, t < S.n, t < T.n)
    same = And(S.fc == T.fc, S.fv == T.fv, z3.ForAll([t], z3.Implies(rng, z3.And(*[S.q(t, i) == T.q(t, i) for i in range(d - 1)]))))
    eng.prove('subsets meet only if they lie on one facet and one is nested in the other', Implies(e, same))
    eng.prove('nested subsets of one facet meet', Implies(same, e))


def h_facet_eq(eng, P, d=2):
    S = Facet(eng, d, 'S')
    T = Facet(eng, d, 'T', div=S.div)
    e = eng.truth(eng.call(eng.getattr(S.obj, '__eq__'), [T.obj]))
    t = z3.Int('t!e')
    same = And(S.fc == T.fc, S.fv == T.fv, S.n == T.n, z3.ForAll([t], z3.Implies(z3.And(t >= 0, t < S.n), z3.And(*[S.q(t, i) == T.q(t, i) for i in range(d - 1)]))))
    eng.prove('equal subsets have equal facet and cubes', Implies(e, same))
    eng.prove('subsets with equal facet and cubes are equal', Implies(same, e))


def h_facet_to_cube(eng, P, d=2):
    S = Facet(eng, d)
    c = sym_seq(eng, 'c', d, IntS)
    eng.assume(And(*[And(v >= 0, v < S.div) for v in c]))
    for j in range(d):
        eng.assume(Implies(S.fc == j, c[j] == z3.If(S.fv == 0, 0, S.div - 1)))
    R = eng.call(eng.getattr(S.obj, 'map_to_cube'), [S.div, c])
    fc, fv, cubes = fview(eng, R)
    eng.prove('map_to_cube keeps the facet', And(kin(eng, R, S), fc == S.fc, fv == S.fv))
    eng.prove('map_to_cube adds one level', eng.eq(eng.length(cubes), S.n + 1))
    first = item(eng, cubes, 0)
    for j in range(d):
        eng.prove('map_to_cube: the first cube is the given one', Implies(S.fc != j, zval(item(eng, first, rel(S.fc, j))) == c[j]))
    t = eng.fresh('t', IntS)
    eng.assume(And(t >= 0, t < S.n))
    row = item(eng, cubes, t + 1)
    eng.prove('map_to_cube: then the old ones', And(*[eng.eq(item(eng, row, i), S.q(t, i)) for i in range(d - 1)]))


def h_facet_divide(eng, P, d=2):
    """a subset inside one cube of the facet"""
    S = Facet(eng, d)
    eng.assume(S.n >= 1)
    out = listed(eng, eng.call(eng.getattr(S.obj, 'divide'), [S.div]), d)
    eng.prove('divide: a nested subset lies in one cube', And(len(out) == 1, out[0][0]))
    _, c, q = out[0]
    for j in range(d):
        eng.prove('divide: that cube touches the facet', Implies(S.fc == j, eng.eq(c[j], z3.If(S.fv == 0, 0, S.div - 1))))
        eng.prove('divide: at the first nested cube', Implies(S.fc != j, eng.eq(c[j], S.absq(0, j))))
    fc, fv, cubes = fview(eng, q)
    eng.prove('divide: the portion is on the same facet, one level less', And(kin(eng, q, S), fc == S.fc, fv == S.fv, eng.eq(eng.length(cubes), S.n - 1)))
    t = eng.fresh('t', IntS)
    eng.assume(And(t >= 0, t < S.n - 1))
    row = item(eng, cubes, t)
    eng.prove('divide: the remaining cubes', And(*[eng.eq(item(eng, row, i), S.q(t + 1, i)) for i in range(d - 1)]))


def h_facet_divide_all(eng, P, d=2):
    """a whole facet"""
    S = Facet(eng, d, n=0, div=P.get('div'))
    it = eng.iter_of(eng.call(eng.getattr(S.obj, 'divide'), [S.div]))
    bag = it if isinstance(it, Bag) else eng.bag_of(it)
    z = [eng.fresh('z%d' % j, IntS) for j in range(d)]
    inside = And(*[And(v >= 0, v < S.div) for v in z], *[Implies(S.fc == j, z[j] == z3.If(S.fv == 0, 0, S.div - 1)) for j in range(d)])
    # witness of a cube: its numbers along the facet
    rels = [z3.If(zval(i) < S.fc, z[i], z[i + 1]) for i in range(d - 1)]
    hit = []
    for ev in bag.events:
        bs, cond, v = eng.rename_event(ev)
        cube = [zval(item(eng, v[0], j)) for j in range(d)]
        fc, fv, cubes = fview(eng, v[1])
        eng.prove('divide: the portion of a facet is the facet', Implies(cond, And(kin(eng, v[1], S), fc == S.fc, fv == S.fv, eng.eq(eng.length(cubes), 0))))
        if len(bs) not in (0, d - 1):
            raise Unsupported('unexpected enumeration')
        pairs = list(zip(bs, rels))
        got = [eng.subst(x, pairs) if pairs else x for x in cube]
        hit.append(And(eng.subst(cond, pairs) if pairs else cond, *[a == b for a, b in zip(got, z)]))
        w = [(b, eng.fresh('w', IntS)) for b in bs]
        g2 = [eng.subst(x, w) if w else x for x in cube]
        c2 = eng.subst(cond, w) if w else cond
        eng.prove('divide: only cubes that touch the facet', Implies(And(c2, *[a == b for a, b in zip(g2, z)]), inside))
        w2 = [(b, eng.fresh('w', IntS)) for b in bs]
        g3 = [eng.subst(x, w2) if w2 else x for x in cube]
        c3 = eng.subst(cond, w2) if w2 else cond
        if bs:
            eng.prove('divide: each cube once', Implies(And(c2, c3, *[a == b for a, b in zip(g2, g3)]), And(*[a[1] == b[1] for a, b in zip(w, w2)])))
    eng.prove('divide: every cube that touches the facet', Implies(inside, Or(*hit)))


def h_facet_neighbours(eng, P, d=2):
    S = Facet(eng, d)
    out = listed(eng, eng.call(eng.getattr(S.obj, 'gen_neighbours'), []), d)
    eng.prove('gen_neighbours: one cube across the facet', And(len(out) == 1, out[0][0]))
    _, c, q = out[0]
    for j in range(d):
        eng.prove('gen_neighbours: the cube across the facet', eng.eq(c[j], z3.If(S.fc == j, z3.If(S.fv == 0, z3.IntVal(-1), z3.IntVal(1)), z3.IntVal(0))))
    fc, fv, cubes = fview(eng, q)
    eng.prove('gen_neighbours: seen from there, the opposite facet', And(kin(eng, q, S), fc == S.fc, fv == 1 - S.fv, eng.eq(eng.length(cubes), S.n)))
    t = eng.fresh('t', IntS)
    eng.assume(And(t >= 0, t < S.n))
    row = item(eng, cubes, t)
    eng.prove('gen_neighbours: the same nested cubes', And(*[eng.eq(item(eng, row, i), S.q(t, i)) for i in range(d - 1)]))


# ---- gate pairs -------------------------------------------------------------------------------------------
PS = z3.DeclareSort('GateSet')


class Sets:
    """gates as abstract sets on which the cube maps act (contracts of the classes above)"""
    def __init__(self, eng, grp):
        self.eng = eng
        self.act = z3.Function('on_set_%s' % grp.sort.name(), grp.sort, PS, PS)
        self.meet = z3.Function('sets_meet', PS, PS, BoolS)
        self.attrs = {'__classes__': ('Subset',), 'dim': lambda s: grp.d,
                      'intersects': lambda s: Builtin('intersects', lambda o: self.meet(s.term, o.term))}
        m = grp.attrs['__mul__']
        grp.attrs['__mul__'] = lambda s, o: self.mk(self.act(s.term, o.term)) if isinstance(o, UObj) and o.tag == 'Set' else m(s, o)

    def mk(self, t):
        return UObj(t, 'Set', self.attrs)

    def fresh(self, name):
        return self.mk(self.eng.fresh(name, PS))


def h_link(eng, P):
    d = sym_dim(eng, P)
    grp = Group(eng, d, coords=False)
    U = Sets(eng, grp)
    a, b, c, e = [U.fresh(n) for n in 'abce']
    cls = cls_of(eng, LKC)
    A, B = eng.call(cls, [a, b]), eng.call(cls, [c, e])
    g = grp.fresh('g')
    gt = lambda l: (eng.getattr(l, 'entrance').term, eng.getattr(l, 'exit').term)
    eng.prove('gates of a pair', And(gt(A)[0] == a.term, gt(A)[1] == b.term, eng.eq(eng.getattr(A, 'dim'), d)))
    R = eng.binop(MUL, g, A)
    x, y = U.act(g.term, a.term), U.act(g.term, b.term)
    eng.prove('bm * gate pair: images of the gates, swapped by time reversal', And(gt(R)[0] == z3.If(gtr(g.term), y, x), gt(R)[1] == z3.If(gtr(g.term), x, y)))
    I = eng.call(eng.getattr(A, '__invert__'), [])
    eng.prove('~gate pair: swapped gates', And(gt(I)[0] == b.term, gt(I)[1] == a.term))
    e1 = eng.truth(eng.call(eng.getattr(A, '__eq__'), [B]))
    same = And(a.term == c.term, b.term == e.term)
    eng.prove('gate pairs are equal exactly if both gates are', And(Implies(e1, same), Implies(same, e1)))
    eng.prove('equal gate pairs have equal hashes', Implies(same, eng.eq(eng.call(eng.getattr(A, '__hash__'), []), eng.call(eng.getattr(B, '__hash__'), []))))
    m = eng.truth(eng.call(eng.getattr(A, 'intersects'), [B]))
    want = And(U.meet(a.term, c.term), U.meet(b.term, e.term))
    eng.prove('gate pairs intersect exactly if entrances and exits do', And(Implies(m, want), Implies(want, m)))


def setup(eng):
    eng.contracts[BM] = miss_mode(BM)


def dims(title, h, targets, ds, **kw):
    return [Contract('%s (dim %d)' % (title, d), lambda e, P, d=d: h(e, P, d), targets, setup, kw.get('fin', []), timeout=kw.get('timeout', 10.0)) for d in ds]


F1 = [{'dim': 1}, {'dim': 2}]
T = FD + '.'
CONTRACTS = [
    Contract('Point.transform', h_transform, [PT + '.transform'], setup, F1),
    Contract('Point.map_to_cube', h_to_cube, [PT + '.map_to_cube', PT + '.transform'], setup, F1),
    Contract('bm * point, Point.intersects', h_point_map, [PT + '.__rmul__', PT + '.intersects', PT + '.dim'], setup, F1),
    Contract('gate pairs', h_link, [LKC + '.__rmul__', LKC + '.__invert__', LKC + '.__eq__', LKC + '.__hash__', LKC + '.intersects', LKC + '.__init__'], setup, F1),
]
CONTRACTS += dims('Point.face_dim', h_face_dim, [PT + '.face_dim'], (1, 2, 3))
CONTRACTS += dims('Point.divide', h_divide_pt, [PT + '.divide', PT + '._gen_integer_cubes'], (1, 2, 3))
CONTRACTS += dims('Point.gen_neighbours', h_neighbours_pt, [PT + '.gen_neighbours', PT + '._gen_integer_cubes'], (1, 2, 3))
CONTRACTS += dims('Point.std', h_std_pt, [PT + '.std'], (1, 2, 3))
CONTRACTS += dims('bm * facet subset', h_facet_map, [T + '__rmul__', T + '_map_facet', T + '_abs_to_facet', T + '__init__'], (2, 3))
CONTRACTS += dims('FacetDivSubset.intersects', h_facet_meet, [T + 'intersects'], (2, 3))
CONTRACTS += dims('FacetDivSubset equality', h_facet_eq, [T + '__eq__'], (2, 3))
CONTRACTS += dims('FacetDivSubset.map_to_cube', h_facet_to_cube, [T + 'map_to_cube'], (2, 3))
CONTRACTS += dims('FacetDivSubset.divide: nested', h_facet_divide, [T + 'divide'], (2, 3))
CONTRACTS += dims('FacetDivSubset.divide: whole facet', h_facet_divide_all, [T + 'divide'], (2, 3), fin=[{'div': 2}])
CONTRACTS += dims('FacetDivSubset.gen_neighbours', h_facet_neighbours, [T + 'gen_neighbours'], (2, 3))
