"""C13: bounds of a pair of fractions, and the division of a pair."""
from contracts.common import *
from contracts.abstract import *
from contracts.c05 import begin, view, FC, CV, MUL, spec_is
from contracts import inv
from pyvc.builtins_ import GenIter

EST = 'dilation.Estimator'
PP = 'dilation._PiecePosition'
CP = 'dilation._CurvePiece'
PAIR = 'dilation._CurvePiecePair'


def absr(v):
    v = toreal(v)
    return z3.If(v >= 0, v, -v)


class Ratio:
    """an arbitrary ratio function: monotone in |dx_j| and antitone in dt > 0, known only through that.
    Ghost pairs (dx, dt, value) give the values of the ratio at displacements the specification talks about."""
    def __init__(self, eng, d):
        self.eng, self.d = eng, d
        self.ghosts = []
        self.calls = []

    def ghost(self, name, dx, dt):
        v = self.eng.fresh('ratio_' + name, RealS)
        self.ghosts.append((dx, dt, v))
        return v

    def __call__(self, d, dx, dt):
        eng = self.eng
        eng.prove('the ratio is asked for this dimension', eng.eq(d, self.d))
        r = eng.fresh('ratio', RealS)
        s = eng.plain_seq(dx)
        eng.prove('the ratio is asked for a vector of this dimension', eng.eq(eng.length(s), self.d))
        dt = toreal(dt)
        for gx, gt, v in self.ghosts:
            le = lambda a, b: for_index(eng, self.d, lambda j: absr(a(j)) <= absr(b(j)))
            at = lambda j: item(eng, s, j)
            eng.assume(Implies(And(le(gx, at), toreal(gt) >= dt, dt > 0), v <= r))
            eng.assume(Implies(And(le(at, gx), dt >= toreal(gt), toreal(gt) > 0), r <= v))
            eng.assume(Implies(And(for_index(eng, self.d, lambda j: absr(at(j)) == absr(gx(j))), dt == toreal(gt)), r == v))
        self.calls.append((s, dt, r))
        return r


class Frame:
    """two fractions in the frame of the junction, scaled by div**depth of the first one"""
    def __init__(self, eng, P, points=False):
        self.eng = eng
        self.d = d = sym_dim(eng, P)
        self.grp = grp = Group(eng, d)
        N = P.get('div')
        if N is None:
            N = eng.fresh('N', IntS)
            eng.assume(N >= 2)
        self.N = N
        self.g1, self.g2 = grp.fresh('jbm1'), grp.fresh('jbm2')
        deep = P['deep']            # first fraction one level deeper than the second
        k2 = P.get('depth')
        if k2 is None:
            k2 = eng.fresh('depth2', IntS)
            eng.assume(k2 >= 1)
        k1 = simp(zval(k2) + 1) if deep else k2
        self.x1, self.x2 = sym_seq(eng, 'x1_', d, IntS), sym_seq(eng, 'x2_', d, IntS)
        self.t1, self.t2 = eng.fresh('t1', IntS), eng.fresh('t2', IntS)
        mk = lambda k, nm: new_obj(eng, cls_of(eng, PP), dim=d, div=N, depth=k, cnums=self.cn(nm, k), cubes=self.cu(nm, k), ghostid=nm)
        self.pos1, self.pos2 = mk(k1, 'one'), mk(k2, 'two')
        self.D1, self.D2 = eng.power(N, k1), eng.power(N, k2)
        self.G1, self.G2 = eng.power(self.D1, d), eng.power(self.D2, d)
        self.m, self.mt = (N, eng.power(N, d)) if deep else (1, 1)
        self.dx = sym_seq(eng, 'jdx', d, IntS)
        self.dt = eng.fresh('jdt', IntS)
        # images under the orientations of the junction
        self.X1, self.X2 = grp.act(self.g1.term, self.x1, lambda v: self.D1 - 1 - v), grp.act(self.g2.term, self.x2, lambda v: self.D2 - 1 - v)
        self.T1 = eng.ite(gtr(self.g1.term), self.G1 - 1 - self.t1, self.t1)
        self.T2 = eng.ite(gtr(self.g2.term), self.G2 - 1 - self.t2, self.t2)
        at = lambda s, j: item(eng, s, j)
        self.lo1 = lambda j: at(self.X1, j)
        self.lo2 = lambda j: at(self.X2, j) * self.m + at(self.dx, j) * self.D1
        self.s1 = self.T1
        self.s2 = self.T2 * self.mt + self.dt * self.G1
        eng.contracts[PP + '.get_int_coords'] = lambda e, A: (self.x1, self.t1) if e.getattr(A['self'], 'ghostid') == 'one' else (self.x2, self.t2)
        sp1, sp2 = mk_spec(eng, self.g1, eng.fresh('q1', IntS)), mk_spec(eng, self.g2, eng.fresh('q2', IntS))
        self.junc = new_obj(eng, cls_of(eng, 'curves.RegularJunction'), spec1=sp1, spec2=sp2, delta_x=self.dx, delta_t=self.dt)
        eng.assume(zval(self.s2) - (zval(self.s1) + 1) >= 1)         # not adjacent, in this order
        if isinstance(self.m, z3.ExprRef):
            eng.assume(self.m >= 2)
            eng.assume(zval(self.mt) >= 2)
        self.ratio = Ratio(eng, d)
        self.est = new_obj(eng, cls_of(eng, EST), ratio_func=Builtin('ratio', lambda *a: self.ratio(*a)))

    def cn(self, nm, k):
        f = self.eng.fresh_fun('cn_' + nm, IntS, IntS)
        return SymCurve.seq(k, lambda i: f(zval(i)))

    def cu(self, nm, k):
        f = self.eng.fresh_fun('cu_' + nm, IntS, IntS, IntS)
        return SymCurve.seq(k, lambda i: SymCurve.seq(self.d, lambda j: f(zval(i), zval(j))))

    def inside(self, j, p1, p2):
        a, b = toreal(self.lo1(j)), toreal(self.lo2(j))
        return And(p1(j) >= a, p1(j) <= a + 1, p2(j) >= b, p2(j) <= b + toreal(self.m))


def dx_of(p1, p2):
    return lambda j: p1(zval(j)) - p2(zval(j))


def h_bounds(deep):
    def h(eng, P):
        F = Frame(eng, dict(P, deep=deep))
        # an arbitrary pair of points of the two fractions
        p1, p2 = eng.fresh_fun('p1', IntS, RealS), eng.fresh_fun('p2', IntS, RealS)
        u1, u2 = eng.fresh('u1', RealS), eng.fresh('u2', RealS)
        eng.assume(for_index(eng, F.d, lambda j: F.inside(j, lambda i: p1(zval(i)), lambda i: p2(zval(i)))))
        a, b = toreal(F.s1), toreal(F.s2)
        eng.assume(And(u1 >= a, u1 <= a + 1, u2 >= b, u2 <= b + toreal(F.mt)))
        any_pair = F.ratio.ghost('of any pair', dx_of(p1, p2), u2 - u1)
        # the corners of the two cubes that are farthest in every coordinate, visited at arbitrary times in the two fractions
        c1, c2 = eng.fresh_fun('c1', IntS, RealS), eng.fresh_fun('c2', IntS, RealS)
        w1, w2 = eng.fresh('w1', RealS), eng.fresh('w2', RealS)

        def corner(j):
            A, B, m = toreal(F.lo1(j)), toreal(F.lo2(j)), toreal(F.m)
            j = zval(j)
            right = B + m - A           # cube 2 to the right
            left = A + 1 - B
            return z3.If(right >= left, And(c1(j) == A, c2(j) == B + m), And(c1(j) == A + 1, c2(j) == B))
        eng.assume(for_index(eng, F.d, corner))
        eng.assume(And(w1 >= a, w1 <= a + 1, w2 >= b, w2 <= b + toreal(F.mt)))
        at_corner = F.ratio.ghost('at the far corners', dx_of(c1, c2), w2 - w1)
        eng.cover('inputs')
        r = eng.call(eng.getattr(F.est, '_get_pos_bounds'), [F.junc, F.pos1, F.pos2, (), ()])
        lo, up, arg = r
        eng.prove('the upper bound is at least the ratio of every pair of points of the two fractions', any_pair <= up)
        eng.prove('the lower bound is at most the ratio at the far corners, which the fractions visit', lo <= at_corner)
        eng.prove('no extremal pair is reported without curve points', opt(arg)[0])
        eng.prove('computing bounds changes nothing', quiet(eng), kind='frame')
    fin = [{'dim': 1, 'div': 2, 'depth': 1}, {'dim': 2, 'div': 2, 'depth': 1}, {'dim': 1, 'div': 3, 'depth': 2}]
    return Contract('_get_pos_bounds %s' % ('first fraction deeper' if deep else 'equal depths'), h, [EST + '._get_pos_bounds'], setup, fin, timeout=20.0)


# ---- bounds with curve points --------------------------------------------------------------------
class Points:
    """two lists of curve points (relative to their fractions) and the pairs they form in the scaled frame"""
    def __init__(self, eng, F, n1, n2):
        self.eng, self.F, self.n1, self.n2 = eng, F, n1, n2
        self.x = [eng.fresh_fun('px%d' % i, IntS, IntS, RealS) for i in (1, 2)]
        self.t = [eng.fresh_fun('pt%d' % i, IntS, RealS) for i in (1, 2)]
        self.RT = eng.fresh_fun('ratio_of_pair', IntS, IntS, RealS)
        self.cands = [(a, b) for a in range(n1) for b in range(n2)] if isinstance(n1, int) else []

    def pts(self, w, n):
        eng, F = self.eng, self.F
        cls = cls_of(eng, 'curves.CurvePoint')

        def one(i):
            x = new_obj(eng, cls_of(eng, 'subsets.Point'), payload=SymCurve.seq(F.d, lambda j: self.x[w](zval(i), zval(j))), sym=False)
            return new_obj(eng, cls, x=x, t=self.t[w](zval(i)), sym=False)
        return SymCurve.seq(n, one)

    def place(self, w, i):
        """(coordinate function, time) of point i of list w in the scaled frame"""
        F, eng = self.F, self.eng
        g = (F.g1, F.g2)[w].term
        m = (1, F.m)[w]
        mt = (1, F.mt)[w]
        lo = (F.lo1, F.lo2)[w]
        img = F.grp.act(g, SymCurve.seq(F.d, lambda j: self.x[w](zval(i), zval(j))), lambda v: 1 - v)
        x = lambda j: toreal(lo(j)) + toreal(m) * toreal(item(eng, img, j))
        tt = self.t[w](zval(i))
        t = toreal((F.s1, F.s2)[w]) + toreal(mt) * z3.If(gtr(g), 1 - tt, tt)
        return x, t

    def pair(self, a, b):
        x1, t1 = self.place(0, a)
        x2, t2 = self.place(1, b)
        return x1, t1, x2, t2

    def hook(self, ratio):
        """values of the ratio function at the displacement of a pair of points are RT(a, b)"""
        eng, F = self.eng, self.F
        old = ratio.__call__

        def f(d, dx, dt):
            r = Ratio.__call__(ratio, d, dx, dt)
            s = eng.plain_seq(dx)
            for a, b in self.cands:
                x1, t1, x2, t2 = self.pair(a, b)
                same = for_index(eng, F.d, lambda j: absr(toreal(item(eng, s, j))) == absr(x1(j) - x2(j)))
                eng.assume(Implies(And(same, toreal(dt) == t2 - t1), r == self.RT(a, b)))
            return r
        return f

    def reported(self, lo, d, a, b):
        """argmax d and bound lo are those of the pair (a, b)"""
        eng, F = self.eng, self.F
        x1, t1, x2, t2 = self.pair(a, b)
        get = lambda k: eng.getitem(d, k)
        mx, mt = toreal(F.D1), toreal(F.G1)
        return And(eng.eq(lo, self.RT(a, b)), ranges((a, self.n1), (b, self.n2)),
                   for_index(eng, F.d, lambda j: And(toreal(item(eng, get('x1'), j)) * mx == x1(j), toreal(item(eng, get('x2'), j)) * mx == x2(j))),
                   toreal(get('t1')) * mt == t1, toreal(get('t2')) * mt == t2,
                   eng.eq(eng.length(get('x1')), F.d), eng.eq(eng.length(get('x2')), F.d))


def point_loop(Q):
    """invariant of the loop over pairs of points: nothing reported yet, or bound and report belong to one pair"""
    def spec(eng, s, env, it, carried):
        nones = [n for n, v in carried.items() if v is None or isinstance(v, Opt) and isinstance(v.val, LDict)]
        nums = [n for n, v in carried.items() if is_num(v)]
        if len(nones) != 1 or len(nums) != 1:
            return None
        F = Q.F
        arg, lo = nones[0], nums[0]

        class L(inv.Loop):
            def havoc(self, k):
                ga, gb = eng.fresh('best1', IntS), eng.fresh('best2', IntS)
                fx = [eng.fresh_fun('rep_x%d' % i, IntS, RealS) for i in (1, 2)]
                d = LDict([('x1', Seq(F.d, lambda j: fx[0](zval(j)))), ('t1', eng.fresh('rep_t1', RealS)), ('x2', Seq(F.d, lambda j: fx[1](zval(j)))), ('t2', eng.fresh('rep_t2', RealS)),
                           ('junc', F.junc), ('pos1', F.pos1), ('pos2', F.pos2)])
                d.birth = eng.new_birth()
                env.vars[arg] = Opt(eng.fresh('no_report', BoolS), d)
                env.vars[lo] = eng.fresh('lo', RealS)
                Q.cands = [(ga, gb)]

            def on_item(self, k, item, consts):
                Q.idx = getattr(Q, 'idx', []) + list(consts)
                Q.cands += [(a, b) for a in Q.idx for b in Q.idx if a is not b]

            def inv(self, k):
                isn, d = opt(env.vars[arg])
                rep = [('something is reported after the first pair', Implies(zval(k) > 0, Not(isn)))]
                if isn is True:
                    return rep
                v = env.vars[lo]
                return rep + [('the report is that of a pair of points', Or(isn, *[Q.reported(v, d, a, b) for a, b in Q.cands]))]
        return L()
    return spec


def h_points(deep):
    def h(eng, P):
        F = Frame(eng, dict(P, deep=deep))
        n1, n2 = P.get('n1'), P.get('n2')
        if n1 is None:
            n1, n2 = eng.fresh('n1', IntS), eng.fresh('n2', IntS)
            eng.assume(z3.And(n1 >= 1, n2 >= 1))
        eng.assume(And(zval(F.D1) >= 1, zval(F.G1) >= 1))
        Q = Points(eng, F, n1, n2)
        F.est.f['ratio_func'] = Builtin('ratio', Q.hook(F.ratio))
        eng.loop_hints = {'inv': inv.make(point_loop(Q))}
        eng.cover('inputs')
        r = eng.call(eng.getattr(F.est, '_get_pos_bounds'), [F.junc, F.pos1, F.pos2, Q.pts(0, n1), Q.pts(1, n2)])
        lo, up, arg = r
        isn, d = opt(arg)
        if True:
            eng.prove('with curve points a pair is reported', Not(isn))
        if d is not None:
            eng.prove('the lower bound is the ratio of the reported pair, which are two of the given points in their true places',
                      Or(isn, *[Q.reported(lo, d, a, b) for a, b in Q.cands]))
            eng.prove('the report names the junction and the positions', Or(isn, And(eng.getitem(d, 'junc') is F.junc, eng.getitem(d, 'pos1') is F.pos1, eng.getitem(d, 'pos2') is F.pos2)))
    fin = [{'dim': 1, 'div': 2, 'depth': 1, 'n1': 1, 'n2': 1}, {'dim': 1, 'div': 3, 'depth': 1, 'n1': 2, 'n2': 1}]
    return Contract('_get_pos_bounds with curve points, %s' % ('first fraction deeper' if deep else 'equal depths'), h,
                    [EST + '._get_pos_bounds', 'curves.CurvePoint.__rmul__', 'curves.CurvePoint.scale', 'subsets.Point.__rmul__'], setup, fin, timeout=20.0)


# ---- positions -----------------------------------------------------------------------------------
def sym_pos(eng, d, N, P, nm, depth=None):
    k = P.get('depth') if depth is None else depth
    if k is None:
        k = eng.fresh('depth_' + nm, IntS)
        eng.assume(k >= 1)
    cn, cu = eng.fresh_fun('cn_' + nm, IntS, IntS), eng.fresh_fun('cu_' + nm, IntS, IntS, IntS)
    cnums = SymCurve.seq(k, lambda i: cn(zval(i)))
    cubes = SymCurve.seq(k, lambda i: SymCurve.seq(d, lambda j: cu(zval(i), zval(j))))
    o = eng.call(cls_of(eng, PP), [], {'dim': d, 'div': N, 'cnums': cnums, 'cubes': cubes})
    o.ghost['sym'] = True
    return k, cn, cu, o


def tagged(o, name):
    o.f['gid'] = name
    return o


def is_(a, b):
    """the same object (substitution copies objects that carry a tag)"""
    return a is b or isinstance(a, Obj) and isinstance(b, Obj) and a.f.get('gid') is not None and a.f.get('gid') == b.f.get('gid')


def sym_div(eng, P, nm='N'):
    if P.get('div') is not None:
        return P['div']
    N = eng.fresh(nm, IntS)
    eng.assume(N >= 2)
    return N


def pos_is(eng, o, d, N, k, cn, cu):
    """o is the position with cube numbers cn(0..k-1) and cubes cu(0..k-1, .)"""
    g = lambda a: eng.getattr(o, a)
    cs, bs = g('cnums'), g('cubes')
    i = eng.fresh('lvl', IntS)
    row = lambda i: item(eng, bs, i)
    lvl = lambda i: And(eng.eq(item(eng, cs, i), cn(zval(i))), eng.eq(eng.length(row(i)), d), for_index(eng, d, lambda j: eng.eq(item(eng, row(i), j), cu(zval(i), zval(j)))))
    n1, n2 = eng.length(cs), eng.length(bs)
    if isinstance(k, int) and isinstance(n1, int) and isinstance(n2, int):
        if n1 != k or n2 != k:
            return False
        at = And(*[lvl(i) for i in range(k)])
    else:
        at = Implies(ranges((i, k)), lvl(i))
    return And(eng.eq(g('dim'), d), eng.eq(g('div'), N), eng.eq(g('depth'), k), eng.eq(n1, k), eng.eq(n2, k), at)


def h_pos(eng, P):
    d, N = sym_dim(eng, P), sym_div(eng, P)
    k, cn, cu, o = sym_pos(eng, d, N, P, 'one')
    eng.cover('inputs')
    eng.prove('a position has the given numbers and cubes', pos_is(eng, o, d, N, k, cn, cu))
    c = eng.fresh('c', IntS)
    q = sym_seq(eng, 'cube', d, IntS)
    r = eng.call(eng.getattr(o, 'specify'), [c, q])
    kk = k + 1 if isinstance(k, int) else simp(k + 1)
    eng.prove('specify adds one level at the end', pos_is(eng, r, d, N, kk, lambda i: z3.If(i == zval(k), c, cn(i)), lambda i, j: z3.If(i == zval(k), zval(item(eng, q, j)), cu(i, j))))
    eng.prove('specify leaves the position as it was', pos_is(eng, o, d, N, k, cn, cu), kind='frame')


def h_pos_eq(eng, P):
    """bounds are cached per position: equal positions have the same coordinates"""
    d, N = sym_dim(eng, P), sym_div(eng, P)
    d2, N2 = sym_dim(eng, {'dim': P.get('dim2')}, 'd2'), sym_div(eng, {'div': P.get('div2')}, 'N2')
    k, cn, cu, o = sym_pos(eng, d, N, P, 'one')
    k2, cn2, cu2, o2 = sym_pos(eng, d2, N2, P, 'two')
    e = eng.truth(eng.call(eng.getattr(o, '__eq__'), [o2]))
    i = eng.fresh('i', IntS)
    j = eng.fresh('j', IntS)
    eng.cover('inputs')
    eng.prove('equal positions are of the same grid and depth', Implies(e, And(eng.eq(N, N2), eng.eq(d, d2), eng.eq(k, k2))))
    if isinstance(k, int) and isinstance(k2, int) and k == k2:
        same = And(*[cn(z3.IntVal(t)) == cn2(z3.IntVal(t)) for t in range(k)], *[cu(z3.IntVal(t), z3.IntVal(q)) == cu2(z3.IntVal(t), z3.IntVal(q)) for t in range(k) for q in range(min(d, d2))])
    else:
        same = Implies(ranges((i, k), (j, d)), And(cn(i) == cn2(i), cu(i, j) == cu2(i, j)))
    eng.prove('equal positions have the same place in time and space', Implies(And(e, eng.eq(d, d2), eng.eq(k, k2)), same))


# ---- division of a fraction ----------------------------------------------------------------------
GD, GA, SPF = FC + '.get_deep_spec', FC + '.gen_allowed_specs', FC + '.specify'


class Fuzzy:
    """a fuzzy curve by the contracts of get_deep_spec (C06), gen_allowed_specs and specify (C10)"""
    def __init__(self, eng, P):
        self.eng, self.P = eng, P
        self.d = sym_dim(eng, P)
        self.grp = Group(eng, self.d)
        self.C = SymCurve(eng, self.grp, FC, holes=False, P=P)
        self.gb, self.pn = self.grp.fresh('deep'), eng.fresh('deep_pnum', IntS)
        eng.assume(ranges((self.pn, self.C.mult)))
        self.calls = []
        I = IntS
        self.na = eng.fresh_fun('n_allowed', I, I, I)
        self.ab = eng.fresh_fun('allowed_bm', I, I, I, self.grp.sort)
        self.ap = eng.fresh_fun('allowed_pnum', I, I, I, I)
        p, c, k = z3.Ints('p!a c!a k!a')
        m = P.get('na')
        self.m = m
        if m is None:
            eng.assume(z3.ForAll([p, c], self.na(p, c) >= 0, patterns=[self.na(p, c)]))
            eng.assume(z3.ForAll([p, c, k], z3.And(self.ap(p, c, k) >= 0, self.ap(p, c, k) < self.C.mult), patterns=[self.ap(p, c, k)]))
        else:
            for p in range(self.C.mult):
                for c in range(self.C.genus):
                    for k in range(m):
                        eng.assume(ranges((self.ap(p, c, k), self.C.mult)))
                        self.grp.elem(self.ab(p, c, k))
        eng.contracts[GA] = self.allowed
        eng.contracts[SPF] = self.spec

    def want_deep(self, pnum, n, cn):
        """get_deep_spec is asked for this address; its answer is (gb, pn)"""
        eng = self.eng

        def f(e, A):
            s = e.plain_seq(A['cnums'])
            e.prove('the orientation is asked for the pattern of the fraction', e.eq(A['pnum'], pnum))
            e.prove('the orientation is asked for the fraction one level up (length)', e.eq(e.length(s), n))
            e.prove('the orientation is asked for the fraction one level up', for_index(e, n, lambda i: e.eq(item(e, s, i), cn(zval(i)))))
            return mk_spec(e, self.gb, self.pn)
        eng.contracts[GD] = f

    def key(self, p, c):
        return zval(p), zval(c)

    def mk(self, p, c, k):
        return mk_spec(self.eng, self.grp.mk(self.ab(zval(p), zval(c), zval(k))), self.ap(zval(p), zval(c), zval(k)))

    def allowed(self, e, A):
        p, c = A['pnum'], A['cnum']
        return GenIter(SymCurve.seq(self.m if self.m is not None else self.na(zval(p), zval(c)), lambda k: self.mk(p, c, k)))

    def spec(self, e, A):
        """the curve with this spec fixed: an object that remembers what was fixed; everything else as before"""
        o = new_obj(e, cls_of(e, FC), **self.C.obj.f)
        o.f['fixed'] = (A['self'], A['pnum'], A['cnum'], A['spec'])
        return o


def fixed(eng, curve, base, p, c, g, n):
    f = curve.f.get('fixed') if isinstance(curve, Obj) else None
    if f is None:
        return False
    src, fp, fc, fs = f
    return And(is_(src, base), eng.eq(fp, p), eng.eq(fc, c), eng.getattr(fs, 'base_map').term == g, eng.eq(eng.getattr(fs, 'pnum'), n))


def h_divide(eng, P):
    """the pieces of a fraction: one for every allowed spec and every cube number, with the cube where that piece lies"""
    Z = Fuzzy(eng, P)
    C, d, grp = Z.C, Z.d, Z.grp
    k, cn, cu, o = sym_pos(eng, d, C.div, P, 'one')
    pnum = eng.fresh('pnum', IntS)
    last = cn(zval(k) - 1) if not isinstance(k, int) else cn(z3.IntVal(k - 1))
    eng.assume(ranges((pnum, C.mult), (last, C.genus)))
    up = k - 1 if isinstance(k, int) else simp(k - 1)
    Z.want_deep(pnum, up, cn)
    tagged(C.obj, 'curve')
    piece = new_obj(eng, cls_of(eng, CP), curve=C.obj, pnum=pnum, pos=o)
    eng.cover('inputs')
    it = eng.iter_of(eng.call(eng.getattr(piece, 'divide'), []))
    bag = it if isinstance(it, Bag) else eng.bag_of(it)
    c0 = eng.ite(gtr(Z.gb.term), C.genus - 1 - last, last)
    # every allowed spec and every cube number
    if P.get('na') is None:
        ws, wc = eng.fresh('w_spec', IntS), eng.fresh('w_cnum', IntS)
        eng.assume(ranges((ws, Z.na(Z.pn, c0)), (wc, C.genus)))
        targets = [(ws, wc)]
    else:
        targets = [(z3.IntVal(a), z3.IntVal(b)) for a in range(P['na']) for b in range(C.genus)]

    def right(v, a, b):
        """v is the piece number b under the a-th allowed spec"""
        g, n = Z.ab(Z.pn, c0, a), Z.ap(Z.pn, c0, a)
        f = lambda x: eng.getattr(v, x)
        ori = gmul(Z.gb.term, g)
        b0 = eng.ite(gtr(ori), C.genus - 1 - b, b)
        cube_ = grp.act(ori, C.cube_at(n, b0), lambda x: C.div - 1 - x)
        kk = k + 1 if isinstance(k, int) else simp(k + 1)
        return ('curve', And(fixed(eng, f('curve'), C.obj, Z.pn, c0, g, n), eng.eq(f('pnum'), pnum))), (
                   'place', pos_is(eng, f('pos'), d, C.div, kk, lambda i: z3.If(i == zval(k), b, cn(i)), lambda i, j: z3.If(i == zval(k), zval(item(eng, cube_, j)), cu(i, j))))
    if P.get('na') is not None:
        eng.prove('number of pieces', eng.eq(len(bag.events), len(targets)))
        evs = [eng.rename_event(ev) for ev in bag.events]
        if any(bs for bs, _, _ in evs):
            raise Unsupported('unexpected enumeration')
        for a, b in targets:
            eng.prove('a piece for every allowed spec and cube number', Or(*[And(cond, *[x for _, x in right(v, a, b)]) for _, cond, v in evs]))
        return
    hit = []
    for ev in bag.events:
        bs, cond, v = eng.rename_event(ev)
        if len(bs) != 2 or any(b.sort() != IntS for b in bs):
            raise Unsupported('unexpected enumeration')
        # binders in the order of the loops: spec, cube number
        a, b = eng.fresh('a', IntS), eng.fresh('b', IntS)
        pr = [(bs[0], a), (bs[1], b)]
        eng.assume(Implies(eng.subst(cond, pr), True))
        eng.prove('every piece is that of an allowed spec and a cube number', Implies(eng.subst(cond, pr), ranges((a, Z.na(Z.pn, c0)), (b, C.genus))))
        for what, ok in right(eng.subst(v, pr), a, b):
            eng.prove('every piece is that of an allowed spec and a cube number: ' + what, Implies(eng.subst(cond, pr), ok))
        hit.append(And(eng.subst(cond, [(bs[0], ws), (bs[1], wc)])))
    eng.prove('a piece for every allowed spec and cube number, once', Or(*hit) if len(hit) == 1 else False)
    eng.prove('division changes nothing', quiet(eng), kind='frame')


class Piece:
    """contract of _CurvePiece.divide: pieces 0..n-1, each a curve and a position"""
    def __init__(self, eng, n):
        self.eng, self.n = eng, n
        self.asked = []
        S = z3.DeclareSort('CurveOfPiece')
        self.cu, self.po = eng.fresh_fun('piece_curve', IntS, S), eng.fresh_fun('piece_pos', IntS, z3.DeclareSort('PosOfPiece'))

        def f(e, A):
            self.asked.append(A['self'])
            return GenIter(SymCurve.seq(n, self.get))
        eng.contracts[CP + '.divide'] = f

    def get(self, i):
        i = zval(i)
        return new_obj(self.eng, cls_of(self.eng, CP), curve=UObj(self.cu(i), 'FuzzyCurve', {}), pnum=0, pos=UObj(self.po(i), 'Position', {}))


def h_balanced(eng, P):
    d, N = sym_dim(eng, P), sym_div(eng, P)
    deep = P['deep']
    k2 = P.get('depth')
    if k2 is None:
        k2 = eng.fresh('depth2', IntS)
        eng.assume(k2 >= 1)
    _, _, _, p1 = sym_pos(eng, d, N, P, 'one', (k2 + 1 if isinstance(k2, int) else simp(k2 + 1)) if deep else k2)
    _, _, _, p2 = sym_pos(eng, d, N, P, 'two', k2)
    n = P.get('n')
    if n is None:
        n = eng.fresh('n', IntS)
        eng.assume(n >= 0)
    D = Piece(eng, n)
    sp1, sp2 = [new_obj(eng, cls_of(eng, SPEC), base_map=None, pnum=eng.fresh('q%d' % i, IntS)) for i in (1, 2)]
    junc = new_obj(eng, cls_of(eng, 'curves.RegularJunction'), spec1=sp1, spec2=sp2)
    cur = UObj(z3.Const('the_curve', z3.DeclareSort('CurveOfPiece')), 'FuzzyCurve', {})
    tagged(p1, 'pos1'), tagged(p2, 'pos2'), tagged(junc, 'junc')
    pair_ = new_obj(eng, cls_of(eng, PAIR), curve=cur, junc=junc, pos1=p1, pos2=p2)
    eng.cover('inputs')
    it = eng.iter_of(eng.call(eng.getattr(pair_, 'divide_balanced'), []))
    if isinstance(it, Bag):
        raise Unsupported('unexpected enumeration')
    s = eng.plain_seq(it)
    eng.prove('one fraction is divided', len(D.asked) == 1)
    for a in D.asked:
        g = lambda x: eng.getattr(a, x)
        eng.prove('the fraction with fewer levels is divided, the first one at equal depths', g('pos') is (p2 if deep else p1))
        eng.prove('in the pattern the junction names for it', eng.eq(g('pnum'), eng.getattr(sp2 if deep else sp1, 'pnum')))
        eng.prove('in the curve of the pair', g('curve') is cur)
    eng.prove('one pair for each piece', eng.eq(eng.length(s), n))
    i = eng.fresh('i', IntS)

    def ok(v, i):
        g = lambda x: eng.getattr(v, x)
        moved, kept, old = ('pos2', 'pos1', p1) if deep else ('pos1', 'pos2', p2)
        same = lambda x, t: isinstance(x, UObj) and x.term.sort() == t.sort() and x.term == t
        return And(is_(g('junc'), junc), is_(g(kept), old), same(g(moved), D.po(i)), same(g('curve'), D.cu(i)))
    if isinstance(n, int):
        eng.prove('each piece is paired with the other fraction', And(*[ok(item(eng, s, q), z3.IntVal(q)) for q in range(n)]))
    else:
        eng.prove('each piece is paired with the other fraction', Implies(ranges((i, n)), ok(item(eng, s, i), i)))


def h_first(eng, P):
    """the pair of first-order fractions of a junction"""
    Z = Fuzzy(eng, P)
    C, d = Z.C, Z.d
    q1, q2, c1, c2 = [eng.fresh(x, IntS) for x in ('q1', 'q2', 'c1', 'c2')]
    eng.assume(ranges((q1, C.mult), (q2, C.mult), (c1, C.genus), (c2, C.genus)))
    g1, g2 = Z.grp.fresh('jbm1'), Z.grp.fresh('jbm2')
    junc = new_obj(eng, cls_of(eng, 'curves.RegularJunction'), spec1=mk_spec(eng, g1, q1), spec2=mk_spec(eng, g2, q2))
    eng.cover('inputs')
    r = eng.call(eng.getattr(cls_of(eng, PAIR), 'init_first_order'), [C.obj, junc, c1, c2])
    f = lambda x: eng.getattr(r, x)
    one = lambda q, c: (lambda i: c, lambda i, j: C.cube(q, c, zval(j)))
    for nm, q, c in (('pos1', q1, c1), ('pos2', q2, c2)):
        a, b = one(q, c)
        eng.prove('init_first_order: %s is the named fraction in its place' % nm, pos_is(eng, f(nm), d, C.div, 1, a, b))
    eng.prove('init_first_order: curve and junction', And(f('curve') is C.obj, f('junc') is junc))
    eng.prove('init_first_order: depth', eng.eq(f('depth'), 1))


def h_get_bounds(eng, P):
    """_get_bounds places the curve points of the right pattern with the orientation of each fraction"""
    Z = Fuzzy(eng, P)
    C, d, grp = Z.C, Z.d, Z.grp
    N = C.div
    k1, cn1, cu1, p1 = sym_pos(eng, d, N, P, 'one')
    k2, cn2, cu2, p2 = sym_pos(eng, d, N, P, 'two')
    q1, q2 = eng.fresh('q1', IntS), eng.fresh('q2', IntS)
    eng.assume(ranges((q1, C.mult), (q2, C.mult)))
    junc = new_obj(eng, cls_of(eng, 'curves.RegularJunction'), spec1=mk_spec(eng, grp.fresh('jb1'), q1), spec2=mk_spec(eng, grp.fresh('jb2'), q2))
    pair_ = new_obj(eng, cls_of(eng, PAIR), curve=C.obj, junc=junc, pos1=p1, pos2=p2)
    gs, ns = [grp.fresh('deep1'), grp.fresh('deep2')], [eng.fresh('dp1', IntS), eng.fresh('dp2', IntS)]
    eng.assume(ranges((ns[0], C.mult), (ns[1], C.mult)))

    def deep_(e, A):
        s = e.plain_seq(A['cnums'])
        is1 = And(e.eq(A['pnum'], q1), e.eq(e.length(s), k1), for_index(e, k1, lambda i: e.eq(item(e, s, i), cn1(zval(i)))))
        is2 = And(e.eq(A['pnum'], q2), e.eq(e.length(s), k2), for_index(e, k2, lambda i: e.eq(item(e, s, i), cn2(zval(i)))))
        if e.entails(is1, 3.0):
            return mk_spec(e, gs[0], ns[0])
        e.prove('the orientations are those of the two fractions', is2)
        return mk_spec(e, gs[1], ns[1])
    eng.contracts[GD] = deep_
    np_ = P.get('np')
    X, Tm, NP = eng.fresh_fun('pt_x', IntS, IntS, IntS, RealS), eng.fresh_fun('pt_t', IntS, IntS, RealS), eng.fresh_fun('n_points', IntS, IntS)
    num = lambda p: np_ if np_ is not None else NP(p)
    if np_ is None:
        pv = z3.Int('p!np')
        eng.assume(z3.ForAll([pv], NP(pv) >= 0, patterns=[NP(pv)]))

    def pt(p, i):
        x = new_obj(eng, cls_of(eng, 'subsets.Point'), payload=SymCurve.seq(d, lambda j: X(p, zval(i), zval(j))), sym=False)
        return new_obj(eng, cls_of(eng, 'curves.CurvePoint'), x=x, t=Tm(p, zval(i)), sym=False)
    pts = Seq(C.mult, lambda p: SymCurve.seq(num(zval(p)), lambda i: pt(zval(p), i)))
    if isinstance(C.mult, int):
        pts = tuple(pts.get(q) for q in range(C.mult))
    got = {}

    def bounds(e, A):
        got.update(A)
        return ('lo', 'up', 'arg')
    eng.contracts[EST + '._get_pos_bounds'] = bounds
    est = new_obj(eng, cls_of(eng, EST), sum_stats=LDict(default=Builtin('int', lambda: 0)), max_stats=LDict())
    eng.cover('inputs')
    r = eng.call(eng.getattr(est, '_get_bounds'), [pair_], {'curve_points': pts})
    eng.prove('the bounds are those of the positions', r == ('lo', 'up', 'arg'))
    eng.prove('the bounds are asked for this pair', And(got.get('junc') is junc, got.get('pos1') is p1, got.get('pos2') is p2))
    for w, nm in ((0, 'pts1'), (1, 'pts2')):
        s = got[nm]
        eng.prove('as many points as the pattern of the fraction has', eng.eq(eng.length(s), num(ns[w]) if np_ is None else np_))
        i = eng.fresh('i', IntS)

        def ok(i, v):
            x = eng.plain_seq(eng.getattr(v, 'x'))
            src = SymCurve.seq(d, lambda j: X(ns[w], zval(i), zval(j)))
            return And(eng.eq(x, grp.act(gs[w].term, src, lambda u: 1 - u)), eng.eq(eng.getattr(v, 't'), z3.If(gtr(gs[w].term), 1 - Tm(ns[w], zval(i)), Tm(ns[w], zval(i)))))
        if np_ is not None:
            eng.prove('the points are those of the pattern of the fraction, in its orientation', And(*[ok(z3.IntVal(q), item(eng, s, q)) for q in range(np_)]))
        else:
            eng.prove('the points are those of the pattern of the fraction, in its orientation', Implies(ranges((i, NP(ns[w]))), ok(i, item(eng, s, i))))


DFIN = [{'dim': 1, 'div': 2, 'depth': 1, 'na': 1}, {'dim': 1, 'div': 2, 'depth': 2, 'na': 2, 'mult': 2}, {'dim': 2, 'div': 2, 'depth': 1, 'na': 1}]

CONTRACTS = [h_bounds(False), h_bounds(True), h_points(False), h_points(True),
    Contract('_PiecePosition', h_pos, [PP + '.__init__', PP + '.specify'], setup, [{'dim': 1, 'div': 2, 'depth': 1}, {'dim': 2, 'div': 3, 'depth': 2}]),
    Contract('_PiecePosition equality', h_pos_eq, [PP + '.__eq__', PP + '._data'], setup, [{'dim': 1, 'dim2': 1, 'depth': 1}, {'dim': 2, 'dim2': 2, 'depth': 2}]),
    Contract('_CurvePiece.divide', h_divide, [CP + '.divide', PP + '.specify', 'paths.Proto.__rmul__'], setup, DFIN, timeout=15.0),
    Contract('divide_balanced, equal depths', lambda e, P: h_balanced(e, dict(P, deep=False)), [PAIR + '.divide_balanced', PAIR + '._get_piece'], setup, [{'dim': 1, 'div': 2, 'depth': 1, 'n': 2}]),
    Contract('divide_balanced, first fraction deeper', lambda e, P: h_balanced(e, dict(P, deep=True)), [PAIR + '.divide_balanced', PAIR + '._get_piece'], setup, [{'dim': 1, 'div': 2, 'depth': 1, 'n': 2}]),
    Contract('init_first_order', h_first, [PAIR + '.init_first_order', PAIR + '.depth'], setup, [{'dim': 1, 'div': 2, 'na': 1}, {'dim': 2, 'div': 2, 'na': 1, 'mult': 2}]),
    Contract('_get_bounds', h_get_bounds, [EST + '._get_bounds', PAIR + '.get_last_specs', CP + '.get_last_spec'], setup, [{'dim': 1, 'div': 2, 'depth': 1, 'na': 1, 'np': 1}, {'dim': 2, 'div': 2, 'depth': 2, 'na': 1, 'np': 1, 'mult': 2}]),
]
