"""C10: a fuzzy curve stands for exactly the gate-compatible curves."""
import ast
from contracts.common import *
from contracts.abstract import *
from pyvc.builtins_ import GenIter
from contracts.c05 import view, shape, image_ok, MUL, FC, CV, spec_is

PF = 'curves.PathFuzzyCurve'
LK = z3.DeclareSort('GatePair')
SEEN = z3.Function('term_of_interest', CS, BoolS)      # unconstrained: offers a term to the solver


class Links:
    """gate pairs: an ordered set on which the base maps act (C18)"""
    def __init__(self, eng, grp, laws=True):
        self.eng, self.grp = eng, grp
        self.less = z3.Function('gates_less', LK, LK, BoolS) if grp.sort == GS else z3.ULT
        self.sort = LK if grp.sort == GS else z3.BitVecSort(4)        # concrete gates: two corners
        x, y, w = z3.Consts('lx ly lw', LK)
        g, h = z3.Consts('lg lh', grp.sort)
        A = z3.ForAll
        if grp.sort == GS:
            self.cact = z3.Function('cube_on_gates', CS, LK, LK)
            self.tact = z3.Function('reversed_gates', LK, LK)
        if not laws:
            pass
        elif grp.sort == GS:
            # the action, stated on the two components of a base map
            c1, c2 = z3.Consts('lc1 lc2', CS)
            eng.assume(A([x], self.cact(cone, x) == x, patterns=[self.cact(cone, x)]))
            eng.assume(A([c1, c2, x], self.cact(cmul_(c1, c2), x) == self.cact(c1, self.cact(c2, x)), patterns=[self.cact(cmul_(c1, c2), x)]))
            eng.assume(A([c1, x], self.cact(c1, self.cact(cinv_(c1), x)) == x, patterns=[self.cact(cinv_(c1), x)]))
            eng.assume(A([c1, x], self.cact(cinv_(c1), self.cact(c1, x)) == x, patterns=[self.cact(c1, x)]))
            eng.assume(A([x], self.tact(self.tact(x)) == x, patterns=[self.tact(x)]))
            eng.assume(A([c1, x], self.cact(c1, self.tact(x)) == self.tact(self.cact(c1, x)), patterns=[self.cact(c1, self.tact(x))]))
            eng.assume(A([c1, x], self.cact(c1, self.tact(x)) == self.tact(self.cact(c1, x)), patterns=[self.tact(self.cact(c1, x))]))
        self.attrs = {'__classes__': ('Link',), '__rmul__': lambda s, o: self.mk(self.of(o.term, s.term)) if isinstance(o, UObj) and o.tag == 'BaseMap' else NOTIMPL,
                      '__lt__': lambda s, o: self.less(s.term, o.term)}
        m = grp.attrs['__mul__']
        grp.attrs['__mul__'] = lambda s, o: self.mk(self.of(s.term, o.term)) if isinstance(o, UObj) and o.tag == 'Link' else m(s, o)

    def of(self, g, l):
        if self.grp.sort != GS:
            pts = []
            for h in (0, 2):
                at = lambda j: z3.If(zval(j) == 0, bit(l, h), bit(l, h + 1))
                pts.append([z3.Xor(at(gK(g, j)), gB(g, j)) if j < self.grp.d else at(j) for j in (0, 1)])
            r = gtr(g)
            (a0, a1), (b0, b1) = pts
            return pack(z3.If(r, a1, b1), z3.If(r, a0, b0), z3.If(r, b1, a1), z3.If(r, b0, a0))
        r = l
        for a, i in reversed(word(cube(g))):
            r = self.cact(cinv_(a) if i else a, r)
        t = z3.simplify(trev(g))
        return r if z3.is_false(t) else self.tact(r) if z3.is_true(t) else z3.If(t, self.tact(r), r)

    def mk(self, t):
        return UObj(t, 'Link', self.attrs)


def subgroup(eng, grp):
    """an arbitrary subgroup (the base maps allowed in the curve)"""
    H = eng.fresh_fun('allowed_map', grp.sort, BoolS)
    eng.assume(H(grp.one))

    def closed(*gs):
        """closure under products and inverses, for the elements of this argument"""
        eng.assume(And(*[Implies(H(a), H(ginv(a))) for a in gs], *[Implies(And(H(a), H(b)), H(gmul(a, b))) for a in gs for b in gs]))
    return H, closed


class Fuzzy:
    """an arbitrary fuzzy curve with fixed paths, whose tables describe the gates
    G(p): gates of pattern p;  F(p, c): gates of fraction c of pattern p"""
    def __init__(self, eng, P, holes=True, laws=True):
        I = IntS
        d = sym_dim(eng, P)
        grp = self.grp = Group(eng, d, coords=False, laws=laws)
        self.eng = eng
        L = self.L = Links(eng, grp, laws)
        self.C = C = SymCurve(eng, grp, PF, holes=holes, P=P)
        S = grp.sort
        f = eng.fresh_fun
        LS = L.sort
        self.G, self.F = f('G', I, LS), f('F', I, I, LS)
        self.lk, self.li = f('lk', I, LS), f('li', I, I, I)
        self.lidx = f('lidx', LS, I)
        self.sym, self.sidx = f('sym', I, I, S), f('sidx', I, S, I)
        self.kp, self.km, self.tidx = f('kp', I, I, I), f('km', I, I, S), f('tidx', I, I, I)
        self.rp = f('repr', I, I, S)
        self.fin = C.fin
        nl = self.nl = P.get('nl') if self.fin else eng.fresh('nl', I)
        self.ns = (lambda i: P['ns']) if self.fin else f('ns', I, I)
        self.nm = (lambda i: P['nm']) if self.fin else f('nm', I, I)
        self.H, self.closed = subgroup(eng, grp)
        mk = grp.mk
        if self.fin:
            self.tables_fin(P)
        else:
            self.tables_sym()
        seq = C.seq
        g = lambda i: eng.mklist(Seq(self.ns(zval(i)), lambda k: mk(self.sym(zval(i), zval(k))))) if not self.fin else eng.mklist([mk(self.sym(i, k)) for k in range(self.ns(i))])
        self.symms = self.dct(nl, lambda i: L.mk(self.lk(zval(i))), g, lambda key: self.lidx(key.term))
        self.stds = self.dct(nl, lambda i: L.mk(self.lk(zval(i))), self.std_of, lambda key: self.lidx(key.term))
        self.plinks = eng.mklist(self.lst(C.mult, lambda p: eng.mklist(self.lst(C.genus, lambda c: L.mk(self.lk(self.li(zval(p), zval(c))))))))
        self.preprs = eng.mklist(self.lst(C.mult, lambda p: eng.mklist(self.lst(C.genus, lambda c: mk(self.rp(zval(p), zval(c)))))))
        C.obj.f.update(links_symmetries=self.symms, links_std=self.stds, pattern_links=self.plinks, pattern_reprs=self.preprs)

    def lst(self, n, get):
        return [get(i) for i in range(n)] if isinstance(n, int) else Seq(n, get)

    def dct(self, n, kf, vf, idx):
        eng = self.eng
        if self.fin:
            d = eng.dict_from([(kf(i), vf(i)) for i in range(n)])
            return d
        d = LDict()
        d.birth = eng.new_birth()
        d.comp = (n, kf, vf)
        d.idx = idx
        return d

    def std_of(self, i):
        i_ = zval(i)
        return self.dct(self.nm(i_) if not self.fin else self.nm(i), lambda t: self.kp(i_, zval(t)), lambda t: self.grp.mk(self.km(i_, zval(t))), lambda key: self.tidx(i_, zval(key)))

    def facts(self, i=None, k=None, t=None, p=None, c=None):
        L, C = self.L, self.C
        a = lambda g, l: L.of(g, l)
        out = []
        if k is not None:
            out.append(And(self.H(self.sym(i, k)), a(self.sym(i, k), self.lk(i)) == self.lk(i), self.sidx(i, self.sym(i, k)) == k))
        if t is not None:
            out.append(And(self.H(self.km(i, t)), self.kp(i, t) >= 0, self.kp(i, t) < C.mult, a(self.km(i, t), self.G(self.kp(i, t))) == self.lk(i), self.tidx(i, self.kp(i, t)) == t))
        if c is not None:
            out.append(And(self.li(p, c) >= 0, self.li(p, c) < self.nl, self.H(self.rp(p, c)), a(self.rp(p, c), self.lk(self.li(p, c))) == self.F(p, c)))
        return And(out)

    def tables_fin(self, P):
        eng, C = self.eng, self.C
        for i in range(self.nl):
            eng.assume(self.lidx(self.lk(i)) == i)
            for k in range(P['ns']):
                self.grp.elem(self.sym(i, k))
                eng.assume(self.facts(i=i, k=k))
            for t in range(P['nm']):
                self.grp.elem(self.km(i, t))
                eng.assume(self.facts(i=i, t=t))
        for p in range(C.mult):
            for c in range(C.genus):
                self.grp.elem(self.rp(p, c))
                eng.assume(self.facts(p=p, c=c))

    def tables_sym(self):
        eng, C = self.eng, self.C
        i, k, t, p, c = z3.Ints('i!t k!t t!t p!t c!t')
        A = z3.ForAll
        ri, rk, rt = z3.And(i >= 0, i < self.nl), z3.And(k >= 0, k < self.ns(i)), z3.And(t >= 0, t < self.nm(i))
        eng.assume(self.nl >= 1)
        eng.assume(A([i], z3.Implies(ri, z3.And(self.lidx(self.lk(i)) == i, self.ns(i) >= 0, self.nm(i) >= 0)), patterns=[self.lk(i)]))
        eng.assume(A([i, k], z3.Implies(z3.And(ri, rk), self.facts(i=i, k=k)), patterns=[self.sym(i, k)]))
        eng.assume(A([i, t], z3.Implies(z3.And(ri, rt), self.facts(i=i, t=t)), patterns=[self.kp(i, t)]))
        eng.assume(A([i, t], z3.Implies(z3.And(ri, rt), self.facts(i=i, t=t)), patterns=[self.km(i, t)]))
        eng.assume(A([p, c], z3.Implies(z3.And(p >= 0, p < C.mult, c >= 0, c < C.genus), self.facts(p=p, c=c)), patterns=[self.rp(p, c)]))
        eng.assume(A([p, c], z3.Implies(z3.And(p >= 0, p < C.mult, c >= 0, c < C.genus), self.facts(p=p, c=c)), patterns=[self.li(p, c)]))

    def complete_sym(self, i, s):
        """every allowed symmetry of a standard gate pair is in the table"""
        ok = And(self.H(s), self.L.of(s, self.lk(i)) == self.lk(i), zval(i) >= 0, zval(i) < self.nl)
        self.eng.assume(Implies(ok, And(self.sidx(i, s) >= 0, self.sidx(i, s) < self.ns(i), self.sym(i, self.sidx(i, s)) == s)))

    def complete_std(self, i, g, n):
        """every pattern whose gates can be carried to a standard gate pair is in its table"""
        ok = And(self.H(g), self.L.of(g, self.G(n)) == self.lk(i), n >= 0, n < self.C.mult, zval(i) >= 0, zval(i) < self.nl)
        self.eng.assume(Implies(ok, And(self.tidx(i, n) >= 0, self.tidx(i, n) < self.nm(i), self.kp(i, self.tidx(i, n)) == n)))


def bag_of(eng, r):
    it = eng.iter_of(r)
    return eng.bag_of(it) if not isinstance(it, Bag) else it


def sp(eng, v):
    return eng.getattr(v, 'base_map').term, zval(eng.getattr(v, 'pnum'))


def pos(eng, P):
    Z = Fuzzy(eng, P)
    p, c = eng.fresh('p', IntS), eng.fresh('c', IntS)
    eng.assume(ranges((p, Z.C.mult), (c, Z.C.genus)))
    return Z, p, c


def h_group(eng, P):
    """consequences of the group laws used below"""
    grp = Group(eng, sym_dim(eng, P), coords=False)
    u, v, v2, w = [z3.Const(n, CS) for n in ('u', 'v', 'v2', 'w')]
    eng.prove('cancellation', Implies(SEEN(cmul_(cinv_(u), cmul_(u, cmul_(v, w)))), Implies(SEEN(cmul_(cmul_(v, w), cinv_(w))), Implies(SEEN(cmul_(cmul_(v2, w), cinv_(w))),
              Implies(cmul_(u, cmul_(v, w)) == cmul_(u, cmul_(v2, w)), v == v2)))))
    eng.prove('completion', cmul_(u, cmul_(cmul_(cinv_(u), cmul_(v, cinv_(w))), w)) == v)


def cancel(Z, u, v, v2, w):
    if Z.grp.sort != GS:
        return True
    u, v, v2, w = [cube(x) for x in (u, v, v2, w)]
    return Implies(cmul_(u, cmul_(v, w)) == cmul_(u, cmul_(v2, w)), v == v2)


def listed(eng, P, laws=True):
    Z = Fuzzy(eng, P, laws=laws)
    p, c = eng.fresh('p', IntS), eng.fresh('c', IntS)
    eng.assume(ranges((p, Z.C.mult), (c, Z.C.genus)))
    eng.assume(Z.C.nospec(p, c))
    bag = bag_of(eng, eng.call(eng.getattr(Z.C.obj, 'gen_allowed_specs'), [p, c]))
    return Z, p, c, bag


def inst(eng, ev, tag='w'):
    bs, cond, v = eng.rename_event(ev)
    pairs = [(b, eng.fresh(tag, b.sort())) for b in bs]
    g, n = sp(eng, eng.subst(v, pairs))
    return eng.subst(cond, pairs) if is_z3(cond) else cond, g, n, [x for _, x in pairs]


def h_allowed(eng, P):
    """soundness: every listed spec is suitable"""
    Z, p, c, bag = listed(eng, P)
    eng.cover('inputs')
    i = Z.li(p, c)
    for ev in bag.events:
        c1, g1, n1, w1 = inst(eng, ev)
        for full in factors(Z, p, c, w1) if not Z.fin else [[Z.rp(p, c), Z.sym(l, k), Z.km(l, t)] for l in range(Z.nl) for k in range(P['ns']) for t in range(P['nm'])]:
            eng.assume(Implies(And(*[Z.H(x) for x in full]), Z.H(gmul(gmul(full[0], full[1]), full[2]))))      # the allowed maps form a group
        eng.prove('a listed spec is built from allowed base maps', Implies(c1, Z.H(g1)))
        eng.prove('a listed spec carries the gates of its pattern to the gates of the fraction', Implies(c1, And(n1 >= 0, n1 < Z.C.mult, Z.L.of(g1, Z.G(n1)) == Z.F(p, c))))


def h_allowed_once(eng, P):
    Z, p, c, bag = listed(eng, P, laws=False)
    evs = list(bag.events)
    for a in range(len(evs)):
        for b in range(a, len(evs)):
            c1, g1, n1, w1 = inst(eng, evs[a])
            c2, g2, n2, w2 = inst(eng, evs[b])
            same = And(c1, c2, g1 == g2, n1 == n2)
            for f1, f2 in zip(factors(Z, p, c, w1), factors(Z, p, c, w2)):
                eng.assume(cancel(Z, f1[0], f1[1], f2[1], f1[2]))
            goal = And(*[x == y for x, y in zip(w1, w2)]) if a == b else False
            eng.prove('no spec is listed twice', Implies(same, goal))


def h_allowed_all(eng, P, stage=1):
    """completeness: every suitable spec is listed; the second stage uses what the first one proves"""
    Z, p, c, bag = listed(eng, P, laws=stage == 1)
    C, L = Z.C, Z.L
    i = Z.li(p, c)
    g, n = grp_el(eng, Z), eng.fresh('n', IntS)
    eng.assume(And(Z.H(g), n >= 0, n < C.mult, L.of(g, Z.G(n)) == Z.F(p, c)))
    r = Z.rp(p, c)
    t = Z.tidx(i, n)
    m = Z.km(i, t)
    h = gmul(ginv(r), g)                    # carries G(n) to the standard gates
    s = gmul(h, ginv(m))
    eng.assume(And(Implies(And(Z.H(r), Z.H(g)), Z.H(h)), Implies(And(Z.H(h), Z.H(m)), Z.H(s))))     # the allowed maps form a group
    Z.complete_std(i, h, n)
    Z.complete_sym(i, s)
    k = Z.sidx(i, s)
    both = And(t >= 0, t < Z.nm(i), Z.kp(i, t) == n)
    if stage == 1:
        eng.prove('lemma: the pattern is in the table of the standard gates', both, kind='lemma')
    eng.assume(both)
    both = And(k >= 0, k < Z.ns(i), Z.sym(i, k) == s)
    if stage == 1:
        eng.prove('lemma: the remaining factor is a symmetry of the standard gates', both, kind='lemma')
        return
    eng.assume(both)
    back = gmul(gmul(r, Z.sym(i, k)), m) == g
    if Z.grp.sort == GS:
        u, v, w = cube(r), cube(g), cube(m)
        eng.assume(cmul_(u, cmul_(cmul_(cinv_(u), cmul_(v, cinv_(w))), w)) == v)        # group lemma 'completion'
    eng.prove('lemma: the three factors give back the map', back, kind='lemma')
    eng.assume(back)
    alts = []
    for ev in bag.events:
        bs, cond, v = eng.rename_event(ev)
        for ws in witness_orders(bs, [t, k]):
            pairs = list(zip(bs, ws))
            gg, nn = sp(eng, eng.subst(v, pairs))
            alts.append(And(eng.subst(cond, pairs), gg == g, nn == n))
    eng.prove('every suitable base map and pattern is listed', Or(*alts))


def witness_orders(bs, ws):
    if not bs:
        return [[]]
    if len(bs) != len(ws):
        return []
    return [ws, ws[::-1]]


def factors(Z, p, c, w):
    """the factors of a listed map, for either nesting of the two loops"""
    i = Z.li(p, c)
    return [[Z.rp(p, c), Z.sym(i, w[1]), Z.km(i, w[0])], [Z.rp(p, c), Z.sym(i, w[0]), Z.km(i, w[1])]] if len(w) == 2 else []


def grp_el(eng, Z):
    return Z.grp.fresh('g').term


def h_allowed_defined(eng, P):
    Z, p, c = pos(eng, P)
    C = Z.C
    eng.assume(Not(C.nospec(p, c)))
    it = eng.iter_of(eng.call(eng.getattr(C.obj, 'gen_allowed_specs'), [p, c]))
    eng.prove('a fixed fraction allows exactly one spec', eng.eq(eng.length(it), 1))
    g, n = sp(eng, item(eng, it, 0))
    eng.prove('which is the one fixed', And(g == C.sbm(p, c), n == C.spn(p, c)))


def carried(eng, Z, R, p, c, p0, c0, who, conj):
    """specs allowed in the image at (p, c) are the images of those allowed in the original at (p0, c0)"""
    C = Z.C
    eng.assume(C.nospec(p0, c0))
    B0 = bag_of(eng, eng.call(eng.getattr(C.obj, 'gen_allowed_specs'), [p0, c0]))
    B1 = bag_of(eng, eng.call(eng.getattr(R, 'gen_allowed_specs'), [p, c]))
    if len(B0.events) != len(B1.events):
        if all(not e.binders for e in B0.events + B1.events):
            eng.prove('%s: number of allowed specs' % who, False)
        raise Unsupported('lists of different structure')
    for e0, e1 in zip(B0.events, B1.events):
        b0, k0, v0 = eng.rename_event(e0)
        b1, k1, v1 = eng.rename_event(e1)
        if len(b0) != len(b1):
            raise Unsupported('lists of different structure')
        pairs = list(zip(b1, b0))
        k1, v1 = eng.subst(k1, pairs) if is_z3(k1) else k1, eng.subst(v1, pairs)
        g0, n0 = sp(eng, v0)
        g1, n1 = sp(eng, v1)
        if Z.grp.sort == GS:
            w = conj(g0)
            same = And(cube(g1) == cube(w), trev(g1) == trev(w))
        else:
            same = g1 == conj(g0)
        eng.prove('%s: as many specs' % who, And(Implies(k0, k1), Implies(k1, k0)))
        eng.prove('%s: every allowed spec of the image is the image of an allowed spec' % who, Implies(k0, And(same, n0 == n1)))


def h_reversed(eng, P):
    Z, p, c = pos(eng, P)
    C = Z.C
    R = invert(eng, C.obj)
    c0 = C.genus - 1 - c
    if C.fin:
        c0 = index(eng, c0, C.genus)
    eng.assume(C.nospec(p, c0))
    carried(eng, Z, R, p, c, p, c0, '~fuzzy', lambda g: g)
    eng.prove('~fuzzy: shape and selected pattern', shape(eng, R, C, C.pnum))
    eng.prove('~fuzzy: the original is not changed', quiet(eng), kind='frame')


def index(eng, t, n):
    return t


def h_mapped(eng, P):
    Z, p, c = pos(eng, P)
    C = Z.C
    g = Z.grp.fresh('g')
    R = eng.call(eng.getattr(C.obj, '_apply_cube_map'), [Z.grp.mk(gcm(g.term))])
    m = gcm(g.term)
    carried(eng, Z, R, p, c, p, c, 'cube map * fuzzy', lambda h: gmul(gmul(m, h), ginv(m)))
    eng.prove('cube map * fuzzy: shape and selected pattern', shape(eng, R, C, C.pnum))
    eng.prove('cube map * fuzzy: the original is not changed', quiet(eng), kind='frame')


def h_fixed_image(eng, P):
    """fractions that are already fixed stay fixed, as for curves (C05)"""
    Z, p, c = pos(eng, P)
    C = Z.C
    g = Z.grp.fresh('g')
    R = eng.binop(MUL, g, C.obj)
    c0 = eng.ite(gtr(g.term), C.genus - 1 - c, c)
    cn, cube_, sn, bm, pn = view(eng, R, p, c)
    eng.prove('bm * fuzzy: a fraction is fixed exactly if its original is', eng.eq(sn, C.nospec(p, c0)))
    if bm is not None:
        eng.prove('bm * fuzzy: orientation of a fixed fraction', Implies(Not(sn), gmul(bm.term, g.term) == gmul(g.term, C.sbm(p, c0))))
        eng.prove('bm * fuzzy: pattern of a fixed fraction', Implies(Not(sn), eng.eq(pn, C.spn(p, c0))))
    eng.prove('bm * fuzzy: shape and selected pattern', shape(eng, R, C, C.pnum))


# ---- possible curves: against the contract of gen_allowed_specs -------------------------------------------------
class Choices:
    """the list of allowed specs of every fraction, by the contract of gen_allowed_specs"""
    def __init__(self, eng, P):
        d = sym_dim(eng, P)
        self.grp = grp = Group(eng, d, coords=False, laws=False)
        self.eng = eng
        self.C = C = SymCurve(eng, grp, PF, holes=True, P=P)
        I = IntS
        C.obj.f.update(links_symmetries=UObj(eng.fresh('links_symmetries', LK), 'table', {}), links_std=UObj(eng.fresh('links_std', LK), 'table', {}), pattern_links=UObj(eng.fresh('pattern_links', LK), 'table', {}), pattern_reprs=UObj(eng.fresh('pattern_reprs', LK), 'table', {}))
        self.fin = C.fin
        self.cnt = (lambda p, c: P['nc']) if self.fin else eng.fresh_fun('count', I, I, I)
        self.abm, self.apn = eng.fresh_fun('choice_map', I, I, I, grp.sort), eng.fresh_fun('choice_pattern', I, I, I, I)

        def contract(e, A):
            p, c = A['pnum'], A['cnum']
            if not self.fin:
                e.assume(self.cnt(zval(p), zval(c)) >= 0)
            one = Not(C.nospec(zval(p), zval(c)))
            n = self.cnt(zval(p), zval(c))
            if e.branch(one):
                return e.mklist([C.spec_at(zval(p), zval(c))])
            return e.mklist([self.choice(p, c, k) for k in range(n)] if self.fin else Seq(n, lambda k: self.choice(p, c, k)))
        eng.contracts[PF + '.gen_allowed_specs'] = contract

    def choice(self, p, c, k):
        return mk_plain(self.eng, self.grp, self.abm(zval(p), zval(c), zval(k)), self.apn(zval(p), zval(c), zval(k)))

    def count(self, p, c):
        return z3.If(self.C.nospec(p, c), zval(self.cnt(p, c)), 1)


def mk_plain(e, grp, g, n):
    bm = grp.mk(g)
    return new_obj(e, cls_of(e, SPEC), base_map=bm, pnum=n, _key=(bm, n), _hash=HashVal((bm, n)))


def h_specify(eng, P):
    Q = Choices(eng, P)
    C = Q.C
    p, c = eng.fresh('p', IntS), eng.fresh('c', IntS)
    q, e = eng.fresh('q', IntS), eng.fresh('e', IntS)
    eng.assume(ranges((p, C.mult), (c, C.genus), (q, C.mult), (e, C.genus)))
    g, n = Q.grp.fresh('g').term, eng.fresh('n', IntS)
    s = mk_plain(eng, Q.grp, g, n)
    fixed = Not(C.nospec(p, c))
    k = z3.Int('k!s')
    if Q.fin:
        free = Or(*[And(Q.abm(p, c, j) == g, Q.apn(p, c, j) == n) for j in range(P['nc'])])
    else:
        free = z3.Exists([k], z3.And(k >= 0, k < Q.cnt(p, c), Q.abm(p, c, k) == g, Q.apn(p, c, k) == n))
    ok = Or(And(fixed, C.sbm(p, c) == g, C.spn(p, c) == n), And(Not(fixed), free))
    eng.cover('inputs')
    try:
        R = eng.call(eng.getattr(C.obj, 'specify'), [p, c, s])
    except PyRaise as ex:
        eng.prove('specify refuses with ValueError', 'ValueError' in str(ex.exc))
        eng.prove('specify refuses only what is not allowed', Not(ok))
        return
    eng.prove('specify accepts only what is allowed', ok)
    cn, cube_, sn, bm, pn = view(eng, R, q, e)
    here = And(q == p, e == c)
    eng.prove('specify: this fraction is fixed', Implies(here, Not(sn)))
    if bm is not None:
        eng.prove('specify: to this spec', Implies(here, And(bm.term == g, eng.eq(pn, n))))
        eng.prove('specify: other fractions keep their spec', Implies(And(Not(here), Not(sn)), And(bm.term == C.sbm(q, e), eng.eq(pn, C.spn(q, e)))))
    eng.prove('specify: other fractions stay fixed or free', Implies(Not(here), eng.eq(sn, C.nospec(q, e))))
    eng.prove('specify: cubes are kept', And(eng.eq(cn, C.nocube(q, e)), Implies(Not(cn), eng.eq(eng.plain_seq(cube_), C.cube_at(q, e))) if cube_ is not None else True))
    eng.prove('specify: shape and selected pattern', shape(eng, R, C, C.pnum))
    for t in ('links_symmetries', 'links_std', 'pattern_links', 'pattern_reprs'):
        eng.prove('specify: the tables of gates are kept', R.f.get(t) is C.obj.f[t])
    eng.prove('specify: the original is not changed', quiet(eng), kind='frame')


def h_count(eng, P):
    Q = Choices(eng, P)
    C = Q.C
    if Q.fin:
        r = eng.call(eng.getattr(C.obj, 'count_possible_curves'), [])
        want = 1
        for p in range(C.mult):
            for c in range(C.genus):
                want = want * Q.count(p, c)
        eng.prove('count_possible_curves is the product of the numbers of choices', eng.eq(r, want))
        return
    I = IntS
    PR = eng.fresh_fun('product', I, I, I)
    p, c = z3.Ints('p!p c!p')
    eng.assume(PR(0, 0) == 1)
    eng.assume(z3.ForAll([p, c], z3.Implies(z3.And(p >= 0, p < C.mult, c >= 0, c < C.genus), PR(p, c + 1) == z3.If(C.nospec(p, c), PR(p, c) * Q.cnt(p, c), PR(p, c))), patterns=[PR(p, c)]))
    eng.assume(z3.ForAll([p], z3.Implies(z3.And(p >= 0, p < C.mult), PR(p + 1, 0) == PR(p, C.genus)), patterns=[PR(p, zval(C.genus))]))

    def hint(e, name, init, it):
        if not is_num(init):
            return None
        z = zval(init)
        if z3.is_app(z) and z.decl().eq(PR(z3.IntVal(0), z3.IntVal(0)).decl()) and z.arg(1).eq(z3.IntVal(0)):
            return lambda i: PR(z.arg(0), zval(i))
        if isinstance(init, int) and init == 1:
            return lambda i: PR(zval(i), z3.IntVal(0))
        return None
    eng.loop_hints = {'for': [hint]}
    r = eng.call(eng.getattr(C.obj, 'count_possible_curves'), [])
    eng.prove('count_possible_curves is the product of the numbers of choices', eng.eq(r, PR(zval(C.mult), 0)))


# ---- all compatible curves ------------------------------------------------------------------------------------------
class OpenChoices(Choices):
    """a curve of concrete shape, any number of allowed specs in every fraction"""
    def __init__(self, eng, P, holes=False):
        super().__init__(eng, P)
        C = self.C
        self.num = eng.fresh_fun('how_many', IntS, IntS, IntS)
        for p in range(C.mult):
            for c in range(C.genus):
                eng.assume(self.num(p, c) >= (1 if holes else 0))
                if not holes:
                    eng.assume(Not(C.nocube(p, c)))

        def contract(e, A):
            p, c = A['pnum'], A['cnum']
            e.prove('allowed specs are asked for fractions that exist', And(zval(p) >= 0, zval(p) < C.mult, zval(c) >= 0, zval(c) < C.genus))
            return GenIter(Seq(self.num(p, c), lambda k: self.choice(p, c, k)))
        eng.contracts[PF + '.gen_allowed_specs'] = contract

    def position(self, bm, p, c):
        """k when the spec is visibly the k-th choice of fraction (p, c)"""
        t = bm.term
        w = self.abm(z3.IntVal(p), z3.IntVal(c), z3.IntVal(0))
        if t.decl().eq(w.decl()) and t.num_args() == 3 and t.arg(0).eq(w.arg(0)) and t.arg(1).eq(w.arg(1)):
            return t.arg(2)
        return None


def h_possible(eng, P):
    Q = OpenChoices(eng, P)
    C = Q.C
    fr = [(p, c) for p in range(C.mult) for c in range(C.genus)]
    eng.cover('inputs')
    out = eng.call(eng.getattr(C.obj, 'gen_possible_curves'), [])
    W = {f: eng.fresh('w', IntS) for f in fr}
    eng.assume(And(*[And(W[f] >= 0, W[f] < Q.num(*f)) for f in fr]))
    tot = z3.IntVal(0)
    for ev in eng.bag_of(out).events:
        bs, c, R = eng.rename_event(ev)
        pos = {}
        pats = eng.plain_seq(eng.getattr(R, 'patterns'))
        if len(pats) != C.mult or any(eng.length(eng.getattr(x, k)) != C.genus for x in pats for k in ('proto', 'specs')):
            eng.prove('a possible curve has all patterns and fractions', Not(c))
            return
        for f in fr:
            cn, cube, sn, bm, pn = view(eng, R, *f)
            k = Q.position(bm, *f) if bm is not None else None
            if k is None:
                eng.prove('every fraction of a possible curve has one of its allowed specs', Not(c))
                return
            pos[f] = k
            eng.prove('every fraction of a possible curve has one of its allowed specs', Implies(c, And(Not(sn), k >= 0, k < Q.num(*f), eng.eq(pn, Q.apn(f[0], f[1], k)))))
            eng.prove('the cubes are those of the fuzzy curve', Implies(c, And(Not(cn), eng.eq(eng.plain_seq(cube), C.cube_at(*f)))))
        eng.prove('shape and selected pattern of a possible curve', Implies(c, And(shape(eng, R, C, C.pnum), R.cls is cls_of(eng, CV))))
        ix = [pos[f] for f in fr]
        if bs:
            if sorted(b.get_id() for b in bs) != sorted(i.get_id() for i in ix) or len({b.get_id() for b in bs}) != len(fr):
                raise Unsupported('unexpected enumeration')
            hit = eng.subst(zval(c), [(pos[f], W[f]) for f in fr])
        else:
            hit = And(c, *[pos[f] == W[f] for f in fr])
        tot = tot + z3.If(zval(hit), 1, 0)
    eng.prove('every combination of allowed specs is generated once', tot == 1)


def h_example(eng, P):
    Q = OpenChoices(eng, P, holes=True)
    C = Q.C
    eng.cover('inputs')
    R = eng.call(eng.getattr(C.obj, 'get_curve_example'), [])
    for p in range(C.mult):
        for c in range(C.genus):
            cn, cube, sn, bm, pn = view(eng, R, p, c)
            if bm is None:
                eng.prove('the example is fully specified', False)
                continue
            eng.prove('the example is fully specified', Not(sn))
            k = Q.position(bm, p, c)
            free = C.nospec(p, c)
            eng.prove('fixed fractions keep their spec', Implies(Not(free), And(bm.term == C.sbm(p, c), eng.eq(pn, C.spn(p, c)))))
            cand = [k] if k is not None else []
            at0 = And(bm.term == Q.abm(p, c, 0), eng.eq(pn, Q.apn(p, c, 0)))
            eng.prove('free fractions get an allowed spec', Implies(free, Or(at0, *[And(x >= 0, x < Q.num(p, c), eng.eq(pn, Q.apn(p, c, x))) for x in cand])))
            eng.prove('cubes are kept', And(eng.eq(cn, C.nocube(p, c)), Implies(Not(cn), eng.eq(eng.plain_seq(cube), C.cube_at(p, c))) if cube is not None else True))
    eng.prove('shape and selected pattern', shape(eng, R, C, C.pnum))
    eng.prove('the original is not changed', quiet(eng), kind='frame')


def h_defined(eng, P):
    Q = Choices(eng, P)
    C = Q.C
    out = eng.call(eng.getattr(C.obj, 'gen_defined_specs'), [])
    p0, c0 = eng.fresh('p', IntS), eng.fresh('c', IntS)
    eng.assume(ranges((p0, C.mult), (c0, C.genus)))
    tot = z3.IntVal(0)
    for ev in eng.bag_of(out).events:
        bs, c, v = eng.rename_event(ev)
        v = eng.plain_seq(v)
        none, sp = opt(v[2])
        eng.prove('only specs are listed', Implies(c, Not(none)))
        eng.prove('a listed spec is the spec of its fraction', Implies(c, And(eng.eq(eng.getattr(sp, 'pnum'), C.spn(zval(v[0]), zval(v[1]))), eng.getattr(sp, 'base_map').term == C.sbm(zval(v[0]), zval(v[1])), ranges((zval(v[0]), C.mult), (zval(v[1]), C.genus)), Not(C.nospec(zval(v[0]), zval(v[1]))))))
        if bs:
            if len(bs) != 2 or not zval(v[0]).eq(bs[0]) or not zval(v[1]).eq(bs[1]):
                raise Unsupported('unexpected enumeration')
            hit = eng.subst(zval(c), [(bs[0], p0), (bs[1], c0)])
        else:
            hit = And(c, eng.eq(v[0], p0), eng.eq(v[1], c0))
        tot = tot + z3.If(zval(hit), 1, 0)
    eng.prove('every fixed fraction is listed once, no other', tot == z3.If(C.nospec(p0, c0), 0, 1))


# ---- construction from pointed paths ----------------------------------------------------------------------------
class Maps:
    """the given group of base maps as a list; H: membership (after the time reversal option)"""
    def __init__(self, eng, grp, no_rev, P):
        self.eng, self.grp = eng, grp
        self.fin = isinstance(grp.d, int)
        if self.fin:
            self.no_rev = no_rev
            self.ng = len(P['group'])
            self.list = [z3.BitVecVal(x, 4) for x in P['group']]
            self.H0 = lambda g: Or(*[g == x for x in self.list])
            return
        self.ng = eng.fresh('group_size', IntS)
        self.gs = eng.fresh_fun('gs', IntS, grp.sort)
        self.H0 = eng.fresh_fun('given_map', grp.sort, BoolS)
        self.gi = eng.fresh_fun('gi', grp.sort, IntS)
        self.no_rev = no_rev
        k = z3.Int('k!g')
        g = z3.Const('g!g', grp.sort)
        eng.assume(self.ng >= 1)
        eng.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < self.ng), self.H0(self.gs(k))), patterns=[self.gs(k)]))
        eng.assume(z3.ForAll([g], z3.Implies(self.H0(g), z3.And(self.gi(g) >= 0, self.gi(g) < self.ng, self.gs(self.gi(g)) == g)), patterns=[self.H0(g)]))
        eng.assume(self.H0(grp.one))

    def H(self, g):
        return And(self.H0(g), Not(gtr(g))) if self.no_rev else self.H0(g)

    def closed(self, *gs):
        H = self.H0
        self.eng.assume(And(*[Implies(H(a), H(ginv(a))) for a in gs], *[Implies(And(H(a), H(b)), And(H(gmul(a, b)), H(gmul(a, ginv(b))), H(gmul(ginv(a), b)))) for a in gs for b in gs]))

    def arg(self):
        if self.fin:
            return self.eng.mklist([self.grp.mk(x) for x in self.list])
        return self.eng.mklist(Seq(self.ng, lambda k: self.grp.mk(self.gs(zval(k)))))


def h_least(eng, P):
    """lemma: the least element of an orbit is the same for all gate pairs of the orbit"""
    grp = Group(eng, sym_dim(eng, P), coords=False)
    L = Links(eng, grp)
    H = eng.fresh_fun('H', grp.sort, BoolS)
    x, r1, r2 = z3.Consts('x r1 r2', LK)
    m, g1, g2 = [grp.fresh(n).term for n in ('m', 'g1', 'g2')]
    y = L.of(m, x)
    eng.assume(Or(L.less(r1, r2), L.less(r2, r1), r1 == r2))
    eng.assume(And(H(m), H(g1), H(g2)))
    u, v = gmul(g1, ginv(m)), gmul(g2, m)
    eng.assume(And(H(u), H(v)))                            # H is a group
    eng.assume(And(r1 == L.of(g1, x), r2 == L.of(g2, y)))  # members of the two orbits
    # minimality of r2 in the orbit of y (at u) and of r1 in the orbit of x (at v)
    eng.assume(And(Not(L.less(L.of(u, y), r2)), Not(L.less(L.of(v, x), r1))))
    eng.prove('lemma: r1 is in the orbit of y', L.of(u, y) == r1, kind='lemma')
    eng.assume(L.of(u, y) == r1)
    eng.prove('lemma: r2 is in the orbit of x', L.of(v, x) == r2, kind='lemma')
    eng.assume(L.of(v, x) == r2)
    eng.prove('equal least elements', r1 == r2)


def find_app(t, pred):
    if pred(t):
        return t
    for k in range(t.num_args()) if z3.is_app(t) else ():
        r = find_app(t.arg(k), pred)
        if r is not None:
            return r
    return None


def h_from_paths(eng, P, n=1, no_rev=False):
    d = sym_dim(eng, P)
    grp = Group(eng, d, coords=False, laws=False)
    L = Links(eng, grp)
    M = Maps(eng, grp, no_rev, P)
    fin = M.fin
    LS = L.sort
    LEAST = eng.fresh_fun('least_of_orbit', LS, LS)
    if fin:
        def LEAST(x):
            r = None
            for g in M.list:
                if no_rev and z3.is_true(z3.simplify(gtr(g))):
                    continue
                y = L.of(g, x)
                r = y if r is None else z3.If(z3.ULT(y, r), y, r)
            return z3.simplify(r)

    def least(e, name, bag):
        """min over the orbit of a gate pair: a member of the orbit, canonical by the lemma"""
        if name != 'min' or len(bag.events) != 1:
            raise Unsupported('%s of gate pairs' % name)
        bs, cond, v = e.rename_event(bag.events[0])
        if len(bs) != 1 or not isinstance(v, UObj) or v.tag != 'Link':
            raise Unsupported('min of a collection that is not an orbit')
        k = bs[0]
        app = find_app(v.term, lambda t: is_app(t, L.cact) and t.arg(0).eq(cube(M.gs(k))))
        if app is None or not z3.simplify(L.of(M.gs(k), app.arg(1))).eq(z3.simplify(v.term)):
            raise Unsupported('min of a collection that is not an orbit')
        rng = And(k >= 0, k < M.ng, M.H(M.gs(k)))
        if not e.entails(ForAll([k], cond == rng), 4.0):
            raise Unsupported('min over a part of an orbit')
        r = LEAST(app.arg(1))
        j = e.fresh('arg', IntS)
        e.assume(And(j >= 0, j < M.ng, M.H(M.gs(j)), r == L.of(M.gs(j), app.arg(1)), M.H(ginv(M.gs(j))), app.arg(1) == L.of(ginv(M.gs(j)), r)))
        return L.mk(r)
    if fin:
        div, genus = P['div'], P['div'] ** d
    else:
        eng.minmax_hook = least
        genus = eng.fresh('genus', IntS)
        div = eng.fresh('div', IntS)
        eng.assume(And(genus >= 2, div >= 2, zval(eng.power(div, d)) == genus))
    G, F = eng.fresh_fun('G', IntS, LS), eng.fresh_fun('F', IntS, IntS, LS)
    seq = SymCurve.seq
    tg = eng.fresh_fun('target', IntS, IntS, IntS)
    cub = eng.fresh_fun('cube', IntS, IntS, IntS, IntS)
    paths = []
    cc = z3.Int('c!f')
    for p in range(n):
        # precondition: the gates of every fraction are an allowed image of the gates of a pattern (so the least elements agree)
        good = lambda c: z3.And(tg(p, c) >= 0, tg(p, c) < n, LEAST(F(p, c)) == LEAST(G(tg(p, c))))
        if fin:
            eng.assume(And(*[good(c) for c in range(genus)]))
        else:
            eng.assume(z3.ForAll([cc], z3.Implies(z3.And(cc >= 0, cc < genus), good(cc)), patterns=[F(p, cc)]))
        proto = new_obj(eng, cls_of(eng, 'paths.Proto'), payload=seq(genus, lambda c, p=p: seq(d, lambda j: cub(p, zval(c), zval(j)))), dim=d, div=div)
        paths.append(new_obj(eng, cls_of(eng, 'paths.Path'), proto=proto, dim=d, div=div, links=seq(genus, lambda c, p=p: L.mk(F(p, zval(c)))), link=L.mk(G(z3.IntVal(p)))))
    f = eng.getattr(cls_of(eng, PF), 'init_from_paths')
    c = eng.fresh('c', IntS)
    eng.assume(ranges((c, genus)))
    eng.cover('inputs')
    R = eng.call(f, [tuple(paths)], {'base_maps_group': M.arg(), 'disable_time_rev': no_rev})
    std, syms = eng.getattr(R, 'links_std'), eng.getattr(R, 'links_symmetries')
    h = grp.fresh('h')
    for p in range(n):
        key = L.mk(LEAST(G(z3.IntVal(p))))
        ent = eng.getitem(std, key)
        for q in range(n):
            has = eng.truth(eng.contains(ent, q))
            agree = LEAST(G(z3.IntVal(q))) == key.term
            eng.prove('the table of a standard gate pair lists exactly the patterns of that type', And(Implies(has, agree), Implies(agree, has)))
        m = eng.getitem(ent, p).term
        eng.prove('with an allowed map to the standard gates', And(M.H(m), L.of(m, G(z3.IntVal(p))) == key.term))
        sy = eng.getitem(syms, key)
        want = And(M.H(h.term), L.of(h.term, key.term) == key.term)
        has = eng.truth(eng.contains(sy, h))
        eng.prove('listed symmetries fix the standard gates', Implies(has, want))
        eng.prove('every allowed map that fixes the standard gates is listed', Implies(want, has))
        pl, pr = eng.getattr(R, 'pattern_links'), eng.getattr(R, 'pattern_reprs')
        l, r = item(eng, item(eng, pl, p), c).term, item(eng, item(eng, pr, p), c).term
        eng.prove('the type of a fraction', l == LEAST(F(p, c)))
        eng.prove('with an allowed map from the standard gates to the gates of the fraction', And(M.H(r), L.of(r, l) == F(p, c)))
        pat = item(eng, eng.getattr(R, 'patterns'), p)
        sn, _ = opt(item(eng, eng.getattr(pat, 'specs'), c))
        eng.prove('no spec is fixed', sn)
        eng.prove('the prototypes of the paths', eng.eq(eng.plain_seq(item(eng, eng.getattr(pat, 'proto'), c)), seq(d, lambda j: cub(p, c, zval(j)))))
        eng.prove('sizes', And(eng.eq(eng.length(item(eng, pl, p)), genus), eng.eq(eng.length(item(eng, pr, p)), genus), eng.eq(eng.length(eng.getattr(pat, 'specs')), genus)))
    eng.prove('shape', And(eng.eq(eng.length(eng.getattr(R, 'patterns')), n), eng.eq(eng.getattr(R, 'dim'), d), eng.eq(eng.getattr(R, 'div'), div), eng.eq(eng.getattr(R, 'pnum'), 0)))
    eng.prove('the paths are not changed', quiet(eng), kind='frame')


FIN = [{'dim': 1, 'div': 2, 'mult': 1, 'nl': 1, 'ns': 2, 'nm': 1, 'nc': 2}, {'dim': 1, 'div': 3, 'mult': 2, 'nl': 2, 'ns': 1, 'nm': 2, 'nc': 2}, {'dim': 2, 'div': 2, 'mult': 1, 'nl': 1, 'ns': 2, 'nm': 1, 'nc': 1}]
IFIN = [{'dim': 1, 'div': 2, 'group': [0, 2]}, {'dim': 1, 'div': 2, 'group': [0, 1]}, {'dim': 2, 'div': 1, 'group': [0, 9]}, {'dim': 2, 'div': 1, 'group': [0, 10, 6, 12]}, {'dim': 1, 'div': 1, 'group': [0, 1, 2, 3]}]
CONTRACTS = [
    Contract('group lemmas', h_group, [], setup),
    Contract('gen_allowed_specs: sound', h_allowed, [PF + '.gen_allowed_specs'], setup, FIN, timeout=20.0),
    Contract('gen_allowed_specs: no repetition', h_allowed_once, [PF + '.gen_allowed_specs'], setup, FIN, timeout=20.0),
    Contract('gen_allowed_specs: factors of a suitable map', h_allowed_all, [PF + '.gen_allowed_specs'], setup, timeout=20.0),
    Contract('gen_allowed_specs: complete', lambda e, P: h_allowed_all(e, P, 2), [PF + '.gen_allowed_specs'], setup, FIN, timeout=20.0),
    Contract('gen_allowed_specs of a fixed fraction', h_allowed_defined, [PF + '.gen_allowed_specs'], setup, FIN),
    Contract('~fuzzy curve', h_reversed, [PF + '.__invert__', PF + '._changed', PF + '.__init__', PF + '.gen_allowed_specs'], setup, FIN, timeout=20.0),
    Contract('cube map * fuzzy curve', h_mapped, [PF + '._apply_cube_map', PF + '._changed', PF + '.gen_allowed_specs'], setup, FIN, timeout=20.0),
    Contract('fixed fractions of bm * fuzzy curve', h_fixed_image, [PF + '._apply_cube_map', PF + '.__invert__', FC + '.__rmul__'], setup, FIN, timeout=20.0),
    Contract('specify', h_specify, [FC + '.specify', FC + '._specify_allowed', PF + '._changed'], setup, FIN, timeout=20.0),
    Contract('count_possible_curves', h_count, [FC + '.count_possible_curves'], setup, FIN, timeout=20.0),
    Contract('gen_defined_specs', h_defined, [FC + '.gen_defined_specs'], setup, FIN, timeout=20.0),
] + [
    Contract('%s (%d pattern%s of %d fractions)' % (nm, m, 's' * (m > 1), div ** dim), fn, [FC + '.' + nm], setup, params={'dim': dim, 'div': div, 'mult': m, 'nc': 1}, timeout=20.0)
    for nm, fn in (('gen_possible_curves', h_possible), ('get_curve_example', h_example)) for dim, div, m in ((1, 2, 1), (1, 3, 1), (2, 2, 1), (1, 2, 2), (1, 2, 3))
] + [
    Contract('least element of an orbit', h_least, [], setup),
    Contract('init_from_paths (1 pattern)', h_from_paths, [PF + '.init_from_paths'], setup, IFIN, timeout=20.0),
    Contract('init_from_paths (1 pattern, no time reversal)', lambda e, P: h_from_paths(e, P, 1, True), [PF + '.init_from_paths'], setup, IFIN, timeout=20.0),
    Contract('init_from_paths (2 patterns)', lambda e, P: h_from_paths(e, P, 2), [PF + '.init_from_paths'], setup, [], timeout=20.0),
]
