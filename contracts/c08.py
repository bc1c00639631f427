"""C08: junction enumeration is complete, minimal-depth and standardised."""
import ast
from contracts.common import *
from contracts.abstract import *
from contracts.c05 import view, begin, MUL, FC, CV
from contracts import inv

RJ = 'curves.RegularJunction'


def vec(eng, grp, g, v):
    return grp.act(g, v, lambda x: -x)


def neg(eng, grp, v):
    return Seq(grp.d, lambda j: -v.get(j)) if isinstance(v, Seq) else tuple(-x for x in v)


def sym_pair(eng, P, name=''):
    d = sym_dim(eng, P)
    grp = Group(eng, d)
    g1, g2 = grp.fresh('g1' + name), grp.fresh('g2' + name)
    n1, n2 = eng.fresh('n1' + name, IntS), eng.fresh('n2' + name, IntS)
    dx = sym_seq(eng, 'dx' + name, d, IntS)
    return grp, g1.term, n1, g2.term, n2, dx


def mkj(eng, grp, g1, n1, g2, n2, dx, depth=None):
    return eng.call(cls_of(eng, RJ), [mk_spec(eng, grp.mk(g1), n1), mk_spec(eng, grp.mk(g2), n2), dx], {'depth': depth} if depth is not None else {})


def parts(eng, J):
    s1, s2 = eng.getattr(J, 'spec1'), eng.getattr(J, 'spec2')
    return (eng.getattr(s1, 'base_map').term, eng.getattr(s1, 'pnum'), eng.getattr(s2, 'base_map').term, eng.getattr(s2, 'pnum'),
            eng.plain_seq(eng.getattr(J, 'delta_x')), eng.getattr(J, 'delta_t'))


def same_j(eng, a, b):
    """the two junctions have the same specs and shifts"""
    return And(a[0] == b[0], eng.eq(a[1], b[1]), a[2] == b[2], eng.eq(a[3], b[3]), eng.eq(a[4], b[4]), eng.eq(a[5], b[5]))


def is_image(eng, grp, p, h, g1, n1, g2, n2, dx):
    """the parts p are those of the pair (g1, g2, dx) moved by the isometry h"""
    return And(p[0] == gmul(h, g1), eng.eq(p[1], n1), p[2] == gmul(h, g2), eng.eq(p[3], n2), eng.eq(p[4], vec(eng, grp, h, dx)))


def h_standard(eng, P):
    grp, g1, n1, g2, n2, dx = sym_pair(eng, P)
    eng.cover('inputs')
    depth = eng.fresh('depth', IntS)
    J = mkj(eng, grp, g1, n1, g2, n2, dx, depth)
    p = parts(eng, J)
    h, k = ginv(gcm(g1)), ginv(gcm(g2))
    eng.prove('pattern numbers are ordered', zval(p[1]) <= zval(p[3]))
    eng.prove('the first orientation is the identity up to time', gcm(p[0]) == grp.one)
    eng.prove('the time shift is one', eng.eq(p[5], 1))
    eng.prove('two reversed fractions of one pattern are turned round', Not(And(eng.eq(p[1], p[3]), gtr(p[0]), gtr(p[2]))))
    eng.prove('the depth is kept', eng.eq(eng.getattr(J, 'depth'), depth))
    eng.prove('the standard form is the pair moved by an isometry, or its time reversal moved by one',
              Or(And(Not(gtr(h)), is_image(eng, grp, p, h, g1, n1, g2, n2, dx)),
                 And(Not(gtr(k)), is_image(eng, grp, p, k, grev(g2), n2, grev(g1), n1, neg(eng, grp, dx)))))


def h_invariance(eng, P):
    """pairs equivalent under an isometry have one standard form; a pair and its reversal have one too unless the form is ambiguous"""
    grp, g1, n1, g2, n2, dx = sym_pair(eng, P)
    k = grp.fresh('k').term
    eng.assume(Not(gtr(k)))
    A = parts(eng, mkj(eng, grp, g1, n1, g2, n2, dx))
    B = parts(eng, mkj(eng, grp, gmul(k, g1), n1, gmul(k, g2), n2, vec(eng, grp, k, dx)))
    eng.prove('an isometry does not change the standard form', same_j(eng, A, B))
    R = parts(eng, mkj(eng, grp, grev(g2), n2, grev(g1), n1, neg(eng, grp, dx)))
    amb = And(n1 == n2, z3.Xor(gtr(g1), gtr(g2)))
    eng.prove('time reversal of the pair does not change the standard form (unless one fraction of two of one pattern is reversed)', Implies(Not(amb), same_j(eng, A, R)))
    I = parts(eng, mkj(eng, grp, A[0], A[1], A[2], A[3], A[4]))
    eng.prove('the standard form is its own standard form (same exception)', Implies(Not(amb), same_j(eng, A, I)))


def h_junc_eq(eng, P):
    grp, g1, n1, g2, n2, dx = sym_pair(eng, P)
    h1, h2, m1, m2 = grp.fresh('h1').term, grp.fresh('h2').term, eng.fresh('m1', IntS), eng.fresh('m2', IntS)
    dy = sym_seq(eng, 'dy', grp.d, IntS)
    da, db = eng.fresh('da', IntS), eng.fresh('db', IntS)
    A, B = mkj(eng, grp, g1, n1, g2, n2, dx, da), mkj(eng, grp, h1, m1, h2, m2, dy, db)
    e = eng.truth(eng.call(eng.getattr(A, '__eq__'), [B]))
    same = same_j(eng, parts(eng, A), parts(eng, B))
    eng.prove('junctions are equal exactly when specs and shifts agree, whatever their depth', And(Implies(e, same), Implies(same, e)))
    eng.prove('equal junctions have equal hashes', Implies(same, eng.eq(eng.call(eng.getattr(A, '__hash__'), []), eng.call(eng.getattr(B, '__hash__'), []))))


def h_auto(eng, P):
    d = sym_dim(eng, P)
    grp = Group(eng, d)
    n = eng.fresh('n', IntS)
    J = eng.call(cls_of(eng, 'curves.AutoJunction'), [d, n])
    p = parts(eng, J)
    zero = Seq(d, lambda j: 0) if not isinstance(d, int) else (0,) * d
    eng.prove('an auto junction is the pattern with itself', And(p[0] == grp.one, p[2] == grp.one, eng.eq(p[1], n), eng.eq(p[3], n), eng.eq(p[4], zero), eng.eq(p[5], 0)))


def h_base(eng, P):
    grp, C, p, c = begin(eng, P, cls=CV, holes=False)
    eng.assume(c + 1 < C.genus)
    eng.cover('inputs')
    J = eng.call(eng.getattr(C.obj, '_get_base_junction'), [], {'pnum': p, 'cnum': c})
    a, b = C.cube_at(p, c), C.cube_at(p, c + 1)
    dx = Seq(grp.d, lambda j: b.get(j) - a.get(j)) if not C.fin else tuple(y - x for x, y in zip(a, b))
    W = mkj(eng, grp, C.sbm(p, c), C.spn(p, c), C.sbm(p, c + 1), C.spn(p, c + 1), dx)
    eng.prove('a base junction is the standard form of two consecutive fractions of the pattern', same_j(eng, parts(eng, J), parts(eng, W)))
    eng.prove('base junctions have depth one', eng.eq(eng.getattr(J, 'depth'), 1))


def h_base_none(eng, P):
    grp, C, p, c = begin(eng, P, holes=True)
    eng.assume(c + 1 < C.genus)
    eng.assume(Not(Or(C.nocube(p, c), C.nocube(p, c + 1))))
    try:
        eng.call(eng.getattr(C.obj, '_get_base_junction'), [], {'pnum': p, 'cnum': c})
    except PyRaise:
        eng.prove('a base junction is refused only for undefined specs', Or(C.nospec(p, c), C.nospec(p, c + 1)))
        return
    eng.prove('a base junction is given only for defined specs', Not(Or(C.nospec(p, c), C.nospec(p, c + 1))))


def child(eng, grp, C, g, n, last):
    """orientation, pattern and cube of the last (first) fraction of the curve g * C with pattern n"""
    end = eng.ite(gtr(g), 0, C.genus - 1) if last else eng.ite(gtr(g), C.genus - 1, 0)
    return gmul(g, C.sbm(n, end)), C.spn(n, end), grp.act(g, C.cube_at(n, end), lambda v: C.div - 1 - v)


def children(eng, grp, C, g1, n1, g2, n2, dx):
    t1, m1, c1 = child(eng, grp, C, g1, n1, True)
    t2, m2, c2 = child(eng, grp, C, g2, n2, False)
    if C.fin:
        dy = tuple(y + e * C.div - x for x, y, e in zip(c1, c2, dx))
    else:
        dy = Seq(grp.d, lambda j: c2.get(j) + dx.get(j) * C.div - c1.get(j))
    return t1, m1, t2, m2, dy


def h_child(eng, P):
    """the vocabulary of the next contract agrees with the action of a spec on the curve"""
    grp, C, p, c = begin(eng, P, cls=CV, holes=False)
    g = grp.fresh('g')
    R = eng.binop(MUL, mk_spec(eng, g, p), C.obj)
    for last, at in ((True, C.genus - 1), (False, 0)):
        t, m, cube = child(eng, grp, C, g.term, p, last)
        cn, cu, sn, bm, pn = view(eng, R, p, at)
        eng.prove('cube of the %s fraction of spec * curve' % ('last' if last else 'first'), eng.eq(eng.plain_seq(cu), cube))
        eng.prove('orientation and pattern of the %s fraction of spec * curve' % ('last' if last else 'first'), And(gmul(bm.term, g.term) == t, eng.eq(pn, m)))


def h_derived(eng, P):
    grp, C, p, c = begin(eng, P, cls=CV, holes=False)
    g1, g2 = grp.fresh('g1').term, grp.fresh('g2').term
    n1, n2 = eng.fresh('n1', IntS), eng.fresh('n2', IntS)
    eng.assume(ranges((n1, C.mult), (n2, C.mult)))
    dx = sym_seq(eng, 'dx', grp.d, IntS)
    depth = eng.fresh('depth', IntS)
    eng.cover('inputs')
    J = mkj(eng, grp, g1, n1, g2, n2, dx, depth)
    a = parts(eng, J)
    D = eng.call(eng.getattr(C.obj, '_get_derived_junction'), [J])
    W = mkj(eng, grp, *children(eng, grp, C, a[0], a[1], a[2], a[3], a[4]))
    eng.prove('the derived junction is the standard form of (last fraction of the first, first fraction of the second)', same_j(eng, parts(eng, D), parts(eng, W)))
    eng.prove('the derived junction is one level deeper', eng.eq(eng.getattr(D, 'depth'), depth + 1))


def h_derived_class(eng, P):
    """deriving the standard form is deriving the pair itself"""
    grp, C, p, c = begin(eng, P, cls=CV, holes=False)
    g1, g2 = grp.fresh('g1').term, grp.fresh('g2').term
    n1, n2 = eng.fresh('n1', IntS), eng.fresh('n2', IntS)
    eng.assume(ranges((n1, C.mult), (n2, C.mult)))
    dx = sym_seq(eng, 'dx', grp.d, IntS)
    J = mkj(eng, grp, g1, n1, g2, n2, dx)
    D = parts(eng, eng.call(eng.getattr(C.obj, '_get_derived_junction'), [J]))
    t1, m1, t2, m2, dy = children(eng, grp, C, g1, n1, g2, n2, dx)
    A = parts(eng, mkj(eng, grp, t1, m1, t2, m2, dy))
    B = parts(eng, mkj(eng, grp, grev(t2), m2, grev(t1), m1, neg(eng, grp, dy)))
    eng.prove('the derivative of the standard form is the standard form of the next-level pair or of its time reversal', Or(same_j(eng, D, A), same_j(eng, D, B)))


# ---- enumeration: abstract junction objects ------------------------------------------------------
JO = z3.DeclareSort('JuncObj')
JS = z3.DeclareSort('Junc')
AB, AI = z3.ArraySort(JS, BoolS), z3.ArraySort(JS, IntS)


ENUM = {}


class World:
    """junction objects with a key (what equality compares) and a depth"""
    def __init__(self, eng, n=None):
        if n is None:
            self.JO, self.JS = JO, JS
        else:
            if n not in ENUM:
                ENUM[n] = z3.EnumSort('Junc%d' % n, ['j%d' % i for i in range(n)])
            self.JS, self.els = ENUM[n]
            self.JO = z3.DeclareSort('JuncObj%d' % n)
        self.n = n
        self.key = z3.Function('jkey%s' % (n or ''), self.JO, self.JS)
        self.depth = z3.Function('jdepth%s' % (n or ''), self.JO, IntS)
        self.attrs = {'_eqkey': lambda s: self.key(s.term), 'depth': lambda s: self.depth(s.term), '__classes__': ('RegularJunction',)}
        self.AB, self.AI = z3.ArraySort(self.JS, BoolS), z3.ArraySort(self.JS, IntS)
        self.D = z3.Function('derived%s' % (n or ''), self.JS, self.JS)
        eng.contracts[FC + '._get_derived_junction'] = self.derived
        self.cnt = 0

    def mk(self, t):
        return UObj(t, 'Junc', self.attrs)

    def new(self, eng, key, depth):
        o = eng.fresh('jo', self.JO)
        eng.assume(z3.And(self.key(o) == key, self.depth(o) == depth))
        return self.mk(o)

    def derived(self, eng, A):
        o = A['junc']
        return self.new(eng, self.D(self.key(o.term)), self.depth(o.term) + 1)


class Out(Bag):
    """what a generator has yielded: how often each junction, and with which depth"""
    def __init__(self, W, N, E):
        self.W, self.N, self.E = W, N, E
        super().__init__([])

    def m_append(self, eng, v):
        k, d = self.W.key(v.term), self.W.depth(v.term)
        return Out(self.W, z3.Store(self.N, k, self.N[k] + 1), z3.Store(self.E, k, d))


def state_of(env):
    """(the set, the queue, the output list) of the enumeration, whatever they are called"""
    sets = [v for v in env.vars.values() if isinstance(v, LSet)]
    lists = [v for v in env.vars.values() if isinstance(v, LList)]
    return sets, lists, env.out


def ybag_counts(eng, W, out):
    """(multiplicity, depth) arrays of an output list"""
    c = out.content
    if isinstance(c, Out):
        return c.N, c.E
    if isinstance(c, list):
        N, E = z3.K(W.JS, z3.IntVal(0)), z3.K(W.JS, z3.IntVal(-1))
        for v in c:
            k = W.key(v.term)
            N, E = z3.Store(N, k, N[k] + 1), z3.Store(E, k, W.depth(v.term))
        return N, E
    raise Unsupported('output of the enumeration')


def member(eng, W, S, j):
    """membership of the junction with key j"""
    r = [W.key(v.term) == j for v in S.puts]
    if S.base is not None:
        r.append(S.base(j))
    return Or(r)


class SetState(inv.Loop):
    def __init__(self, eng, W, S, out, queue=None):
        self.eng, self.W, self.S, self.out, self.queue = eng, W, S, out, queue
        self.objs = [o for o in (S, out, queue) if o is not None]
        self.A = None

    def havoc_sets(self):
        W = self.W
        A = z3.FreshConst(W.AB, 'S')
        self.S.puts = []
        # membership asks with a junction object or with a key
        self.S.base = lambda v: A[W.key(v.term)] if isinstance(v, UObj) else A[v]
        self.out.content = Out(W, z3.FreshConst(W.AI, 'N'), z3.FreshConst(W.AI, 'E'))

    def once(self):
        N, E = ybag_counts(self.eng, self.W, self.out)
        j = z3.FreshConst(self.W.JS, 'j')
        return ('what has been seen has been yielded, exactly once', z3.ForAll([j], N[j] == z3.If(zval(member(self.eng, self.W, self.S, j)), 1, 0)))


def h_gen_base(eng, P):
    n = P.get('nj')
    W = World(eng, n)
    I = IntS
    mult, genus = (P['mult'], P['genus']) if n else (eng.fresh('mult', I), eng.fresh('genus', I))
    if n is None:
        eng.assume(z3.And(mult >= 1, genus >= 2))
    Bk = eng.fresh_fun('basekey', I, I, W.JS)
    C = new_obj(eng, cls_of(eng, CV), mult=mult, genus=genus)

    def base(e, A):
        p, c = zval(A['pnum']), zval(A['cnum'])
        e.prove('base junctions are asked for consecutive fractions that exist', z3.And(p >= 0, p < mult, c >= 0, c + 1 < genus))
        dep = A.get('depth', 1)
        return W.new(e, Bk(p, c), zval(dep) if dep is not None else 1)
    eng.contracts[FC + '._get_base_junction'] = base
    Bs = eng.fresh_fun('is_base', W.JS, BoolS)
    p, c = z3.Ints('p!b c!b')
    rng = z3.And(p >= 0, p < mult, c >= 0, c + 1 < genus)
    if n is None:
        eng.assume(z3.ForAll([p, c], z3.Implies(rng, Bs(Bk(p, c))), patterns=[Bk(p, c)]))
    else:
        for a in range(mult):
            for b in range(genus - 1):
                eng.assume(Bs(Bk(a, b)))

    class L(SetState):
        def __init__(self, eng, S, out, before):
            super().__init__(eng, W, S, out)
            self.before = before

        def havoc(self, k):
            self.havoc_sets()

        def inv(self, k):
            e = self.eng
            j = z3.FreshConst(W.JS, 'j')
            p, c = z3.FreshInt('p'), z3.FreshInt('c')
            m = member(e, W, self.S, Bk(p, c))
            N, E = ybag_counts(e, W, self.out)
            return [self.once(),
                    ('all earlier fractions are covered', z3.ForAll([p, c], z3.Implies(z3.And(p >= 0, p < mult, c >= 0, c + 1 < genus, self.before(p, c, k)), zval(m)), patterns=[Bk(p, c)])),
                    ('only base junctions are listed, with depth one', z3.ForAll([j], z3.Implies(zval(member(e, W, self.S, j)), z3.And(Bs(j), E[j] == 1))))]

    def spec(e, s, env, it, carried):
        sets, lists, out = state_of(env)
        if len(sets) != 1 or out is None or it is None or n is not None:
            return None
        if zval(it.n).eq(zval(mult)):
            return L(e, sets[0], out, lambda p, c, k: p < k)
        if zval(simp(it.n)).eq(zval(simp(genus - 1))):
            cur = [v for v in env.vars.values() if is_z3(v) and z3.is_int(v)]
            if len(cur) != 1:
                return None
            return L(e, sets[0], out, lambda p, c, k: z3.Or(p < cur[0], z3.And(p == cur[0], c < k)))
        return None
    eng.loop_hints = {'inv': inv.make(spec)}
    eng.cover('inputs')
    R = eng.call(eng.getattr(C, '_gen_base_junctions'), [])
    N, E = ybag_counts(eng, W, R.coll)
    j = eng.fresh('anyj', W.JS)
    eng.prove('each base junction is listed at most once', z3.And(N[j] >= 0, N[j] <= 1))
    eng.prove('only base junctions are listed, with depth one', z3.Implies(N[j] > 0, z3.And(Bs(j), E[j] == 1)))
    if n is None:
        a, b = eng.fresh('a', I), eng.fresh('b', I)
        eng.prove('every pair of consecutive fractions has its base junction listed', z3.Implies(z3.And(a >= 0, a < mult, b >= 0, b + 1 < genus), N[Bk(a, b)] == 1))
    else:
        eng.prove('every pair of consecutive fractions has its base junction listed', z3.And([N[Bk(a, b)] == 1 for a in range(mult) for b in range(genus - 1)]))


def h_bfs(eng, P):
    """yields exactly the junctions reachable from the base by derivation, each once, at the smallest number of steps"""
    nj = P.get('nj')
    W = World(eng, nj)
    I = IntS
    D = W.D
    b = eng.fresh_fun('base', I, W.JO)
    nb = P['nb'] if nj else eng.fresh('nb', I)
    R, m = eng.fresh_fun('reach', W.JS, BoolS), eng.fresh_fun('dist', W.JS, I)
    pr, bi = eng.fresh_fun('pred', W.JS, W.JS), eng.fresh_fun('baseidx', W.JS, I)
    js = W.els if nj else None

    def each(f, pats):
        if nj:
            for x in js:
                eng.assume(f(x))
        else:
            x = z3.Const('x!w', W.JS)
            for pt in pats(x):
                eng.assume(z3.ForAll([x], f(x), patterns=[pt]))
    i = z3.Int('i!w')
    bf = lambda i: z3.And(R(W.key(b(i))), m(W.key(b(i))) == 1, bi(W.key(b(i))) == i, W.depth(b(i)) == 1)
    if nj:
        for t in range(nb):
            eng.assume(bf(t))
    else:
        eng.assume(nb >= 0)
        eng.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < nb), bf(i)), patterns=[b(i)]))
    each(lambda x: z3.Implies(R(x), z3.And(R(D(x)), m(D(x)) <= m(x) + 1)), lambda x: [R(x), D(x)])
    each(lambda x: z3.Implies(R(x), z3.And(m(x) >= 1, z3.If(m(x) == 1, z3.And(bi(x) >= 0, bi(x) < nb, W.key(b(bi(x))) == x), z3.And(R(pr(x)), D(pr(x)) == x, m(pr(x)) == m(x) - 1)))), lambda x: [R(x)])
    C = new_obj(eng, cls_of(eng, CV))

    class First(SetState):
        def havoc(self, k):
            self.havoc_sets()
            self.queue.content = Seq(k, lambda t: W.mk(b(zval(t))))

        def inv(self, k):
            e = self.eng
            j = z3.FreshConst(W.JS, 'j')
            N, E = ybag_counts(e, W, self.out)
            t = z3.FreshInt('t')
            q = e.plain_seq(self.queue)
            out = [self.once(),
                   ('seen are the base junctions so far', z3.ForAll([j], zval(member(e, W, self.S, j)) == z3.And(R(j), m(j) == 1, bi(j) < k))),
                   ('recorded depth', z3.ForAll([j], z3.Implies(zval(member(e, W, self.S, j)), E[j] == 1))),
                   ('queue length', e.eq(e.length(q), k))]
            if isinstance(q, Seq):
                out.append(('queue', z3.ForAll([t], z3.Implies(z3.And(t >= 0, t < k), z3.And(W.key(q.get(t).term) == W.key(b(t)), W.depth(q.get(t).term) == 1)))))
            return out

    class Bfs(SetState):
        pos = None

        def havoc(self, k):
            self.havoc_sets()
            ln = z3.FreshInt('qlen')
            q = z3.FreshConst(z3.ArraySort(I, W.JO), 'queue')
            self.eng.assume(ln >= 0)
            self.qa, self.ln = q, ln
            self.queue.content = Seq(ln, lambda t: W.mk(q[zval(t)]))
            self.pos = z3.FreshConst(W.AI, 'pos')

        def inv(self, k):
            e = self.eng
            S = lambda x: zval(member(e, W, self.S, x))
            j, t, u = z3.FreshConst(W.JS, 'j'), z3.FreshInt('t'), z3.FreshInt('u')
            N, E = ybag_counts(e, W, self.out)
            q = e.plain_seq(self.queue)
            if isinstance(q, tuple):
                raise Unsupported('queue')
            n = zval(q.n)
            key = lambda t: W.key(q.get(t).term)
            first = self.pos is None
            fresh = not first and q.get(t).term.eq(self.qa[t])
            if fresh:
                where = lambda x: z3.And(self.pos[x] >= 0, self.pos[x] < n, key(self.pos[x]) == x)
                pat = dict(patterns=[self.qa[t]])
            else:
                ws = [lambda x: n - 1] + ([lambda x: bi(x)] if first else [lambda x: self.pos[x] - 1, lambda x: self.pos[x]])
                where = lambda x: z3.Or([z3.And(w(x) >= 0, w(x) < n, key(w(x)) == x) for w in ws])
                pat = {}
            return [self.once(),
                    ('recorded depth is the distance', z3.ForAll([j], z3.Implies(S(j), z3.And(R(j), E[j] == m(j))))),
                    ('queued junctions are seen, with their distance', z3.ForAll([t], z3.Implies(z3.And(t >= 0, t < n), z3.And(S(key(t)), W.depth(q.get(t).term) == m(key(t)))), **pat)),
                    ('the queue is ordered by distance', z3.ForAll([t, u], z3.Implies(z3.And(t >= 0, t <= u, u < n), z3.And(m(key(t)) <= m(key(u)), m(key(u)) <= m(key(t)) + 1)))),
                    ('the derivative of a junction that left the queue is seen', z3.ForAll([j], z3.Implies(S(j), z3.Or(S(D(j)), where(j))))),
                    ('base junctions are seen', z3.ForAll([j], z3.Implies(z3.And(R(j), m(j) == 1), S(j)))),
                    ('everything not farther than the front is seen', z3.ForAll([j], z3.Implies(z3.And(n > 0, R(j), m(j) <= m(key(z3.IntVal(0)))), S(j))))]

        def on_exit(self, k):
            S = lambda x: zval(member(self.eng, W, self.S, x))
            e = self.eng
            t = e.fresh('lev', I)
            j, y = e.fresh('jj', W.JS), z3.Const('y!s', W.JS)
            e.prove('induction on the distance: step', z3.Implies(z3.And(R(j), m(j) >= 2, S(pr(j))), S(j)), kind='lemma')
            e.prove('induction on the distance: base', z3.Implies(z3.And(R(j), m(j) == 1), S(j)), kind='lemma')
            e.assume(z3.ForAll([y], z3.Implies(R(y), S(y)), patterns=[R(y)]))

    def spec(e, s, env, it, carried):
        if nj:
            return None
        sets, lists, out = state_of(env)
        if len(sets) != 1 or len(lists) != 1 or out is None:
            return None
        if it is not None:
            return First(e, W, sets[0], out, lists[0])
        return Bfs(e, W, sets[0], out, lists[0])
    eng.loop_hints = {'inv': inv.make(spec)}
    eng.cover('inputs')
    juncs = Seq(nb, lambda t: W.mk(b(zval(t)))) if not nj else tuple(W.mk(b(t)) for t in range(nb))
    Res = eng.call(eng.getattr(C, '_gen_junctions_from_base'), [juncs])
    N, E = ybag_counts(eng, W, Res.coll)
    for j in (js or [eng.fresh('anyj', W.JS)]):
        eng.prove('each junction is listed at most once', z3.And(N[j] >= 0, N[j] <= 1))
        eng.prove('only junctions derived from base junctions are listed', z3.Implies(N[j] > 0, R(j)))
        eng.prove('every junction derived from base junctions is listed', z3.Implies(R(j), N[j] > 0))
        eng.prove('the recorded depth is the smallest number of derivations plus one', z3.Implies(N[j] > 0, E[j] == m(j)))


def h_depth(eng, P):
    """all regular junctions: those reached from all base junctions; the depth of the curve is the largest recorded one"""
    W = World(eng, None)
    b = eng.fresh_fun('base', IntS, W.JO)
    o = eng.fresh_fun('all', IntS, W.JO)
    nb, n = eng.fresh('nb', IntS), eng.fresh('n', IntS)
    eng.assume(z3.And(nb >= 1, n >= 1))
    base = Seq(nb, lambda t: W.mk(b(zval(t))))
    every = Seq(n, lambda t: W.mk(o(zval(t))))
    eng.contracts[CV + '._gen_base_junctions'] = lambda e, A: base

    def from_base(e, A):
        got = e.iter_of(A['base_juncs'])
        e.prove('derivation starts from all base junctions', isinstance(got, Seq) and got is base)
        return every
    eng.contracts[FC + '._gen_junctions_from_base'] = from_base
    C = new_obj(eng, cls_of(eng, CV))
    i = eng.fresh('i', IntS)
    eng.assume(z3.And(i >= 0, i < n))
    R = eng.iter_of(eng.call(eng.getattr(C, 'gen_regular_junctions'), []))
    eng.prove('the regular junctions are the base junctions and everything derived from them', And(eng.eq(eng.length(R), n), item(eng, R, i).term == o(i)))
    D = zval(eng.call(eng.getattr(C, 'get_depth'), []))
    t = z3.Int('t!d')
    eng.prove('no junction is deeper than the reported depth', D >= W.depth(o(i)))
    eng.prove('some junction has the reported depth', z3.Exists([t], z3.And(t >= 0, t < n, W.depth(o(t)) == D)))


FIN = [{'dim': 1, 'div': 2, 'mult': 1}, {'dim': 1, 'div': 3, 'mult': 2}, {'dim': 2, 'div': 2, 'mult': 1}, {'dim': 2, 'div': 2, 'mult': 2}]
FJ = [{'dim': 1}, {'dim': 2}]
B = FC + '.'
CONTRACTS = [
    Contract('RegularJunction standard form', h_standard, [RJ + '.__init__', 'curves.Junction.__init__'], setup, FJ),
    Contract('RegularJunction invariance', h_invariance, [RJ + '.__init__'], setup, FJ, timeout=20.0),
    Contract('Junction.__eq__/__hash__', h_junc_eq, ['curves.Junction.__eq__', 'curves.Junction.__hash__', 'curves.Junction._data'], setup, FJ),
    Contract('AutoJunction', h_auto, ['curves.AutoJunction.__init__'], setup, FJ),
    Contract('_get_base_junction', h_base, [B + '_get_base_junction'], setup, FIN),
    Contract('_get_base_junction of undefined specs', h_base_none, [B + '_get_base_junction'], setup, FIN[:3]),
    Contract('first and last fraction of spec * curve', h_child, [FC + '.__rmul__'], setup, FIN),
    Contract('_get_derived_junction', h_derived, [B + '_get_derived_junction'], setup, FIN, timeout=20.0),
    Contract('_get_derived_junction on classes', h_derived_class, [B + '_get_derived_junction'], setup, FIN, timeout=30.0),
    Contract('_gen_base_junctions', h_gen_base, [CV + '._gen_base_junctions'], setup, [{'nj': 2, 'mult': 1, 'genus': 3}, {'nj': 2, 'mult': 2, 'genus': 2}]),
    Contract('_gen_junctions_from_base', h_bfs, [B + '_gen_junctions_from_base'], setup, [{'nj': 2, 'nb': 1}, {'nj': 3, 'nb': 1}, {'nj': 3, 'nb': 2}, {'nj': 4, 'nb': 2}], timeout=20.0),
    Contract('gen_regular_junctions and get_depth', h_depth, [CV + '.gen_regular_junctions', CV + '.get_depth'], setup),
]
