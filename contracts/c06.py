"""C06: subdivisions and deep fractions describe the same curve."""
import ast
from contracts.common import *
from contracts.abstract import *
from contracts.c05 import view, begin, same_fraction, MUL, FC, CV
from pyvc.interp import POW


def h_compose(eng, P):
    """X = _compose_specs(S, c):  X * self is fraction c of S * self"""
    grp, C, p, c = begin(eng, P, holes=False)
    g = grp.fresh('g')
    n = eng.fresh('n', IntS)
    eng.assume(ranges((n, C.mult)))
    s = mk_spec(eng, g, n)
    eng.cover('inputs')
    X = eng.call(eng.getattr(C.obj, '_compose_specs'), [s, c])
    R = eng.binop(MUL, s, C.obj)
    cn, cube, sn, bm, pn = view(eng, R, n, c)
    # (C.specs[cnum] * C) = C.specs[cnum] * spec * self
    eng.prove('orientation of the composed spec', eng.getattr(X, 'base_map').term == gmul(bm.term, g.term))
    eng.prove('pattern of the composed spec', eng.eq(eng.getattr(X, 'pnum'), pn))


def deep(eng, grp, C, pnum, n, cn):
    """reference: orientation and pattern of the fraction with address cn[0..i-1]"""
    if isinstance(n, int):
        DB, DP = [grp.one], [pnum]
        for i in range(n):
            a = eng.ite(gtr(DB[-1]), C.genus - 1 - cn(i), cn(i))
            b, q = C.sbm(DP[-1], a), C.spn(DP[-1], a)
            DB.append(gmul(DB[-1], b))
            DP.append(q)
        return (lambda i: DB[i]), (lambda i: DP[i])
    DB, DP = eng.fresh_fun('DB', IntS, GS), eng.fresh_fun('DP', IntS, IntS)
    i = z3.Int('i!deep')
    a = z3.If(gtr(DB(i)), C.genus - 1 - cn(i), cn(i))
    eng.assume(z3.And(DB(0) == grp.one, DP(0) == pnum))
    eng.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.And(DB(i + 1) == gmul(DB(i), C.sbm(DP(i), a)), DP(i + 1) == C.spn(DP(i), a))), patterns=[DB(i + 1)]))
    eng.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), DP(i + 1) == C.spn(DP(i), a)), patterns=[DP(i + 1)]))
    # range of the pattern numbers (induction: base and step are obligations below)
    return DB, DP


def h_deep(eng, P):
    grp, C, p, c = begin(eng, P, holes=False)
    n = P.get('len')
    if n is None:
        n = eng.fresh('depth', IntS)
        eng.assume(n >= 0)
    cn = eng.fresh_fun('cnums', IntS, IntS)
    if isinstance(n, int):
        for i in range(n):
            eng.assume(ranges((cn(i), C.genus)))
    else:
        i = z3.Int('i!cn')
        eng.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.And(cn(i) >= 0, cn(i) < C.genus)), patterns=[cn(i)]))
    DB, DP = deep(eng, grp, C, p, n, cn)
    if not isinstance(n, int):
        i = eng.fresh('i_ind', IntS)
        a = z3.If(gtr(DB(i)), C.genus - 1 - cn(i), cn(i))
        inr = lambda k: z3.And(DP(k) >= 0, DP(k) < C.mult)
        eng.prove('pattern numbers along an address stay in range (base)', inr(0), kind='lemma')
        eng.prove('pattern numbers along an address stay in range (step)', z3.Implies(z3.And(i >= 0, i < n, inr(i)), inr(i + 1)), kind='lemma')
        k = z3.Int('k!dp')
        eng.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k <= n), inr(k)), patterns=[DP(k)]))

        def hint(e, nm, init, it):
            if isinstance(init, Obj) and init.cls is cls_of(e, SPEC):
                return lambda k: mk_spec(e, grp.mk(DB(zval(k))), DP(zval(k)))
            return None
        eng.loop_hints = {'for': [hint]}
    eng.cover('inputs')
    X = eng.call(eng.getattr(C.obj, 'get_deep_spec'), [p, C.seq(n, lambda i: cn(zval(i)))])
    eng.prove('get_deep_spec gives the orientation of the addressed fraction', eng.getattr(X, 'base_map').term == DB(n))
    eng.prove('get_deep_spec gives the pattern of the addressed fraction', eng.eq(eng.getattr(X, 'pnum'), DP(n)))


def h_compose_none(eng, P):
    """an undefined spec on the way is reported, never guessed"""
    grp, C, p, c = begin(eng, P, holes=True)
    g = grp.fresh('g')
    n = eng.fresh('n', IntS)
    eng.assume(ranges((n, C.mult)))
    s = mk_spec(eng, g, n)
    a = eng.ite(gtr(g.term), C.genus - 1 - c, c)
    try:
        X = eng.call(eng.getattr(C.obj, '_compose_specs'), [s, c])
    except PyRaise:
        eng.prove('_compose_specs raises only for an undefined spec', C.nospec(n, a))
        return
    eng.prove('_compose_specs answers only from a defined spec', Not(C.nospec(n, a)))


# ---- subdivision ---------------------------------------------------------------------------------
def level_curve(eng, grp, C, LC, LB, LP, LD, LG, i, cls):
    d = grp.d

    def spec(p, m):
        bm = grp.mk(LB(i, p, m))
        return new_obj(eng, cls_of(eng, SPEC), base_map=bm, pnum=LP(i, p, m), _key=(bm, LP(i, p, m)), _hash=HashVal((bm, LP(i, p, m))))

    def pattern(p):
        proto = new_obj(eng, cls_of(eng, 'paths.Proto'), payload=Seq(LG(i), lambda m: Seq(d, lambda j: LC(i, p, m, j))), dim=d, div=LD(i))
        specs = Seq(LG(i), lambda m: spec(p, m))
        return new_obj(eng, cls_of(eng, 'curves.Pattern'), payload=(proto, specs), proto=proto, specs=specs)
    return new_obj(eng, cls, dim=d, div=LD(i), patterns=Seq(C.mult, pattern), mult=C.mult, pnum=C.pnum, genus=LG(i))


def curve_same(eng, a, b):
    """structural equality of two curve objects, including dimensions of the prototypes"""
    pa, pb = eng.plain_seq(eng.getattr(a, 'patterns')), eng.plain_seq(eng.getattr(b, 'patterns'))
    fields = And([eng.eq(eng.getattr(a, f), eng.getattr(b, f)) for f in ('dim', 'div', 'mult', 'pnum', 'genus')])
    return And(fields, eng.eq_seq(pa, pb))


def h_subdivision(eng, P):
    d = sym_dim(eng, P)
    grp = Group(eng, d)
    C = SymCurve(eng, grp, CV, holes=False, P=P)
    I = IntS
    G, N = zval(C.genus), zval(C.div)
    k = eng.fresh('k', I)
    eng.assume(k >= 0)
    LC, LB, LP = eng.fresh_fun('LC', I, I, I, I, I), eng.fresh_fun('LB', I, I, I, GS), eng.fresh_fun('LP', I, I, I, I)
    LD, LG = eng.fresh_fun('LD', I, I), eng.fresh_fun('LG', I, I)
    i, p, m, j = z3.Ints('i!l p!l m!l j!l')
    A = z3.ForAll
    eng.assume(z3.And(LD(0) == N, LG(0) == G))
    eng.assume(A([p, m, j], LC(0, p, m, j) == C.cube(p, m, j), patterns=[LC(0, p, m, j)]))
    eng.assume(A([p, m], z3.And(LB(0, p, m) == C.sbm(p, m)), patterns=[LB(0, p, m)]))
    eng.assume(A([p, m], z3.And(LP(0, p, m) == C.spn(p, m)), patterns=[LP(0, p, m)]))
    eng.assume(A([i], z3.Implies(i >= 0, z3.And(LD(i + 1) == LD(i) * N, LG(i + 1) == LG(i) * G)), patterns=[LG(i + 1)]))
    eng.assume(A([i], z3.Implies(i >= 0, z3.And(LD(i + 1) == LD(i) * N)), patterns=[LD(i + 1)]))
    q, r = m / G, m % G
    b = LB(i, p, q)
    act = z3.If(gtr(b), G - 1 - r, r)
    pn = LP(i, p, q)
    x = C.cube(pn, act, gK(b, j))
    sub = z3.If(gB(b, j), N - 1 - x, x)
    rng = z3.And(i >= 0, p >= 0, p < C.mult, m >= 0, m < LG(i + 1))
    eng.assume(A([i, p, m, j], z3.Implies(z3.And(rng, j >= 0, j < d), LC(i + 1, p, m, j) == LC(i, p, q, j) * N + sub), patterns=[LC(i + 1, p, m, j)]))
    eng.assume(A([i, p, m], z3.Implies(rng, LB(i + 1, p, m) == gmul(b, C.sbm(pn, act))), patterns=[LB(i + 1, p, m)]))
    eng.assume(A([i, p, m], z3.Implies(rng, LP(i + 1, p, m) == C.spn(pn, act)), patterns=[LP(i + 1, p, m)]))
    # lemmas by induction: counts are positive, pattern numbers stay in range
    i0, p0, m0 = eng.fresh('i0', I), eng.fresh('p0', I), eng.fresh('m0', I)
    inr = lambda a, b_, c_: z3.And(LP(a, b_, c_) >= 0, LP(a, b_, c_) < C.mult)
    eng.prove('number of fractions at a level is positive (step)', z3.Implies(z3.And(i0 >= 0, LG(i0) >= 1), LG(i0 + 1) >= 1), kind='lemma')
    eng.assume(A([i], z3.Implies(i >= 0, LG(i) >= 1), patterns=[LG(i)]))
    eng.prove('pattern numbers at depth stay in range (base)', z3.Implies(z3.And(p0 >= 0, p0 < C.mult, m0 >= 0, m0 < G), inr(0, p0, m0)), kind='lemma')
    eng.prove('index of the parent fraction is in range', z3.Implies(z3.And(i0 >= 0, m0 >= 0, m0 < LG(i0) * G, G >= 1), z3.And(m0 / G >= 0, m0 / G < LG(i0), m0 % G >= 0, m0 % G < G)), kind='lemma')
    eng.prove('pattern numbers at depth stay in range (step)',
              z3.Implies(z3.And(i0 >= 0, p0 >= 0, p0 < C.mult, m0 >= 0, m0 < LG(i0 + 1), m0 / G >= 0, m0 / G < LG(i0), m0 % G >= 0, m0 % G < G, inr(i0, p0, m0 / G)), inr(i0 + 1, p0, m0)), kind='lemma')
    eng.assume(A([i, p, m], z3.Implies(z3.And(i >= 0, p >= 0, p < C.mult, m >= 0, m < LG(i)), inr(i, p, m)), patterns=[LP(i, p, m)]))
    eng.assume(A([i, m], z3.Implies(z3.And(i >= 0, m >= 0, m < LG(i) * G), z3.And(m / G >= 0, m / G < LG(i), m % G >= 0, m % G < G)), patterns=[z3.MultiPattern(LG(i), m / G)]))
    # assumed mathematics: (a*b)^d = a^d * b^d
    u, v = z3.Ints('u!p v!p')
    eng.assume(A([u, v], POW(u * v, zval(d)) == POW(u, zval(d)) * POW(v, zval(d)), patterns=[POW(u * v, zval(d))]))
    eng.assumptions.add('(a*b)**d == a**d * b**d for integers')
    eng.prove('number of fractions is div**dim (base)', POW(LD(0), zval(d)) == LG(0), kind='lemma')
    eng.prove('number of fractions is div**dim (step)', z3.Implies(z3.And(i0 >= 0, POW(LD(i0), zval(d)) == LG(i0)), POW(LD(i0) * N, zval(d)) == LG(i0) * G), kind='lemma')
    eng.assume(A([i], z3.Implies(i >= 0, POW(LD(i) * N, zval(d)) == LG(i) * G), patterns=[LD(i)]))
    cls = cls_of(eng, CV)
    eng.contracts[CV + '.__eq__'] = lambda e, Ar: curve_same(e, Ar['self'], Ar['other'])

    def hint(e, nm, init, it):
        if isinstance(init, Obj) and init.cls is cls:
            return lambda t: level_curve(e, grp, C, LC, LB, LP, LD, LG, zval(t), cls)
        return None
    eng.loop_hints = {'for': [hint]}
    eng.cover('inputs')
    R = eng.run_body(eng.prog.find(CV + '.get_subdivision'), [C.obj, k], {})
    W = level_curve(eng, grp, C, LC, LB, LP, LD, LG, k, cls)
    eng.prove('the k-th subdivision consists of the fractions at depth k+1, in order, with their orientations and patterns', curve_same(eng, R, W))
    eng.prove('subdividing does not change the curve', quiet(eng), kind='frame')


def h_subdivision1(eng, P):
    """finite instances: first (and second) subdivision of concrete size"""
    d = P['dim']
    grp = Group(eng, d)
    C = SymCurve(eng, grp, CV, holes=False, P=P)
    k = P.get('k', 1)
    R = eng.run_body(eng.prog.find(CV + '.get_subdivision'), [C.obj, k], {})
    G, N = C.genus, C.div
    for p in range(C.mult):
        cur = [(C.cube_at(p, c), C.sbm(p, c), C.spn(p, c)) for c in range(G)]
        for _ in range(k):
            nxt = []
            for cube, b, pn in cur:
                for r in range(G):
                    a = z3.If(gtr(b), z3.IntVal(G - 1 - r), z3.IntVal(r))
                    x = grp.act(b, C.cube_at(pn, a), lambda v: N - 1 - v)
                    nxt.append((tuple(cj * N + xj for cj, xj in zip(cube, x)), gmul(b, C.sbm(pn, a)), C.spn(pn, a)))
            cur = nxt
        pat = item(eng, eng.getattr(R, 'patterns'), p)
        proto, specs = eng.plain_seq(eng.getattr(pat, 'proto')), eng.plain_seq(eng.getattr(pat, 'specs'))
        eng.prove('sizes of the subdivision', And(eng.eq(eng.length(proto), len(cur)), eng.eq(eng.length(specs), len(cur)), eng.eq(eng.getattr(R, 'div'), N ** (k + 1)),
                                                  eng.eq(eng.getattr(R, 'genus'), G ** (k + 1)), eng.eq(eng.getattr(R, 'pnum'), C.pnum)))
        for m, (cube, b, pn) in enumerate(cur):
            s = item(eng, specs, m)
            eng.prove('fraction of the subdivision', And(eng.eq(eng.plain_seq(item(eng, proto, m)), cube), eng.getattr(s, 'base_map').term == b, eng.eq(eng.getattr(s, 'pnum'), pn)))


def h_sub(eng, P):
    return h_subdivision(eng, P) if P.get('dim') is None else h_subdivision1(eng, P)


FIN = [{'dim': 1, 'div': 2, 'mult': 1}, {'dim': 1, 'div': 3, 'mult': 2}, {'dim': 2, 'div': 2, 'mult': 1}]
FD = [dict(f, len=n) for f in FIN for n in (1, 2)]
FS = [{'dim': 1, 'div': 2, 'mult': 2, 'k': 1}, {'dim': 1, 'div': 3, 'mult': 1, 'k': 1}, {'dim': 2, 'div': 2, 'mult': 1, 'k': 1}, {'dim': 1, 'div': 2, 'mult': 1, 'k': 2}]
CONTRACTS = [
    Contract('_compose_specs', h_compose, [FC + '._compose_specs'], setup, FIN),
    Contract('_compose_specs of undefined specs', h_compose_none, [FC + '._compose_specs'], setup, FIN),
    Contract('get_deep_spec', h_deep, [FC + '.get_deep_spec'], setup, FD),
    Contract('get_subdivision', h_sub, [CV + '.get_subdivision'], setup, FS),
]
