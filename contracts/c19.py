"""C19: gate enumeration.

Curves, gates, paths and path generators enter by their contracts (C07, C17, C18): entrance and exit of the boundary
curve are arbitrary points with a face dimension, a gate has an abstract standard form, a generator answers whether paths exist.
"""
import ast
import itertools
from contracts.common import *
from contracts.abstract import *
from contracts import inv
from pyvc.builtins_ import GenIter

GG = 'gates.GatesGenerator'
SP, PR, PT, GT, NP = [z3.DeclareSort(x) for x in ('BoundarySpec', 'BoundaryProto', 'GatePoint', 'Gate', 'NarrowPath')]
fdim = z3.Function('face_dim', PT, IntS)
gate = z3.Function('gate', PT, PT, GT)
gstd = z3.Function('standard_gate', GT, GT)
rank = z3.Function('gate_order', GT, IntS)


def mkgate(t):
    return UObj(t, 'Gate', {'std': lambda s: Builtin('std', lambda: mkgate(gstd(s.term)))})


def by_rank(l):
    """the terms in increasing order (compare and exchange)"""
    l = list(l)
    for a in range(len(l)):
        for b in range(len(l) - 1 - a):
            x, y = l[b], l[b + 1]
            le = rank(x) <= rank(y)
            l[b], l[b + 1] = z3.If(le, x, y), z3.If(le, y, x)
    return l


def order(eng, it, key, reverse):
    if key is not None or reverse is not False or not isinstance(it, tuple) or not all(isinstance(x, UObj) and x.tag == 'Gate' for x in it):
        raise Unsupported('sorted')
    return eng.mklist([mkgate(t) for t in by_rank([x.term for x in it])])


def terms(eng, v):
    v = eng.plain_seq(v)
    if not isinstance(v, tuple):
        raise Unsupported('tuple expected')
    return [x.term for x in v]


def same_terms(a, b):
    return And(len(a) == len(b), *[x == y for x, y in zip(a, b)])


class Generator:
    def __init__(self, eng, P, facet=None):
        self.eng = eng
        self.m = m = P['mult']
        self.d = sym_dim(eng, P)
        self.N = P.get('div') or eng.fresh('div', IntS)
        eng.assume(zval(self.N) >= 2)
        self.genus = eng.binop(ast.Pow(), self.N, self.d)
        eng.assume(zval(self.genus) >= 2)
        cls = cls_of(eng, GG)
        self.facet = eng.fresh('only_facet', BoolS) if facet is None else facet
        self.obj = eng.call(cls, [self.d, self.N, m, self.facet])
        g = lambda k: UObj(k, 'BoundarySpec', {})
        self.specs = [[eng.fresh('spec_%d_%d' % (p, c), SP) for c in range(2)] for p in range(m)]
        self.protos = [UObj(eng.fresh('proto%d' % p, PR), 'BoundaryProto', {}) for p in range(m)]
        self.seen = eng.fresh_fun('seen_before', *([GT] * m + [BoolS]))
        self.seen_std = eng.fresh_fun('seen_std_before', *([GT] * m + [BoolS]))
        x, y = z3.Consts('x!r y!r', GT)
        eng.assume(z3.ForAll([x, y], z3.Implies(rank(x) == rank(y), x == y)))       # a total order

    def hist(self, f):
        s = LSet([], lambda v: f(*terms(self.eng, v)) if isinstance(v, (tuple, Obj)) else False)
        s.birth = self.eng.new_birth()
        return s


def h_check_std(eng, P):
    G = Generator(eng, P)
    m = G.m
    E, X = [eng.fresh('entrance%d' % p, PT) for p in range(m)], [eng.fresh('exit%d' % p, PT) for p in range(m)]
    for t in E + X:
        eng.assume(And(fdim(t) >= 0, fdim(t) <= zval(G.d)))
    spec = [[UObj(G.specs[p][c], 'BoundarySpec', {}) for c in range(2)] for p in range(m)]
    EX = eng.fresh_fun('paths_exist', *([GT] * m + [BoolS]))
    made = []

    def mkpoint(t):
        return UObj(t, 'GatePoint', {'face_dim': lambda s: Builtin('face_dim', lambda: fdim(s.term))})

    def curve(e, args, kwargs):
        v = dict(zip(('dim', 'div', 'patterns', 'pnum'), args), **kwargs)
        e.prove('the boundary curve is in the grid', And(e.eq(v['dim'], G.d), e.eq(v['div'], G.N)))
        pats = e.iter_of(v['patterns'])
        e.prove('one pattern for every prototype', isinstance(pats, tuple) and len(pats) == m)
        made.append(1)
        last = simp(zval(G.N) ** zval(G.d)) if isinstance(G.d, int) and isinstance(G.N, int) else None
        for p, pat in enumerate(pats):
            proto, sp = e.plain_seq(pat)
            e.prove('prototype of the pattern', proto.term == G.protos[p].term if isinstance(proto, UObj) else False)
            n = e.length(sp)
            want = e.binop(ast.Pow(), G.N, G.d)
            e.prove('one specification place for every fraction', e.eq(n, want))
            q = e.as_seq(sp)
            for c, pos in ((0, z3.IntVal(0)), (1, zval(want) - 1)):
                w = simp(pos)
                it = e.plain_seq(sp)
                it = it[w if isinstance(w, int) else w.as_long()] if isinstance(it, tuple) else q.get(pos)
                ok, it = (Not(it.isnone), it.val) if isinstance(it, Opt) else (it is not None, it)
                e.prove('first and last specification of the pattern', And(ok, it.term == G.specs[p][c]) if isinstance(it, UObj) else False)

        def lim(tab):
            def f(pnum=None):
                p = simp(pnum)
                if not isinstance(p, int) or not 0 <= p < m:
                    raise Unsupported('pattern number')
                return mkpoint(tab[p])
            return f
        return UObj(e.fresh('curve', z3.DeclareSort('BoundaryCurve')), 'BoundaryCurve', {'get_entrance': lambda s: Builtin('get_entrance', lim(E)), 'get_exit': lambda s: Builtin('get_exit', lim(X))})
    eng.contracts['curves.FuzzyCurve'] = curve
    eng.contracts['subsets.Link'] = lambda e, args, kwargs: mkgate(gate(*[x.term for x in list(args) + [kwargs[k] for k in ('entrance', 'exit')[len(args):]]]))
    gates = [gate(a, b) for a, b in zip(E, X)]
    std = by_rank([gstd(g) for g in gates])
    ex = EX(*std)
    eng.sorted_hook = order

    def paths(e, args, kwargs):
        v = dict(zip(('dim', 'div', 'links', 'max_cdist'), args), **kwargs)
        ls = terms(e, v['links'])
        e.prove('paths are sought with the standard gates', And(e.eq(v['dim'], G.d), e.eq(v['div'], G.N), v.get('max_cdist') is None,
                                                                 Or(*[same_terms(ls, q) for gs in ([gstd(g) for g in gates], gates) for q in itertools.permutations(gs)])))

        def example(links=None, parents=None, **kw):
            if links is not None or parents is not None:
                raise Unsupported('restrictions of the example')
            return Opt(Not(ex), tuple(UObj(e.fresh('path', NP), 'SomePath', {}) for _ in range(m)))
        return UObj(e.fresh('pg', z3.DeclareSort('PathsGen')), 'PathsGen', {'get_paths_example': lambda s: Builtin('get_paths_example', example)})
    eng.contracts['paths.PathsGenerator'] = paths
    ok1 = lambda t: And(fdim(t) != zval(G.d), Implies(G.facet, fdim(t) == zval(G.d) - 1))
    allowed = And(*[ok1(t) for t in E + X])
    G.obj.f['_seen_gates'] = G.hist(G.seen)
    G.obj.f['_seen_std_gates'] = G.hist(G.seen_std)
    # histories of earlier calls: the standard form of a gate tuple met before was met, or has no paths
    w = [eng.fresh('w%d' % i, GT) for i in range(m)]
    wstd = by_rank([gstd(g) for g in w])
    eng.assume(Implies(G.seen(*gates), Or(G.seen_std(*std), Not(ex))))
    eng.assume(Implies(G.seen(*w), Or(G.seen_std(*wstd), Not(EX(*wstd)))))
    if isinstance(G.d, int):
        ts = gates + [gstd(g) for g in gates] + w + [gstd(g) for g in w]
        for a in range(len(ts)):
            for b in range(a):
                eng.assume(z3.Implies(rank(ts[a]) == rank(ts[b]), ts[a] == ts[b]))
    eng.cover('inputs')
    r = eng.call(eng.getattr(G.obj, '_check_and_std'), [eng.mklist(list(G.protos)), tuple(s for row in spec for s in row)])
    new = And(allowed, Not(G.seen_std(*std)), ex)
    if isinstance(r, Opt):
        raise Unsupported('optional result')
    if r is None:
        eng.prove('nothing only if the gates are not allowed, were found before, or have no paths', Not(new))
    else:
        eng.prove('gates only if they are allowed, new and realisable', new)
        eng.prove('the standard form of the gates', same_terms(terms(eng, r), std))
    after, after_std = G.obj.f['_seen_gates'], G.obj.f['_seen_std_gates']
    wv = tuple(mkgate(t) for t in w)
    eng.prove('no more than the standard form is remembered', Implies(eng.contains(after_std, wv), Or(G.seen_std(*w), And(allowed, same_terms(w, std)))))
    eng.prove('nothing is forgotten', Implies(G.seen_std(*w), eng.contains(after_std, wv)))
    if r is not None:
        eng.prove('what is returned is remembered', eng.contains(after_std, tuple(mkgate(t) for t in std)))
    eng.prove('what was met has its standard form remembered', Implies(eng.contains(after, wv), Or(eng.contains(after_std, tuple(mkgate(t) for t in wstd)), Not(EX(*wstd)))))


def h_variants(eng, P):
    """every combination of boundary specs is tried once"""
    G = Generator(eng, P)
    m = G.m
    fin = P.get('n')
    cnt = {}
    at = {}
    d = []
    tried = eng.mklist(Bag([]))
    for p in range(m):
        for c in (0, 1):
            n = fin[(2 * p + c) % len(fin)] if fin is not None else eng.fresh('n_%d_%d' % (p, c), IntS)
            f = eng.fresh_fun('sp_%d_%d' % (p, c), IntS, SP)
            eng.assume(zval(n) >= 0)
            cnt[p, c], at[p, c] = n, f
            mk = lambda i, f=f: UObj(f(zval(i)), 'BoundarySpec', {})
            d.append(((p, 0 if c == 0 else -1), eng.mklist([mk(i) for i in range(n)]) if fin is not None else eng.mklist(Seq(n, mk))))
    sd = LDict(d)
    sd.birth = eng.new_birth()
    good = eng.fresh_fun('found', *([SP] * (2 * m) + [BoolS]))
    res = [eng.fresh_fun('res%d' % i, *([SP] * (2 * m) + [GT])) for i in range(m)]

    def check(e, a):
        t = terms(e, a['spec_list'])
        pr = terms(e, a['protos'])
        e.prove('the prototypes are handed on', same_terms(pr, [x.term for x in G.protos]))
        e.prove('a specification for every boundary fraction', len(t) == 2 * m)
        return Opt(Not(good(*t)), tuple(mkgate(f(*t)) for f in res))
    eng.contracts[GG + '._check_and_std'] = check
    eng.cover('inputs')
    out = eng.call(eng.getattr(G.obj, '_check_variants'), [eng.mklist(list(G.protos)), sd])
    keys = [(p, c) for p in range(m) for c in (0, 1)]
    W = [eng.fresh('w%d' % i, IntS) for i in range(2 * m)]
    eng.assume(And(*[And(w >= 0, w < zval(cnt[k])) for w, k in zip(W, keys)]))
    want = [at[k](w) for k, w in zip(keys, W)]
    tot = z3.IntVal(0)
    for ev in eng.bag_of(out).events:
        bs, c, v = eng.rename_event(ev)
        if isinstance(v, Opt):
            c, v = And(c, Not(v.isnone)), v.val
        v = terms(eng, v)
        sp = [v[0].arg(i) for i in range(2 * m)]
        eng.prove('what was found is handed on', Implies(c, And(good(*sp), *[x == f(*sp) for x, f in zip(v, res)])))
        ix = [s.arg(0) for s in sp]
        eng.prove('specifications of the boundary fractions, in order', And(*[s == at[k](i) for s, k, i in zip(sp, keys, ix)]))
        hit = eng.subst(zval(c), list(zip(ix, W))) if bs else And(c, *[i == w for i, w in zip(ix, W)])
        tot = tot + z3.If(zval(hit), 1, 0)
    eng.prove('every combination with gates once', tot == z3.If(good(*want), 1, 0))


def h_gen_gates(eng, P):
    """starts with an empty history and runs the enumeration that was asked for"""
    G = Generator(eng, P, facet=P['facet'])
    n = P.get('n') if P.get('n') is not None else eng.fresh('count', IntS)
    eng.assume(zval(n) >= 0)
    tab = {k: eng.fresh_fun('gates_' + k, IntS, GT) for k in ('facet', 'all')}
    asked = []
    w = tuple(mkgate(eng.fresh('w%d' % i, GT)) for i in range(G.m))
    G.obj.f['_seen_gates'] = G.hist(G.seen)
    G.obj.f['_seen_std_gates'] = G.hist(G.seen_std)

    def run(k):
        def con(e, a):
            asked.append(k)
            e.prove('no history of an earlier run', And(Not(e.contains(G.obj.f['_seen_gates'], w)), Not(e.contains(G.obj.f['_seen_std_gates'], w))))
            mk = lambda i: mkgate(tab[k](zval(i)))
            return GenIter(tuple(mk(i) for i in range(n)) if isinstance(n, int) else Seq(n, mk))
        return con
    eng.contracts[GG + '._gen_facet_gates'] = run('facet')
    eng.contracts[GG + '._gen_all_gates'] = run('all')
    eng.cover('inputs')
    out = eng.iter_of(eng.call(eng.getattr(G.obj, 'gen_gates'), []))
    k = 'facet' if P['facet'] else 'all'
    eng.prove('the enumeration that was asked for', asked == [k])
    i = eng.fresh('i', IntS)
    tot = z3.IntVal(0)
    eng.assume(And(i >= 0, i < zval(n)))
    for ev in eng.bag_of(out).events:
        bs, c, v = eng.rename_event(ev)
        j = v.term.arg(0)
        eng.prove('what was found is handed on', Implies(c, And(v.term == tab[k](j), j >= 0, j < zval(n))))
        tot = tot + z3.If(zval(eng.subst(zval(c), [(j, i)]) if bs else And(c, j == i)), 1, 0)
    eng.prove('everything found once', tot == 1)


def setup(eng):
    pass


T1 = [GG + '._check_and_std']
CONTRACTS = [
    Contract('_check_and_std (%d pattern%s)' % (m, 's' * (m > 1)), h_check_std, T1, setup, [{'dim': 2, 'div': 2}, {'dim': 1, 'div': 3}], params={'mult': m}, timeout=20.0) for m in (1, 2, 3)
] + [
    Contract('_check_variants (%d pattern%s)' % (m, 's' * (m > 1)), h_variants, [GG + '._check_variants'], setup, [{'dim': 2, 'div': 2, 'n': (1, 2, 2, 1, 1, 1)}, {'dim': 2, 'div': 2, 'n': (2, 1, 1, 2, 1, 1)}], params={'mult': m}, timeout=20.0) for m in (1, 2, 3)
] + [
    Contract('gen_gates (%s)' % ('facet' if f else 'all'), h_gen_gates, [GG + '.gen_gates'], setup, [{'dim': 2, 'div': 2, 'n': 2}], params={'mult': 2, 'facet': f}) for f in (False, True)
]
