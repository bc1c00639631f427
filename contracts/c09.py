"""C09: junction templates of a fuzzy curve.

Specs and junctions are elements of sorts; allowed(p, c, s) is an arbitrary relation (C10 proves what it is).  A template is an
assignment of specs to some fractions.  By their contracts (C08): the base junction at (p, c) depends on the specs of the
fractions c and c + 1; the closure of a junction depends on the specs of the first and last fraction of every pattern.
"""
import ast
import itertools
from contracts.common import *
from contracts.abstract import *
from pyvc.builtins_ import GenIter
from contracts.c05 import view, shape
from contracts.c10 import mk_plain

FZ = 'curves.FuzzyCurve'
SP, JU, TM = [z3.DeclareSort(x) for x in ('TSpec', 'TJunc', 'Template')]
AB, AS = z3.ArraySort(IntS, BoolS), z3.ArraySort(IntS, SP)
allowed = z3.Function('allowed_spec', IntS, IntS, SP, BoolS)
basej = z3.Function('base_junction', IntS, IntS, SP, SP, JU)
nospec = z3.Const('no_spec', SP)
mkspec = lambda t: UObj(t, 'TSpec', {})
mkjunc = lambda t: UObj(t, 'TJunc', {})


class Templates:
    def __init__(self, eng, P):
        self.eng = eng
        self.m = m = P['mult']
        self.G = G = P.get('genus') or eng.fresh('genus', IntS)
        if not isinstance(G, int):
            eng.assume(G >= 2)
        self.dfd = [z3.Function('defined_%d_%d' % (m, p), TM, IntS, BoolS) for p in range(m)]
        self.asg = [z3.Function('assigned_%d_%d' % (m, p), TM, IntS, SP) for p in range(m)]
        self.tmpl = z3.Function('template_%d' % m, *([AB, AS] * m), TM)
        self.reach = z3.Function('closure_%d' % m, JU, *([SP] * (2 * m)), JU, BoolS)
        eng.contracts[FZ + '.gen_allowed_specs'] = self.c_allowed
        for c in ('PathFuzzyCurve', 'Curve'):
            eng.contracts['curves.%s.gen_allowed_specs' % c] = self.c_allowed
        eng.contracts[FZ + '._specify_allowed'] = self.c_specify
        self.attrs = {'_get_base_junction': lambda s: Builtin('_get_base_junction', lambda pnum, cnum, depth=1: self.base(s.term, pnum, cnum)),
                      '_gen_junctions_from_base': lambda s: Builtin('_gen_junctions_from_base', lambda js: self.closure(s.term, js))}

    def curve(self):
        return new_obj(self.eng, cls_of(self.eng, FZ), mult=self.m, genus=self.G)

    def inside(self, p, c):
        return And(zval(p) >= 0, zval(p) < self.m, zval(c) >= 0, zval(c) < zval(self.G))

    def c_allowed(self, e, A):
        p, c = zval(A['pnum']), zval(A['cnum'])
        e.prove('allowed specs are asked for fractions that exist', self.inside(p, c))
        x = z3.FreshConst(SP, 'x')
        return GenIter(Bag([Event((x,), allowed(p, c, x), mkspec(x))]))

    def c_specify(self, e, A):
        """the template with the given specs"""
        D, V = [z3.K(IntS, z3.BoolVal(False))] * self.m, [z3.K(IntS, nospec)] * self.m
        d = A.get('spec_dict', A.get('specs'))
        if not isinstance(d, LDict) or d.base is not None:
            raise Unsupported('specs of a template')
        for p, row in d.puts:
            if not isinstance(row, LDict) or row.base is not None:
                raise Unsupported('specs of a template')
            for c, s in row.puts:
                e.prove('a template fixes fractions that exist', self.inside(p, c))
                e.prove('a template fixes allowed specs', allowed(zval(p), zval(c), s.term))
                for k in range(self.m):
                    on = zval(p) == k
                    D[k] = z3.If(on, z3.Store(D[k], zval(c), z3.BoolVal(True)), D[k])
                    V[k] = z3.If(on, z3.Store(V[k], zval(c), s.term), V[k])
        return UObj(self.tmpl(*[z3.simplify(x) for k in range(self.m) for x in (D[k], V[k])]), 'Template', self.attrs)

    def defined(self, t, p, c):
        return Or(*[And(zval(p) == k, t.arg(2 * k)[zval(c)]) for k in range(self.m)])

    def value(self, t, p, c):
        r = t.arg(1)[zval(c)]
        for k in range(1, self.m):
            r = z3.If(zval(p) == k, t.arg(2 * k + 1)[zval(c)], r)
        return r

    def gates(self, get):
        return [get(p, c) for p in range(self.m) for c in (z3.IntVal(0), zval(self.G) - 1)]

    def base(self, t, p, c):
        self.eng.prove('a base junction is asked for two consecutive fractions', And(self.inside(p, c), self.inside(p, zval(c) + 1)))
        self.eng.prove('the template fixes both fractions of the junction', And(self.defined(t, p, c), self.defined(t, p, zval(c) + 1)))
        return mkjunc(basej(zval(p), zval(c), self.value(t, p, c), self.value(t, p, zval(c) + 1)))

    def closure(self, t, js):
        e = self.eng
        js = e.plain_seq(js)
        if not isinstance(js, tuple) or len(js) != 1:
            raise Unsupported('base junctions')
        e.prove('the template fixes the first and last fractions of all patterns', And(*self.gates(lambda p, c: self.defined(t, p, c))))
        j = z3.FreshConst(JU, 'j')
        return GenIter(Bag([Event((j,), self.reach(js[0].term, *self.gates(lambda p, c: self.value(t, p, c)), j), mkjunc(j))]))

    def reached(self, t_or_sigma, p, c, j):
        get = t_or_sigma if callable(t_or_sigma) else lambda p, c: self.value(t_or_sigma, p, c)
        return self.reach(basej(p, c, get(p, c), get(p, c + 1)), *self.gates(get), j)


def entries(eng, out):
    """(binders, condition, junction, template) listed in the dictionary of lists"""
    if not isinstance(out, LDict) or out.puts:
        raise Unsupported('templates')
    b = out.base
    if b is None:
        return []
    if not hasattr(b, 'events'):
        raise Unsupported('templates')
    return [eng.rename_event(ev) for ev in b.events]


def atoms(t, acc=None):
    acc = [] if acc is None else acc
    if z3.is_app(t):
        if t.decl().eq(allowed):
            acc.append(t)
        for x in t.children():
            atoms(x, acc)
    return acc


def h_templates(eng, P):
    W = Templates(eng, P)
    C = W.curve()
    eng.cover('inputs')
    out = eng.call(eng.getattr(C, 'get_junction_templates'), [])
    evs = entries(eng, out)
    # soundness: whatever is listed
    for bs, c, v in evs:
        j, t = v[0].term, v[1].term
        p0, c0 = z3.FreshInt('p'), z3.FreshInt('c')
        if isinstance(W.G, int):
            some = Or(*[W.reached(t, z3.IntVal(a), z3.IntVal(b), j) for a in range(W.m) for b in range(W.G - 1)])
        else:
            some = z3.Exists([p0, c0], zval(And(W.inside(p0, c0), c0 + 1 < W.G, W.defined(t, p0, c0), W.defined(t, p0, c0 + 1), W.reached(t, p0, c0, j))))
        eng.prove('a curve that agrees with a template has the junction', Implies(c, some))
        eng.prove('the first and last fractions are fixed, so the derived junctions are determined', Implies(c, And(*W.gates(lambda p, c: W.defined(t, p, c)))))
    # completeness: whatever junction a compatible curve has
    sig = z3.Function('chosen_spec', IntS, IntS, SP)
    p1, c1 = eng.fresh('p1', IntS), eng.fresh('c1', IntS)
    j1 = eng.fresh('j1', JU)
    eng.assume(And(W.inside(p1, c1), W.inside(p1, c1 + 1)))
    for a, b in [(z3.IntVal(k), x) for k in range(W.m) for x in (z3.IntVal(0), zval(W.G) - 1)] + [(p1, c1), (p1, c1 + 1)]:
        eng.assume(allowed(a, b, sig(a, b)))
    eng.assume(W.reached(lambda p, c: sig(p, c), p1, c1, j1))
    hits = []
    for bs, c, v in evs:
        c = zval(c)
        ints = [b for b in bs if b.sort() == IntS]
        juncs = [b for b in bs if b.sort() == JU]
        for cand in itertools.product([c1, p1, p1 * (zval(W.G) - 1) + c1], repeat=len(ints)):
            sub = list(zip(ints, cand)) + [(b, j1) for b in juncs]
            cc = z3.substitute(c, *sub) if sub else c
            ok = True
            for b in bs:
                if b.sort() != SP:
                    continue
                at = [x for x in atoms(cc) if x.arg(2).eq(b)]
                if not at:
                    ok = False
                    break
                sub.append((b, sig(at[0].arg(0), at[0].arg(1))))
            if not ok:
                raise Unsupported('unexpected enumeration of templates')
            s = lambda x: z3.substitute(zval(x), *sub) if sub else zval(x)
            t = s(v[1].term)
            x = z3.FreshInt('x')
            if isinstance(W.G, int):
                agree = And(*[Implies(W.defined(t, k, y), W.value(t, k, y) == sig(k, y)) for k in range(W.m) for y in range(W.G)])
            else:
                agree = z3.ForAll([x], zval(And(*[Implies(W.defined(t, k, x), W.value(t, k, x) == sig(k, x)) for k in range(W.m)])))
            hits.append(And(s(c), s(v[0].term) == j1, agree))
    eng.prove('the junction is listed with a template the curve agrees with', Or(*hits))


def h_gen_regular(eng, P):
    n, fin = (P['n'], True) if 'n' in P else (eng.fresh('listed', IntS), False)
    eng.assume(zval(n) >= 0)
    key = eng.fresh_fun('listed_junction', IntS, JU)
    if fin:
        for i in range(n):
            for j in range(i):
                eng.assume(key(i) != key(j))
    pairs = [(mkjunc(key(z3.IntVal(i))), eng.mklist([])) for i in range(n)] if fin else None

    class Table:
        def find(self, e, k):
            raise Unsupported('look-up')

        def view(self, e, what):
            if what != 'keys':
                raise Unsupported('values')
            return Seq(n, lambda i: mkjunc(key(zval(i))))

    def contract(e, A):
        d = LDict(pairs if fin else [], None if fin else Table())
        d.birth = e.new_birth()
        return d
    eng.contracts[FZ + '.get_junction_templates'] = contract
    W = new_obj(eng, cls_of(eng, FZ))
    out = eng.call(eng.getattr(W, 'gen_regular_junctions'), [])
    w = eng.fresh('w', IntS)
    eng.assume(And(w >= 0, w < zval(n)))
    tot = z3.IntVal(0)
    for ev in eng.bag_of(out).events:
        bs, c, v = eng.rename_event(ev)
        i = v.term.arg(0) if v.term.num_args() == 1 else None
        if i is None:
            raise Unsupported('unexpected junctions')
        eng.prove('only listed junctions', Implies(c, And(i >= 0, i < zval(n))))
        tot = tot + z3.If(zval(eng.subst(zval(c), [(i, w)]) if bs else And(c, i == w)), 1, 0)
    eng.prove('every junction with templates once', tot == 1)


def h_specify_many(eng, P):
    """several specs at once; what the contract of _specify_allowed above stands for"""
    d = sym_dim(eng, P)
    grp = Group(eng, d, coords=False, laws=False)
    C = SymCurve(eng, grp, 'curves.PathFuzzyCurve', holes=True, P=P)
    C.obj.f.update({k: UObj(eng.fresh(k, TM), 'table', {}) for k in ('links_symmetries', 'links_std', 'pattern_links', 'pattern_reprs')})
    rows = P['rows']
    pos, dd = [], LDict()
    dd.birth = eng.new_birth()
    ps = [eng.fresh('p%d' % i, IntS) for i in range(len(rows))]
    for i, p in enumerate(ps):
        eng.assume(And(p >= 0, p < C.mult, *[p != x for x in ps[:i]]))
        row = LDict()
        row.birth = eng.new_birth()
        cs = [eng.fresh('c%d_%d' % (i, k), IntS) for k in range(rows[i])]
        for k, c in enumerate(cs):
            eng.assume(And(c >= 0, c < C.genus, *[c != x for x in cs[:k]]))
            g, n = grp.fresh('g').term, eng.fresh('n', IntS)
            pos.append((p, c, g, n))
            row.puts.append((c, mk_plain(eng, grp, g, n)))
        dd.puts.append((p, row))
    q, e = eng.fresh('q', IntS), eng.fresh('e', IntS)
    eng.assume(ranges((q, C.mult), (e, C.genus)))
    eng.cover('inputs')
    R = eng.call(eng.getattr(C.obj, '_specify_allowed'), [dd])
    cn, cube_, sn, bm, pn = view(eng, R, q, e)
    other = []
    for p, c, g, n in pos:
        here = And(q == p, e == c)
        other.append(Not(here))
        eng.prove('a listed fraction is fixed', Implies(here, Not(sn)))
        if bm is not None:
            eng.prove('a listed fraction is fixed to its spec', Implies(here, And(bm.term == g, eng.eq(pn, n))))
    eng.prove('other fractions stay fixed or free', Implies(And(*other), eng.eq(sn, C.nospec(q, e))))
    if bm is not None:
        eng.prove('other fractions keep their spec', Implies(And(Not(sn), *other), And(bm.term == C.sbm(q, e), eng.eq(pn, C.spn(q, e)))))
    eng.prove('cubes are kept', And(eng.eq(cn, C.nocube(q, e)), Implies(Not(cn), eng.eq(eng.plain_seq(cube_), C.cube_at(q, e))) if cube_ is not None else True))
    eng.prove('shape and selected pattern', shape(eng, R, C, C.pnum))
    for k in ('links_symmetries', 'links_std', 'pattern_links', 'pattern_reprs'):
        eng.prove('the tables of gates are kept', R.f.get(k) is C.obj.f[k])
    eng.prove('the original is not changed', quiet(eng), kind='frame')


def setup(eng):
    pass


CONTRACTS = [
    Contract('get_junction_templates (%d pattern%s)' % (m, 's' * (m > 1)), h_templates, [FZ + '.get_junction_templates'], setup, [{'genus': 2}, {'genus': 3}], params={'mult': m}, timeout=20.0) for m in (1, 2)
]
CONTRACTS += [
    Contract('_specify_allowed (%s)' % ' + '.join(map(str, r)), h_specify_many, [FZ + '._specify_allowed'], setup, [{'dim': 1, 'div': 4, 'mult': 2}, {'dim': 2, 'div': 2, 'mult': 2}], params={'rows': r}, timeout=20.0) for r in ((3,), (4,), (2, 3))
] + [
    Contract('gen_regular_junctions of a fuzzy curve', h_gen_regular, [FZ + '.gen_regular_junctions'], setup, [{'n': 2}, {'n': 3}]),
]
