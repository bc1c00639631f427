"""C15: minimal dilation over fuzzy curves.

A bisection is judged for one arbitrary compatible curve g: has(x) says that g has the pair x, W is its dilation.
Queue by its contract (C12), bounds and division by theirs (C13), filling of the tree by C14, solver and clauses by C11.
"""
import ast
from fractions import Fraction
from contracts.common import *
from contracts.abstract import *
from contracts import inv
from contracts.c14 import EST, IT, SET, lo, up, stat
from pyvc.builtins_ import GenIter
from pyvc.engine import Poison

val = z3.Function('pair_dilation', IT, RealS)
has = z3.Function('curve_has_pair', IT, BoolS)
JN = z3.DeclareSort('JuncOfItem')
FC = z3.DeclareSort('CurveOfItem')
junc, crv = z3.Function('junc_of', IT, JN), z3.Function('curve_of', IT, FC)
ADP = '_sat_adapters.CurveSATAdapter'


def mkitem(t):
    return UObj(t, 'Item', {'lo': lambda s: lo(s.term), 'up': lambda s: up(s.term), 'pair': lambda s: UObj(s.term, 'Pair', {
        'junc': lambda q: UObj(junc(q.term), 'Junction', {}), 'curve': lambda q: UObj(crv(q.term), 'FuzzyCurve', {})})})


def h_forbid(eng, P):
    """every bad pair is forbidden with its junction and its partial curve, and nothing else is"""
    n = P['n'] if 'n' in P else eng.fresh('bad_items', IntS)
    eng.assume(zval(n) >= 0)
    it = eng.fresh_fun('bad_item', IntS, IT)
    taken = []
    lst = eng.mklist(Bag([]))

    def pop():
        taken.append(1)
        return GenIter(SymCurve.seq(n, lambda i: mkitem(it(zval(i)))))
    tree = UObj(eng.fresh('tree', z3.DeclareSort('Tree')), 'BoundedItemsHeap', {'pop_bad_items': lambda s: Builtin('pop_bad_items', pop)})

    def forbid(j, c):
        eng.coll_method(lst, 'append', ((j, c),), {})
    ad = UObj(eng.fresh('adapter', z3.DeclareSort('Adapter')), 'CurveSATAdapter', {'add_forbid_clause': lambda s: Builtin('add_forbid_clause', lambda junc, curve: forbid(junc, curve))})
    est = new_obj(eng, cls_of(eng, EST))
    eng.cover('inputs')
    eng.call(eng.getattr(est, '_forbid'), [tree, ad])
    eng.prove('the bad pairs are taken from the tree', len(taken) >= 1)
    hits, w = [], eng.fresh('w', IntS)
    eng.assume(ranges((w, n)))
    for ev in eng.bag_of(lst).events:
        bs, c, v = eng.rename_event(ev)
        j, cu = eng.getitem(v, 0).term, eng.getitem(v, 1).term
        if 'n' in P:
            if bs:
                raise Unsupported('unexpected enumeration')
            eng.prove('only bad pairs are forbidden', Implies(c, Or(*[And(j == junc(it(z3.IntVal(k))), cu == crv(it(z3.IntVal(k)))) for k in range(P['n'])])))
            hits.append((c, j, cu))
            continue
        if len(bs) != 1 or bs[0].sort() != IntS:
            raise Unsupported('unexpected enumeration')
        eng.prove('only bad pairs are forbidden', Implies(c, And(ranges((bs[0], n)), j == junc(it(bs[0])), cu == crv(it(bs[0])))))
        hits.append(eng.subst(zval(c), [(bs[0], w)]))
    if 'n' in P:
        for k in range(P['n']):
            x = it(z3.IntVal(k))
            eng.prove('every bad pair is forbidden', Or(*[And(c, j == junc(x), cu == crv(x)) for c, j, cu in hits]))
    else:
        eng.prove('every bad pair is forbidden', Or(*hits))


class Search:
    """ghost state of a bisection for one arbitrary compatible curve"""
    def __init__(self, eng, P):
        self.eng, self.fin = eng, P.get('n')
        self.W = eng.fresh('dilation_of_g', RealS)
        self.good, self.bad = eng.fresh('good', RealS), eng.fresh('bad', RealS)
        self.A = z3.BoolVal(True)           # g satisfies all clauses so far
        self.solved = None
        self.trees = 0
        self.obj = UObj(eng.fresh('tree', z3.DeclareSort('Tree')), 'BoundedItemsHeap', {'size': lambda s: Builtin('size', self.size), 'stats': lambda s: stat()})
        self.ad = UObj(eng.fresh('adapter', z3.DeclareSort('Adapter')), 'CurveSATAdapter', {
            'solve': lambda s: Builtin('solve', self.solve), 'get_model_curve': lambda s: Builtin('get_model_curve', self.model),
            'get_problem_size': lambda s: Builtin('get_problem_size', lambda: stat())})

    def sane(self, x):
        return z3.Implies(has(x), z3.And(lo(x) <= val(x), val(x) <= up(x), val(x) <= self.W))

    def fresh(self, nm):
        x = self.eng.fresh(nm, IT)
        self.eng.assume(self.sane(x))
        return x

    isgood = lambda self, x: up(x) <= self.good
    isbad = lambda self, x: z3.And(up(x) > self.good, lo(x) >= self.bad)
    isact = lambda self, x: z3.And(up(x) > self.good, lo(x) < self.bad)

    def start(self):
        """all initial pairs were pushed; the dilation of g is attained at one of them"""
        eng = self.eng
        self.trees += 1
        if self.trees > 1:
            raise Unsupported('second tree')
        if self.fin is not None:
            xs = [self.fresh('a%d' % i) for i in range(self.fin)]
            eng.assume(z3.Or(*[z3.And(has(x), val(x) == self.W) for x in xs]))
            self.act = [[x, self.isact(x)] for x in xs]
            self.badl = [(x, self.isbad(x)) for x in xs]
            return self.obj
        self.w = self.fresh('witness')
        eng.assume(z3.And(has(self.w), val(self.w) == self.W))
        self.newsets()
        self.pushed(self.w)
        return self.obj

    def newsets(self):
        """active and bad items: classified by the thresholds, sound for g"""
        eng = self.eng
        self.M, self.B = eng.fresh('active', SET), eng.fresh('bad_items', SET)
        x = z3.Const('x!s', IT)
        eng.assume(z3.ForAll([x], z3.Implies(self.M[x], z3.And(self.sane(x), self.isact(x))), patterns=[self.M[x]]))
        eng.assume(z3.ForAll([x], z3.Implies(self.B[x], z3.And(self.sane(x), self.isbad(x))), patterns=[self.B[x]]))

    def pushed(self, x):
        self.eng.assume(z3.Or(self.isgood(x), z3.And(self.isbad(x), self.B[x]), z3.And(self.isact(x), self.M[x])))

    def havoc(self):
        eng = self.eng
        self.newsets()
        self.w = self.fresh('witness')
        self.A = eng.fresh('g_satisfies', BoolS)
        x = z3.Const('x!h', IT)
        eng.assume(z3.ForAll([x], z3.Not(self.B[x]), patterns=[self.B[x]]))
        self.solved = None

    # -- operations
    def size(self):
        eng = self.eng
        if self.fin is not None:
            return sum([z3.If(zval(c), z3.IntVal(1), z3.IntVal(0)) for _, c in self.act], z3.IntVal(0))
        n = eng.fresh('size', IntS)
        x = z3.Const('x!n', IT)
        eng.assume(z3.And(n >= 0, (n > 0) == z3.Exists([x], self.M[x]), z3.Implies(self.M[self.w], n > 0)))
        return n

    def divide(self):
        eng = self.eng
        if self.fin is not None:
            for q in self.act:
                x, c = q
                if eng.branch(And(c, *[Or(Not(d), up(y) <= up(x)) for y, d in self.act])):
                    q[1] = False
                    parts = [self.fresh('part') for _ in range(2)]
                    eng.assume(z3.Implies(has(x), z3.Or(*[z3.And(has(s), val(s) == val(x)) for s in parts])))
                    self.act += [[s, self.isact(s)] for s in parts]
                    self.badl += [(s, self.isbad(s)) for s in parts]
                    return
            raise PyRaise('IndexError')
        t = eng.fresh('worst', IT)
        x = z3.Const('x!q', IT)
        if not eng.branch(z3.Exists([x], self.M[x])):
            raise PyRaise('IndexError')
        eng.assume(self.M[t])
        old, oldB = self.M, self.B
        s = self.fresh('part')
        eng.assume(z3.Implies(has(t), z3.And(has(s), val(s) == val(t))))
        self.newsets()
        eng.assume(z3.ForAll([x], z3.Implies(z3.And(old[x], x != t), self.M[x]), patterns=[old[x]]))
        eng.assume(z3.Implies(z3.And(old[self.w], self.w != t), self.M[self.w]))
        eng.assume(z3.ForAll([x], z3.Implies(oldB[x], self.B[x]), patterns=[oldB[x]]))
        self.pushed(s)
        self.w = z3.If(self.w == t, s, self.w)

    def forbid(self, tree, ad):
        """contract of _forbid: every bad pair becomes a clause that excludes exactly the curves having it"""
        eng = self.eng
        eng.prove('the clauses go to the solver of this bisection', ad is self.ad and tree is self.obj)
        self.solved = None
        if self.fin is not None:
            self.A = zval(And(self.A, *[Not(And(c, has(x))) for x, c in self.badl]))
            self.badl = []
            return
        x = z3.Const('x!f', IT)
        A = eng.fresh('g_satisfies', BoolS)
        eng.assume(z3.Implies(A, z3.And(self.A, z3.ForAll([x], z3.Implies(self.B[x], z3.Not(has(x))), patterns=[self.B[x]]), z3.Implies(self.B[self.w], z3.Not(has(self.w))))))
        eng.assume(z3.Implies(z3.And(self.A, z3.Not(A)), z3.Exists([x], z3.And(self.B[x], has(x)))))
        self.A = A
        self.B = z3.K(IT, z3.BoolVal(False))

    def solve(self):
        eng = self.eng
        if eng.branch(eng.fresh('satisfiable', BoolS)):
            self.solved = True
            return True
        eng.assume(z3.Not(self.A))
        self.solved = False
        return False

    def model(self):
        """the curve read from the model: choose it as g, so g satisfies the clauses"""
        self.eng.prove('a curve is read only after the solver found a model of all clauses', self.solved is True)
        self.eng.assume(self.A)
        self.out = UObj(self.eng.fresh('model_curve', z3.DeclareSort('RegularCurve')), 'Curve', {})
        return self.out

    def invariants(self):
        return [('a curve excluded by the clauses is bad', z3.Implies(z3.Not(self.A), self.W >= self.bad)),
                ('the dilation of a curve not excluded is good or attained at an active pair', z3.Implies(self.A, z3.Or(self.W <= self.good, z3.And(self.M[self.w], has(self.w), val(self.w) == self.W))))]


def bisect_loop(S):
    def spec(eng, s, env, it, carried):
        if it is not None or S.fin is not None:
            return None
        ints = [n for n, v in carried.items() if isinstance(v, int) and not isinstance(v, bool)]
        rest = [n for n in carried if n not in ints]
        if any(carried[n] is not None and not isinstance(carried[n], bool) for n in rest):
            return None

        class L(inv.Loop):
            def havoc(self, k):
                S.havoc()
                for n in ints:
                    env.vars[n] = eng.fresh(n, IntS)

            def inv(self, k):
                return S.invariants() + [('no answer yet', env.vars[n] is carried[n]) for n in rest]
        return L()
    return spec


def h_bisect(eng, P):
    S = Search(eng, P)
    cur = UObj(eng.fresh('fuzzy', z3.DeclareSort('FuzzyCurve')), 'FuzzyCurve', {})
    same = lambda v, u: isinstance(v, UObj) and v is u
    thr = lambda e, A: e.prove('the tree works with the given thresholds', And(*[Not(opt(A.get(n))[0]) if opt(A.get(n))[1] is not None else False for n in ('good_threshold', 'bad_threshold')],
                                                                                *[toreal(opt(A.get(n))[1]) == t if opt(A.get(n))[1] is not None else False for n, t in (('good_threshold', S.good), ('bad_threshold', S.bad))]))

    def create(e, A):
        thr(e, A)
        e.prove('the tree is that of the given curve', same(A['curve'], cur))
        return S.start()
    eng.contracts[EST + '._create_tree'] = create

    def copy(good_threshold=None, bad_threshold=None):
        thr(eng, {'good_threshold': good_threshold, 'bad_threshold': bad_threshold})
        return S.start()
    tree0 = UObj(eng.fresh('tree0', z3.DeclareSort('Tree')), 'BoundedItemsHeap', {'copy_and_cleanup': lambda s: Builtin('copy_and_cleanup', copy)})
    ad0 = UObj(eng.fresh('adapter0', z3.DeclareSort('Adapter')), 'CurveSATAdapter', {})

    def adapter(e, args, kw):
        a = dict(zip(('curve', 'adapter'), args), **kw)
        if a.get('adapter') is not None:
            e.prove('the solver starts from the given one', same(a['adapter'], ad0) and a.get('curve') is None)
        else:
            e.prove('the solver is that of the given curve', same(a.get('curve'), cur))
        return S.ad
    eng.contracts[ADP] = adapter
    eng.contracts[EST + '._divide_tree'] = lambda e, A: S.divide()
    eng.contracts[EST + '._forbid'] = lambda e, A: S.forbid(A['tree'], A['adapter'])
    eng.contracts[EST + '._add_tree_stats'] = lambda e, A: None
    eng.contracts[EST + '._update_max_stats'] = lambda e, A: None
    est = new_obj(eng, cls_of(eng, EST))
    est.f['sum_stats'] = stat()
    est.f['max_stats'] = stat()
    eng.loop_hints = {'inv': inv.make(bisect_loop(S))}
    if S.fin is not None:
        eng.unroll = P.get('iters', 1)
    kw = {'max_iter': Opt(eng.fresh('no_max_iter', BoolS), eng.fresh('max_iter', IntS)) if 'n' not in P else None}
    if P.get('init'):
        kw.update(init_pairs_tree=tree0, init_sat_adapter=ad0)
    eng.cover('inputs')
    try:
        r = eng.call(eng.getattr(est, 'bisect_dilation_fuzzy'), [cur, S.good, S.bad], kw)
    except PyRaise as e:
        if 'RunOutOfIterations' in e.exc:
            return
        raise
    isn, c = opt(r)
    if isn is True:
        eng.prove('no curve is returned only if every compatible curve has dilation at least the bad threshold', S.W >= S.bad)
    else:
        eng.prove('a returned curve is one the solver gives', same(r, getattr(S, 'out', None)))
        eng.prove('a returned curve has dilation at most the good threshold', S.W <= S.good)


BFIN = [{'n': 1, 'iters': 1}, {'n': 2, 'iters': 1}, {'n': 1, 'iters': 2}]


def h_fuzzy(eng, P):
    """bounds of the minimal dilation over the compatible curves"""
    CU = z3.DeclareSort('RegularCurve')
    W = z3.Function('dilation_of', CU, RealS)
    comp = z3.Function('compatible', CU, BoolS)
    Wmin = eng.fresh('minimal_dilation', RealS)
    eng.assume(Wmin >= 0)
    x = z3.Const('x!c', CU)

    def curve(nm):
        t = eng.fresh(nm, CU)
        eng.assume(z3.And(comp(t), W(t) >= Wmin))
        return UObj(t, 'Curve', {})
    cur = UObj(eng.fresh('fuzzy', z3.DeclareSort('FuzzyCurve')), 'FuzzyCurve', {'get_curve_example': lambda s: Builtin('get_curve_example', lambda: curve('example'))})
    tree0 = UObj(eng.fresh('tree0', z3.DeclareSort('Tree')), 'BoundedItemsHeap', {})
    ad0 = UObj(eng.fresh('adapter0', z3.DeclareSort('Adapter')), 'CurveSATAdapter', {})
    same = lambda v, u: isinstance(v, UObj) and v is u
    tol = eng.fresh('rel_tol_inv', IntS)
    eng.assume(tol >= 1)

    def create(e, A):
        e.prove('the tree is that of the given curve, without thresholds', And(same(A['curve'], cur), opt(A.get('good_threshold'))[0], opt(A.get('bad_threshold'))[0]))
        return tree0
    eng.contracts[EST + '._create_tree'] = create
    eng.contracts[EST + '._add_tree_stats'] = lambda e, A: None

    def adapter(e, args, kw):
        a = dict(zip(('curve', 'adapter'), args), **kw)
        e.prove('the solver is that of the given curve', same(a.get('curve'), cur) and a.get('adapter') is None)
        return ad0
    eng.contracts[ADP] = adapter

    def regular(e, A):
        c = A['curve']
        e.prove('the first bound comes from a compatible curve', comp(c.term))
        u, l = e.fresh('reg_up', RealS), e.fresh('reg_lo', RealS)
        e.assume(z3.And(u >= W(c.term), l <= W(c.term)))
        d = LDict([('up', u), ('lo', l)])
        d.birth = e.new_birth()
        return d
    eng.contracts[EST + '.estimate_dilation_regular'] = regular
    ran_out = []

    def bisect(e, A):
        e.prove('the bisection is that of the given curve', same(A['curve'], cur))
        t, a = A.get('init_pairs_tree'), A.get('init_sat_adapter')
        e.prove('the bisection starts from the full tree and the unrestricted solver', (t is None or same(t, tree0)) and (a is None or same(a, ad0)))
        g, b = toreal(A['good_threshold']), toreal(A['bad_threshold'])
        e.prove('the bad threshold is below the good one', b < g)
        if e.branch(e.fresh('run_out', BoolS)):
            ran_out.append(1)
            raise PyRaise('_RunOutOfIterationsException')
        if e.branch(e.fresh('found', BoolS)):
            c = curve('found_curve')
            e.assume(W(c.term) <= g)
            return c
        e.assume(Wmin >= b)
        return None
    eng.contracts[EST + '.bisect_dilation_fuzzy'] = bisect
    est = new_obj(eng, cls_of(eng, EST))
    est.f['sum_stats'] = stat()
    est.f['max_stats'] = stat()
    stop = Opt(eng.fresh('no_stop', BoolS), eng.fresh('stop', RealS)) if 'stop' not in P else P['stop']
    slo = Opt(eng.fresh('no_start_lo', BoolS), eng.fresh('start_lo', RealS))
    eng.assume(Implies(Not(slo.isnone), And(slo.val <= Wmin, slo.val >= 0)))
    kw = {'rel_tol_inv': tol, 'stop_upper_bound': stop, 'start_lower_bound': slo}
    if P.get('started'):
        c0 = curve('start_curve')
        u0 = eng.fresh('start_up', RealS)
        eng.assume(u0 >= W(c0.term))
        kw.update(start_upper_bound=u0, start_curve=c0)

    def spec(e, s, env, it, carried):
        if it is not None or P.get('iters') is not None:
            return None
        unopt = lambda v: v.val if isinstance(v, Opt) and e.known(Not(v.isnone)) else v
        carried = {n: unopt(v) for n, v in carried.items()}
        reals = [n for n, v in carried.items() if is_z3(v) and v.sort() == RealS or isinstance(v, (Fraction, int)) and not isinstance(v, bool)]
        cs = [n for n, v in carried.items() if isinstance(v, UObj) and v.tag == 'Curve']
        los = [n for n in reals if e.known(toreal(carried[n]) <= Wmin, 2000)]
        ups = [n for n in reals if n not in los]
        if len(los) != 1 or len(ups) != 1 or len(cs) != 1 or len(carried) != 3:
            return None

        class L(inv.Loop):
            def havoc(self, k):
                env.vars[los[0]], env.vars[ups[0]] = e.fresh('lo', RealS), e.fresh('up', RealS)
                env.vars[cs[0]] = UObj(e.fresh('best', CU), 'Curve', {})

            def inv(self, k):
                l, u, c = toreal(unopt(env.vars[los[0]])), toreal(unopt(env.vars[ups[0]])), env.vars[cs[0]].term
                return [('the lower bound is a bound of the minimum', And(l <= Wmin, l >= 0)), ('the curve is compatible with dilation within the upper bound', And(comp(c), W(c) <= u, W(c) >= Wmin))]
        return L()
    eng.loop_hints = {'inv': inv.make(spec)}
    if P.get('iters') is not None:
        eng.unroll = P['iters']
    eng.cover('inputs')
    r = eng.call(eng.getattr(est, 'estimate_dilation_fuzzy'), [cur], kw)
    bare = lambda v: v.val if isinstance(v, Opt) and eng.known(Not(v.isnone)) else v
    l, u, c = toreal(bare(eng.getitem(r, 'lo'))), toreal(bare(eng.getitem(r, 'up'))), eng.getitem(r, 'curve')
    eng.prove('the returned lower bound is at most the minimal dilation', l <= Wmin)
    eng.prove('the returned upper bound is at least the minimal dilation', u >= Wmin)
    eng.prove('the returned curve is compatible and its dilation lies within the bounds', And(comp(c.term), W(c.term) <= u, W(c.term) >= l))
    stopped = And(Not(opt(stop)[0]), l > opt(stop)[1]) if opt(stop)[1] is not None else False
    eng.prove('the bounds meet the tolerance unless stopped', Or(bool(ran_out), stopped, u * toreal(tol) <= l * toreal(tol + 1)))


# -- sequences of fuzzy curves
RC, FZ = z3.DeclareSort('RegularCurve'), z3.DeclareSort('FuzzyOfSequence')
Wm = z3.Function('minimum_of', IntS, RealS)         # minimal dilation of the i-th fuzzy curve
Wc = z3.Function('dilation_of', RC, RealS)
cmp_ = z3.Function('compatible_with', IntS, RC, BoolS)
fz = z3.Function('fuzzy_curve', IntS, FZ)
num = z3.Function('number_of', FZ, IntS)
AB, AL, AX = z3.ArraySort(IntS, BoolS), z3.ArraySort(IntS, RealS), z3.ArraySort(IntS, RC)
front = z3.Function('front_of', AB, IntS)


def sound(i, l, u, x):
    return z3.And(l >= 0, l <= Wm(i), Wm(i) <= Wc(x), Wc(x) <= u, cmp_(i, x))


def seq_item(i, l, u, x):
    return UObj(z3.IntVal(0) if i is None else i, 'CurveItem', {
        'idx': lambda s: i, 'lo': lambda s: l, 'up': lambda s: u, 'example': lambda s: x, 'curve': lambda s: UObj(fz(i), 'FuzzyCurve', {'count_possible_curves': lambda q: Builtin('count', stat)})})


class SBag(Bag):
    """content of the heap of candidates: a set of numbers with the data of each"""
    def __init__(self, A, L, U, X):
        self.A, self.L, self.U, self.X = A, L, U, X
        i = z3.FreshConst(IntS, 'idx')
        super().__init__([Event((i,), A[i], self.item(i))])

    def item(self, i):
        # attributes follow the term, so that substitution of the index works
        g = lambda f: (lambda s: f(s.term))
        return UObj(i, 'CurveItem', {'idx': g(lambda t: t), 'lo': g(lambda t: self.L[t]), 'up': g(lambda t: self.U[t]), 'example': g(lambda t: UObj(self.X[t], 'Curve', {})),
                                     'curve': g(lambda t: UObj(fz(t), 'FuzzyCurve', {}))})

    def index(self, eng, k):
        if simp(k) != 0:
            raise Unsupported('index into a heap')
        return self.item(self.least(eng))

    def least(self, eng):
        i = z3.Int('i!l')
        if not eng.branch(z3.Exists([i], self.A[i])):
            raise PyRaise('IndexError')
        eng.assume(self.A[front(self.A)])
        return front(self.A)


class SeqHeap:
    """heapq by contract: the first element of the list is the one heappop removes"""
    def push(self, eng, l, node):
        g = lambda n: eng.getattr(node, n)
        c = l.content
        if isinstance(c, list):
            k = 0
            pr = lambda z: toreal(eng.getattr(z, 'priority'))
            while k < len(c) and eng.branch(pr(c[k]) <= pr(node)):
                k += 1
            c.insert(k, node)
            return
        if not isinstance(c, SBag):
            raise Unsupported('heap content')
        i = zval(g('idx'))
        eng.prove('the candidate keeps its fuzzy curve', g('curve').term == fz(i))
        bare = lambda v: v.val if isinstance(v, Opt) and eng.known(Not(v.isnone)) else v
        l.content = SBag(z3.Store(c.A, i, True), z3.Store(c.L, i, toreal(bare(g('lo')))), z3.Store(c.U, i, toreal(bare(g('up')))), z3.Store(c.X, i, bare(g('example')).term))

    def pop(self, eng, l):
        c = l.content
        if isinstance(c, list):
            if not c:
                raise PyRaise('IndexError')
            return c.pop(0)
        if not isinstance(c, SBag):
            raise Unsupported('heap content')
        i = c.least(eng)
        l.content = SBag(z3.Store(c.A, i, False), c.L, c.U, c.X)
        return c.item(i)


def h_sequence(eng, P):
    n = P['n'] if 'n' in P else eng.fresh('curves', IntS)
    q = eng.fresh('best', IntS)
    eng.assume(And(zval(n) >= 1, ranges((q, n))))
    Wmin = Wm(q)
    i_ = z3.Int('i!w')
    if 'n' in P:
        for k in range(P['n']):
            eng.assume(And(Wm(z3.IntVal(k)) >= Wmin, num(fz(z3.IntVal(k))) == k))
    else:
        eng.assume(z3.ForAll([i_], z3.Implies(z3.And(i_ >= 0, i_ < n), Wm(i_) >= Wmin), patterns=[Wm(i_)]))
        eng.assume(z3.ForAll([i_], num(fz(i_)) == i_, patterns=[fz(i_)]))
    eng.assume(Wmin > 0)
    curves = eng.mklist(SymCurve.seq(n, lambda i: UObj(fz(zval(i)), 'FuzzyCurve', {'count_possible_curves': lambda s: Builtin('count', stat)})))
    if 'n' in P:
        curves = eng.mklist([UObj(fz(z3.IntVal(k)), 'FuzzyCurve', {'count_possible_curves': lambda s: Builtin('count', stat)}) for k in range(P['n'])])
    bare = lambda v: v.val if isinstance(v, Opt) and eng.known(Not(v.isnone)) else v

    def fuzzy(e, A):
        i = num(A['curve'].term)
        sl, su, sc = [A.get(x) for x in ('start_lower_bound', 'start_upper_bound', 'start_curve')]
        (nl, l), (nu, u), (nc, c) = opt(sl), opt(su), opt(sc)
        e.prove('a known lower bound handed over is one of the same fuzzy curve', Or(nl, And(toreal(l) <= Wm(i), toreal(l) >= 0)) if l is not None else nl)
        e.prove('a known upper bound handed over is one of the same fuzzy curve, with its curve', Or(nu, And(Not(nc), Wc(c.term) <= toreal(u), cmp_(i, c.term))) if u is not None and c is not None else nu)
        rl, ru, rx = e.fresh('res_lo', RealS), e.fresh('res_up', RealS), e.fresh('res_curve', RC)
        e.assume(sound(i, rl, ru, rx))
        d = LDict([('lo', rl), ('up', ru), ('curve', UObj(rx, 'Curve', {}))])
        d.birth = e.new_birth()
        return d
    eng.contracts[EST + '.estimate_dilation_fuzzy'] = fuzzy
    eng.heap_model = SeqHeap()

    def order(e, it, key, reverse):
        if isinstance(it, SBag):
            m, ix, pq = e.fresh('active', IntS), e.fresh_fun('order', IntS, IntS), e.fresh('place', IntS)
            k, i = z3.Int('k!o'), z3.Int('i!o')
            e.assume(m >= 0)
            e.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < m), it.A[ix(k)]), patterns=[ix(k)]))
            e.assume(z3.Implies(it.A[q], z3.And(pq >= 0, pq < m, ix(pq) == q)))
            st['pq'] = pq
            return e.mklist(SymCurve.seq(m, lambda k: it.item(ix(zval(k)))))
        if not isinstance(it, tuple) or key is None:
            raise Unsupported('sorted')
        out = []
        kf = lambda x: toreal(bare(e.call(key, [x])))
        for x in it:
            k = 0
            while k < len(out) and e.branch(kf(out[k]) <= kf(x)):
                k += 1
            out.insert(k, x)
        return e.mklist(out)
    eng.sorted_hook = order
    st = {'pq': q}

    def well(e, x):
        """an active item: unknown yet or with sound bounds"""
        i, l, u, ex = [e.getattr(x, f) for f in ('idx', 'lo', 'up', 'example')]
        i = zval(i)
        (nl, l), (nu, u), (nx, ex) = opt(l), opt(u), opt(ex)
        known_ = And(Not(nl), Not(nu), Not(nx), sound(i, toreal(l), toreal(u), ex.term)) if l is not None and u is not None and ex is not None else False
        return And(ranges((i, n)), e.getattr(x, 'curve').term == fz(i), Or(And(nl, nu), known_))

    def heap_var(env):
        hs = [v for v in env.vars.values() if isinstance(v, LList) and isinstance(v.content, SBag)]
        return hs[0] if len(hs) == 1 else None

    def outer(e, s, env, it, carried):
        if it is not None or 'n' in P or heap_var(env) is not None:
            return None
        act = [m for m, v in carried.items() if isinstance(v, LList) and isinstance(v.content, (Seq, tuple))]
        ints = [m for m, v in carried.items() if isinstance(v, int) and not isinstance(v, bool)]
        los = [m for m, v in carried.items() if isinstance(v, Fraction)]
        ups = [m for m, v in carried.items() if v is None or isinstance(v, Opt)]
        if len(act) != 1 or len(los) != 1 or len(ups) != 1 or len(carried) != 3 + len(ints):
            return None
        A_, L_, U_ = act[0], los[0], ups[0]

        class L(inv.Loop):
            def havoc(self, k):
                m, ix, nn = e.fresh('active', IntS), e.fresh_fun('ix', IntS, IntS), e.fresh('unknown_yet', BoolS)
                lo_, up_, ex_ = e.fresh_fun('alo', IntS, RealS), e.fresh_fun('aup', IntS, RealS), e.fresh_fun('aex', IntS, RC)
                e.assume(m >= 0)
                g = lambda f: (lambda z: f(z.term))
                at = {'idx': g(lambda t: ix(t)), 'lo': g(lambda t: Opt(nn, lo_(t))), 'up': g(lambda t: Opt(nn, up_(t))), 'example': g(lambda t: Opt(nn, UObj(ex_(t), 'Curve', {}))),
                      'curve': g(lambda t: UObj(fz(ix(t)), 'FuzzyCurve', {'count_possible_curves': lambda z: Builtin('count', stat)}))}
                env.vars[A_] = e.mklist(SymCurve.seq(m, lambda k: UObj(zval(k), 'CurveItem', at)))
                st['pq'] = e.fresh('place', IntS)
                env.vars[L_] = e.fresh('curr_lo', RealS)
                env.vars[U_] = Opt(e.fresh('no_up', BoolS), e.fresh('curr_up', RealS))
                for x in ints:
                    env.vars[x] = e.fresh(x, IntS)

            def inv(self, k):
                a = env.vars[A_]
                c = e.plain_seq(a)
                m = e.length(a)
                nu, u = opt(env.vars[U_])
                j = z3.FreshConst(IntS, 'j')
                get = lambda t: e.getitem(a, t) if not isinstance(c, Seq) else c.get(t)
                pq = st['pq']
                return [('the lower bound is a bound of the minimum', And(toreal(env.vars[L_]) <= Wmin)), ('the upper bound is a bound of the minimum', Or(nu, toreal(u) >= Wmin) if u is not None else nu),
                        ('the best fuzzy curve is active', And(ranges((pq, m)), e.eq(e.getattr(get(pq), 'idx'), q))),
                        ('active curves carry sound bounds', z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < zval(m)), zval(well(e, get(j))))))]
        return L()

    def inner(e, s, env, it, carried):
        if it is None or 'n' in P or not isinstance(it, Seq):
            return None
        # the candidates of this epoch: the empty list that the body pushes to
        hs = [m for m, v in env.vars.items() if isinstance(v, LList) and v.content == []]
        ups = [m for m, v in carried.items() if v is None or isinstance(v, Opt) or is_z3(v) and v.sort() == RealS]
        if len(hs) != 1 or len(ups) != 1 or len(carried) != 1:
            return None
        H_, U_ = hs[0], ups[0]
        ev = 'x'

        class L(inv.Loop):
            def havoc(self, k):
                S = SBag(e.fresh('inA', AB), e.fresh('L', AL), e.fresh('U', AL), e.fresh('X', AX))
                env.vars[H_] = e.mklist(S)
                self.objs = [env.vars[H_]]
                env.vars[U_] = Opt(e.fresh('no_up', BoolS), e.fresh('curr_up', RealS))

            def inv(self, k):
                c = env.vars[H_].content
                nu, u = opt(env.vars[U_])
                i = z3.FreshConst(IntS, 'i')
                k = zval(k)
                out = [('the upper bound is a bound of the minimum', Or(nu, toreal(u) >= Wmin) if u is not None else nu), ('there is an upper bound after the first curve', Or(k == 0, Not(nu)))]
                if c == []:
                    return out + [('the best fuzzy curve is a candidate once seen', zval(st['pq']) >= k)]
                return out + [('the best fuzzy curve is a candidate once seen', Or(zval(st['pq']) >= k, c.A[q])),
                              ('candidates carry sound bounds', z3.ForAll([i], z3.Implies(c.A[i], z3.And(i >= 0, i < zval(n), sound(i, c.L[i], c.U[i], c.X[i]))), patterns=[c.A[i]]))]
        return L()

    def cleanup(e, s, env, it, carried):
        h = heap_var(env)
        if it is not None or 'n' in P or h is None or carried:
            return None
        c0 = h.content

        class L(inv.Loop):
            objs = [h]

            def havoc(self, k):
                h.content = SBag(e.fresh('inA', AB), c0.L, c0.U, c0.X)

            def inv(self, k):
                i = z3.FreshConst(IntS, 'i')
                c = h.content
                return [('the best fuzzy curve stays a candidate', c.A[q] == c0.A[q]), ('no candidate appears', z3.ForAll([i], z3.Implies(c.A[i], c0.A[i]), patterns=[c.A[i]])),
                        ('candidates keep their data', And(*[z3.ForAll([i], z3.Implies(c.A[i], f[i] == g[i]), patterns=[c.A[i]]) for f, g in ((c.L, c0.L), (c.U, c0.U), (c.X, c0.X)) if not f.eq(g)]))]
        return L()
    eng.loop_hints = {'inv': inv.make(cleanup, inner, outer)}
    if 'n' in P:
        eng.unroll = P.get('iters', 2)
    ub = P['ub'] if 'ub' in P else Opt(eng.fresh('no_upper_bound', BoolS), eng.fresh('upper_bound', RealS))
    if isinstance(ub, Opt):
        eng.assume(Implies(Not(ub.isnone), ub.val >= Wmin))
    tol, mul = eng.fresh('rel_tol_inv', IntS), eng.fresh('mult', IntS)
    eng.assume(And(tol >= 1, mul >= 1))
    est = new_obj(eng, cls_of(eng, EST))
    est.f['sum_stats'] = stat()
    est.f['max_stats'] = stat()
    eng.cover('inputs')
    r = eng.call(eng.getattr(est, 'estimate_dilation_sequence'), [curves], {'rel_tol_inv': tol, 'rel_tol_inv_mult': mul, 'upper_bound': ub})
    if r is None:
        eng.prove('there is a result unless every minimum exceeds the given upper bound', False)
        return
    nu, u = opt(eng.getitem(r, 'up'))
    l = toreal(bare(eng.getitem(r, 'lo')))
    u = toreal(u)
    eng.prove('the returned upper bound is at least the minimum of the sequence', And(Not(nu), u >= Wmin))
    eng.prove('the returned lower bound is at most the minimum of the sequence', l <= Wmin)
    eng.prove('the bounds meet the tolerance', u * toreal(tol) <= l * toreal(tol + 1))
    idxs, cs = eng.getitem(r, 'idxs'), eng.getitem(r, 'curves')
    if 'n' in P:
        evs = [eng.rename_event(ev) for ev in eng.bag_of(idxs).events]
        if any(bs for bs, _, _ in evs):
            raise Unsupported('unexpected list')
        eng.prove('a fuzzy curve attaining the minimum is among the returned ones', Or(*[And(c, eng.eq(x, q)) for _, c, x in evs]))
        if isinstance(idxs.content, list) and isinstance(cs.content, list):
            eng.prove('as many curves as numbers', len(cs.content) == len(idxs.content))
            for x, c in zip(idxs.content, cs.content):
                eng.prove('every returned curve is compatible with the fuzzy curve of its number', cmp_(zval(x), bare(c).term))
        return
    m = eng.length(idxs)
    eng.prove('as many curves as numbers', eng.eq(eng.length(cs), m))
    pq = st['pq']
    eng.prove('a fuzzy curve attaining the minimum is among the returned ones', And(ranges((pq, m)), eng.eq(eng.getitem(idxs, pq), q)))
    j = eng.fresh('j', IntS)
    eng.assume(ranges((j, m)))
    nc, c = opt(eng.getitem(cs, j))
    eng.prove('every returned curve is compatible with the fuzzy curve of its number', Or(nc, cmp_(zval(eng.getitem(idxs, j)), c.term)))


SFIN = [{'n': 2, 'iters': 1, 'ub': None}, {'n': 2, 'iters': 1}, {'n': 1, 'iters': 2}]
FFIN = [{'iters': 1}, {'iters': 1, 'started': True}, {'iters': 2, 'started': True}]
CONTRACTS = [
    Contract('_forbid: exactly the bad pairs', h_forbid, [EST + '._forbid'], setup, [{'n': 0}, {'n': 1}, {'n': 2}]),
    Contract('bisect_dilation_fuzzy', h_bisect, [EST + '.bisect_dilation_fuzzy'], setup, BFIN, timeout=12.0),
    Contract('bisect_dilation_fuzzy from a prepared tree', h_bisect, [EST + '.bisect_dilation_fuzzy'], setup, [dict(f, init=True) for f in BFIN], params={'init': True}, timeout=12.0),
    Contract('estimate_dilation_fuzzy', h_fuzzy, [EST + '.estimate_dilation_fuzzy'], setup, FFIN, timeout=12.0),
    Contract('estimate_dilation_fuzzy from known bounds', h_fuzzy, [EST + '.estimate_dilation_fuzzy'], setup, FFIN[1:], params={'started': True}, timeout=12.0),
    Contract('estimate_dilation_sequence', h_sequence, [EST + '.estimate_dilation_sequence'], setup, SFIN, timeout=12.0),
]
