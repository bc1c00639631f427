"""C14: bounds for the dilation of one curve.

Ghost vocabulary: W is the dilation of the curve; val(x) is the supremum of the ratio over an item's two fractions.
The queue is used by its contract (C12), bounds and division of a pair by theirs (C13); that the dilation is the maximum
of val over the initial pairs is the mathematical theorem behind the method (assumed).
"""
from contracts.common import *
from contracts.abstract import *
from contracts import inv
from pyvc.builtins_ import GenIter
from pyvc.engine import Poison

EST = 'dilation.Estimator'
IT = z3.DeclareSort('TreeItem')
PR = z3.DeclareSort('PairOfFractions')
AG = z3.DeclareSort('PairOfPoints')
lo, up, val = [z3.Function(n, IT, RealS) for n in ('item_lo', 'item_up', 'item_val')]
arg = z3.Function('item_argmax', IT, AG)
dep = z3.Function('item_depth', IT, IntS)
rat = z3.Function('ratio_of_points', AG, RealS)
SET = z3.ArraySort(IT, BoolS)


def stat():
    p = Poison('statistics')
    p.stat = True
    return p


class Tree:
    """contract of the queue of bounded pairs with its largest lower bound kept (C12)"""
    def __init__(self, eng, P, W, noarg):
        self.eng, self.W, self.noarg = eng, W, noarg
        self.fin = P.get('n')
        self.good = None
        self.obj = UObj(eng.fresh('tree', z3.DeclareSort('Tree')), 'BoundedItemsHeap', {
            'max_lo_item': lambda s: self.mk(self.mx),
            'top': lambda s: Builtin('top', self.top), 'items': lambda s: Builtin('items', self.items), 'size': lambda s: Builtin('size', self.size),
            'update_good_threshold': lambda s: Builtin('update_good_threshold', self.raise_good),
            'stats': lambda s: stat(), 'stash': lambda s: None})
        self.start()

    def mk(self, t):
        return UObj(t, 'Item', {'lo': lambda s: lo(s.term), 'up': lambda s: up(s.term),
                                'argmax': lambda s: Opt(self.noarg, UObj(arg(s.term), 'Argmax', {})),
                                'pair': lambda s: UObj(z3.Function('pair_of', IT, PR)(s.term), 'Pair', {'depth': lambda q, t=s.term: dep(t)})})

    def sane(self, x):
        """what C13 says of an item of this curve"""
        return z3.And(lo(x) <= val(x), val(x) <= up(x), lo(x) < up(x), val(x) <= self.W, lo(x) > 0, z3.Or(self.noarg, rat(arg(x)) == lo(x)))

    def fresh(self, nm='x'):
        x = self.eng.fresh(nm, IT)
        self.eng.assume(self.sane(x))
        return x

    def isgood(self, x, g=None):
        g = self.good if g is None else g
        return z3.BoolVal(False) if g is None else up(x) <= g

    # -- states
    def start(self):
        """after the initial pairs were pushed: all are active, the dilation is attained at one of them"""
        eng = self.eng
        if self.fin is not None:
            self.act = [[self.fresh('a%d' % i), True] for i in range(self.fin)]
            self.mx = self.act[0][0]
            for x, _ in self.act:
                eng.assume(lo(x) <= lo(self.mx))
            eng.assume(z3.Or(*[val(x) == self.W for x, _ in self.act]))
            return
        self.mx = self.fresh('first_max')
        self.w = self.fresh('witness')
        self.M = eng.fresh('active', SET)
        eng.assume(z3.And(self.M[self.w], val(self.w) == self.W, self.M[self.mx]))
        self.facts()

    def facts(self):
        x = z3.Const('x!t', IT)
        self.eng.assume(z3.ForAll([x], z3.Implies(self.M[x], z3.And(self.sane(x), z3.Not(self.isgood(x)), lo(x) <= lo(self.mx))), patterns=[self.M[x]]))

    def havoc(self):
        self.M, self.w = self.eng.fresh('active', SET), self.fresh('witness')
        self.mx = self.fresh('maxlo')
        self.good = self.eng.fresh('good', RealS)
        self.facts()

    def attained(self):
        """the dilation is attained at an active item, or is already known to be at most the good threshold"""
        if self.fin is not None:
            return z3.Or(self.W <= self.good, *[z3.And(zval(c), val(x) == self.W) for x, c in self.act])
        return z3.Or(self.W <= self.good, z3.And(self.M[self.w], val(self.w) == self.W))

    # -- operations
    def top(self):
        eng = self.eng
        if self.fin is not None:
            for x, c in self.act:
                if eng.branch(And(c, *[Or(Not(d), up(y) <= up(x)) for y, d in self.act])):
                    return self.mk(x)
            raise PyRaise('IndexError')
        x, y = z3.Const('x!e', IT), z3.Const('y!e', IT)
        if not eng.branch(z3.Exists([x], self.M[x])):
            eng.assume(z3.Not(self.M[self.w]))
            raise PyRaise('IndexError')
        t = eng.fresh('top', IT)
        eng.assume(z3.And(self.M[t], z3.ForAll([y], z3.Implies(self.M[y], up(y) <= up(t)), patterns=[self.M[y]])))
        eng.assume(z3.Implies(self.M[self.w], up(self.w) <= up(t)))
        return self.mk(t)

    def size(self):
        raise Unsupported('size')

    def items(self):
        x = z3.FreshConst(IT, 'it')
        if self.fin is not None:
            return GenIter(self.eng.mklist(Bag([Event((), c, self.mk(t)) for t, c in self.act])))
        return GenIter(self.eng.mklist(Bag([Event((x,), self.M[x], self.mk(x))])))

    def raise_good(self, thr):
        eng = self.eng
        thr = toreal(thr)
        if self.good is not None:
            eng.prove('the good threshold is never lowered', thr >= self.good)
        self.good = thr
        if self.fin is not None:
            self.act = [[x, And(c, up(x) > thr)] for x, c in self.act]
            return
        old = self.M
        self.M = eng.fresh('active', SET)
        x = z3.Const('x!u', IT)
        eng.assume(z3.ForAll([x], self.M[x] == z3.And(old[x], up(x) > thr), patterns=[self.M[x]]))
        eng.assume(self.M[self.w] == z3.And(old[self.w], up(self.w) > thr))

    def divide(self):
        """contract of _divide_tree: the worst active item is replaced by its parts; the supremum over an item is attained at a part"""
        eng = self.eng
        if self.fin is not None:
            t = self.top().term
            for q in self.act:
                if q[0] is t:
                    q[1] = False
            a, b = self.fresh('part'), self.fresh('part')
            eng.assume(And(val(a) <= val(t), val(b) <= val(t), Or(val(a) == val(t), val(b) == val(t))))
            for x in (a, b):
                if eng.branch(lo(x) > lo(self.mx)):
                    self.mx = x
                self.act.append([x, Not(self.isgood(x))])
            return
        t = self.top().term
        old, oldmx = self.M, self.mx
        s = self.fresh('best_part')
        eng.assume(val(s) == val(t))
        self.M, self.mx = eng.fresh('active', SET), self.fresh('maxlo')
        eng.assume(z3.And(lo(self.mx) >= lo(oldmx), lo(self.mx) >= lo(s)))
        x = z3.Const('x!d', IT)
        self.facts()
        eng.assume(z3.ForAll([x], z3.Implies(z3.And(old[x], x != t), self.M[x]), patterns=[old[x]]))
        eng.assume(z3.Implies(z3.And(old[self.w], self.w != t), self.M[self.w]))
        eng.assume(z3.Or(self.isgood(s), self.M[s]))
        self.w = z3.If(self.w == t, s, self.w)


def regular_loop(T, st):
    """the bounds enclose the dilation; the lower bound is the largest one seen and is the good threshold"""
    def spec(eng, s, env, it, carried):
        if it is not None or not isinstance(s, ast.While) or T.fin is not None:
            return None
        reals = {n: v for n, v in carried.items() if is_z3(v) and v.sort() == RealS}
        ints = [n for n, v in carried.items() if isinstance(v, int) and not isinstance(v, bool)]
        args = [n for n, v in carried.items() if v is None or isinstance(v, (Opt, UObj)) and n not in reals]
        los = [n for n, v in reals.items() if eng.known(v == lo(T.mx), 2000)]
        ups = [n for n in reals if n not in los]
        if len(los) != 1 or len(ups) != 1 or len(args) != 1 or len(ints) > 1 or len(carried) != 3 + len(ints):
            return None
        L_, U_, A_ = los[0], ups[0], args[0]

        class L(inv.Loop):
            def havoc(self, k):
                T.havoc()
                env.vars[L_], env.vars[U_] = eng.fresh('curr_lo', RealS), eng.fresh('curr_up', RealS)
                st['arg'] = a = eng.fresh('curr_arg', AG)
                env.vars[A_] = Opt(T.noarg, UObj(a, 'Argmax', {}))
                for n in ints:
                    env.vars[n] = k

            def inv(self, k):
                l, u, a = toreal(env.vars[L_]), toreal(env.vars[U_]), env.vars[A_]
                isn, av = opt(a)
                return [('the lower bound is a bound', l <= T.W), ('the upper bound is a bound', T.W <= u), ('the good threshold is the lower bound', T.good == l),
                        ('the lower bound is the largest one seen', And(lo(T.mx) == l, l > 0)), ('the dilation is attained at an active pair or known', T.attained()),
                        ('the reported points attain the lower bound', Or(isn, rat(av.term) == l) if av is not None else isn)] + [
                        ('iterations are counted', eng.eq(env.vars[n], k)) for n in ints]
        return L()
    return spec


def h_regular(eng, P):
    W = eng.fresh('dilation', RealS)
    noarg = eng.fresh('no_points', BoolS)
    tol = P['tol'] if 'tol' in P else Opt(eng.fresh('no_tol', BoolS), eng.fresh('rel_tol_inv', IntS))
    mi = P['max_iter'] if 'max_iter' in P else Opt(eng.fresh('no_max_iter', BoolS), eng.fresh('max_iter', IntS))
    md = P['max_depth'] if 'max_depth' in P else Opt(eng.fresh('no_max_depth', BoolS), eng.fresh('max_depth', IntS))
    ti, tv = opt(tol)
    if tv is not None:
        eng.assume(Implies(Not(ti), zval(tv) >= 1))
    T = []

    def create(e, A):
        if T:
            raise Unsupported('second tree')
        T.append(Tree(e, P, W, noarg))
        kw = A.get('tree_kwargs')
        e.prove('the largest lower bound is kept', e.truth(e.getitem(kw, 'keep_max_lo_item')))
        for nm in ('good_threshold', 'bad_threshold'):
            e.prove('no threshold at the start', opt(A.get(nm))[0])
        return T[0].obj
    eng.contracts[EST + '._create_tree'] = create
    eng.contracts[EST + '._divide_tree'] = lambda e, A: T[0].divide()
    eng.contracts[EST + '._add_tree_stats'] = lambda e, A: None
    st = {}

    def spec(e, s, env, it, carried):
        return regular_loop(T[0], st)(e, s, env, it, carried) if T else None
    eng.loop_hints = {'inv': inv.make(spec)}
    if 'n' in P:
        eng.unroll = P.get('iters', 1) + 1
    est = new_obj(eng, cls_of(eng, EST))
    cur = UObj(eng.fresh('curve', z3.DeclareSort('RegularCurve')), 'Curve', {})
    eng.cover('inputs')
    try:
        r = eng.call(eng.getattr(est, 'estimate_dilation_regular'), [cur], {'rel_tol_inv': tol, 'max_iter': mi, 'max_depth': md})
    except PyRaise as e:
        if e.exc != 'IndexError':
            raise
        return                          # empty queue: no answer (see C12: top of an empty queue)
    get = lambda k: eng.getitem(r, k)
    l, u = toreal(get('lo')), toreal(get('up'))
    eng.prove('the returned lower bound is at most the dilation', l <= W)
    eng.prove('the returned upper bound is at least the dilation', u >= W)
    has = eng.contains(r, 'argmax')
    if has is True or (is_z3(has) and eng.branch(has)):
        isn, a = opt(get('argmax'))
        eng.prove('the reported pair of points has exactly the returned lower bound as its ratio', And(Not(isn), rat(a.term) == l) if a is not None else False)
    limited = Or(Not(opt(mi)[0]), Not(opt(md)[0]), ti)
    if tv is not None:
        eng.prove('the bounds meet the tolerance unless a limit stopped the run', Or(limited, u * toreal(tv) <= l * toreal(zval(tv) + 1)))


import ast  # noqa: E402

RFIN = [{'n': 1, 'iters': 1, 'max_iter': 1, 'max_depth': None, 'tol': None}, {'n': 2, 'iters': 1, 'max_iter': 1, 'max_depth': None, 'tol': None}, {'n': 2, 'iters': 2, 'max_iter': 2, 'max_depth': None, 'tol': None},
        {'n': 1, 'iters': 1, 'max_iter': None, 'max_depth': None}, {'n': 2, 'iters': 1, 'max_iter': None, 'tol': None}]
CONTRACTS = [
    Contract('estimate_dilation_regular', h_regular, [EST + '.estimate_dilation_regular'], setup, RFIN, timeout=15.0),
]


# -- filling the tree
PS = z3.DeclareSort('PairAsGiven')
blo, bup = [z3.Function(n, PS, RealS) for n in ('bound_lo', 'bound_up')]
barg = z3.Function('bound_points', PS, AG)
part = z3.Function('part_of_pair', PS, IntS, PS)
first = z3.Function('first_order_pair', z3.DeclareSort('JunctionOfCurve'), IntS, IntS, PS)
CPP = 'dilation._CurvePiecePair'


class Pushes:
    """queue that only records what is pushed and how often something is popped"""
    def __init__(self, eng, worst=None):
        self.eng, self.worst, self.pops = eng, worst, 0
        self.lst = eng.mklist(Bag([]))
        self.stash = UObj(eng.fresh('stash', z3.DeclareSort('CurvePoints')), 'Stash', {})
        self.obj = UObj(eng.fresh('tree', z3.DeclareSort('Tree')), 'BoundedItemsHeap', {
            'push': lambda s: Builtin('push', self.push), 'pop': lambda s: Builtin('pop', self.pop), 'stash': lambda s: self.stash})
        eng.contracts[EST + '._get_bounds'] = self.bounds

    def bounds(self, e, A):
        p, cp = A['pair'], A.get('curve_points')
        e.prove('bounds use the curve points kept with the tree', And(isinstance(cp, UObj) and cp.term.sort() == self.stash.term.sort() and cp.term == self.stash.term))
        return (blo(p.term), bup(p.term), UObj(barg(p.term), 'Argmax', {}))

    def pop(self):
        self.pops += 1
        return UObj(self.eng.fresh('worst_item', IT), 'Item', {'pair': lambda s: self.worst})

    def push(self, item):
        e = self.eng
        g = lambda n: e.getattr(item, n)
        e.coll_method(self.lst, 'append', ((toreal(g('lo')), toreal(g('up')), g('argmax'), g('pair')),), {})

    def events(self):
        out = []
        for ev in self.eng.bag_of(self.lst).events:
            bs, c, v = self.eng.rename_event(ev)
            out.append((bs, c, self.eng.getitem(v, 0), self.eng.getitem(v, 1), self.eng.getitem(v, 2), self.eng.getitem(v, 3).term))
        return out

    def check_items(self):
        for bs, c, l, u, a, p in self.events():
            isn, a = opt(a)
            self.eng.prove('every item carries the bounds of its pair', Implies(c, And(l == blo(p), u == bup(p))))
            self.eng.prove('every item carries the points of its pair', Implies(c, And(Not(isn), a.term == barg(p)) if a is not None else False))

    def count(self, want, targets, what):
        """every wanted pair is pushed exactly once and nothing else is; want(p) for symbolic events, targets for instances"""
        eng = self.eng
        evs = self.events()
        if targets is not None:
            if any(bs for bs, *_ in evs):
                raise Unsupported('unexpected enumeration')
            for t in targets:
                eng.prove('every %s is put into the tree, once' % what, sum([z3.If(zval(And(c, p == t)), z3.IntVal(1), z3.IntVal(0)) for _, c, _, _, _, p in evs], z3.IntVal(0)) == 1)
            for _, c, _, _, _, p in evs:
                eng.prove('only a %s is put into the tree' % what, Implies(c, Or(*[p == t for t in targets])))
            return
        want(evs)


def h_push(eng, P):
    T = Pushes(eng)
    est = new_obj(eng, cls_of(eng, EST))
    p = eng.fresh('pair', PS)
    eng.cover('inputs')
    eng.call(eng.getattr(est, '_push_tree'), [T.obj, UObj(p, 'Pair', {})])
    T.check_items()
    T.count(None, [p], 'given pair')


def h_divide_tree(eng, P):
    p = eng.fresh('pair', PS)
    n = P.get('n') if 'n' in P else eng.fresh('parts', IntS)
    eng.assume(zval(n) >= 0)
    parts = lambda: GenIter(SymCurve.seq(n, lambda i: UObj(part(p, zval(i)), 'Pair', {})))
    T = Pushes(eng, UObj(p, 'Pair', {'divide_balanced': lambda s: Builtin('divide_balanced', parts)}))
    est = new_obj(eng, cls_of(eng, EST))
    if 'n' in P:
        for i in range(P['n']):
            for j in range(i):
                eng.assume(part(p, z3.IntVal(i)) != part(p, z3.IntVal(j)))
    eng.cover('inputs')
    eng.call(eng.getattr(est, '_divide_tree'), [T.obj])
    eng.prove('exactly one item is taken out', eng.eq(T.pops, 1))
    T.check_items()

    def want(evs):
        w = eng.fresh('w', IntS)
        eng.assume(ranges((w, n)))
        hits = []
        for bs, c, _, _, _, q in evs:
            if len(bs) != 1 or bs[0].sort() != IntS:
                raise Unsupported('unexpected enumeration')
            eng.prove('only a part is put into the tree', Implies(c, And(ranges((bs[0], n)), q == part(p, bs[0]))))
            hits.append(eng.subst(zval(c), [(bs[0], w)]))
        eng.prove('every part is put into the tree, once', Or(*hits) if len(hits) == 1 else False)
    T.count(want, [part(p, z3.IntVal(i)) for i in range(P['n'])] if 'n' in P else None, 'part')


JC = z3.DeclareSort('JunctionOfCurve')
rv1, rv2 = [z3.Function(n, JC, BoolS) for n in ('first_reversed', 'second_reversed')]


def mkj(t):
    bm = lambda f: UObj(f(t), 'BaseMap', {'time_rev': lambda s: f(t)})
    return UObj(t, 'Junction', {'spec1': lambda s: UObj(t, 'Spec', {'base_map': lambda q: bm(rv1)}), 'spec2': lambda s: UObj(t, 'Spec', {'base_map': lambda q: bm(rv2)})})


def h_create(eng, P):
    """the initial pairs: for a pattern alone all pairs of fractions that are not neighbours in time,
    for a regular junction all pairs but the touching one"""
    G = P['G'] if 'G' in P else eng.fresh('genus', IntS)
    na, nr = (P['na'], P['nr']) if 'na' in P else (eng.fresh('autos', IntS), eng.fresh('regulars', IntS))
    eng.assume(And(zval(G) >= 2, zval(na) >= 0, zval(nr) >= 0))
    au, re = eng.fresh_fun('auto', IntS, JC), eng.fresh_fun('regular', IntS, JC)
    seq = lambda n, f: GenIter(SymCurve.seq(n, lambda i: mkj(f(zval(i)))))
    cur = UObj(eng.fresh('curve', z3.DeclareSort('CurveOfTree')), 'FuzzyCurve', {
        'genus': lambda s: G, 'gen_auto_junctions': lambda s: Builtin('gen_auto_junctions', lambda: seq(na, au)),
        'gen_regular_junctions': lambda s: Builtin('gen_regular_junctions', lambda: seq(nr, re))})
    T = Pushes(eng)
    good, bad = Opt(eng.fresh('no_good', BoolS), eng.fresh('good', RealS)), Opt(eng.fresh('no_bad', BoolS), eng.fresh('bad', RealS))
    made = []

    def heap(e, args, A):
        made.append(dict(zip(('good_threshold', 'bad_threshold', 'keep_max_lo_item', 'stash'), args), **A))
        return T.obj
    eng.contracts['_bounded_items_heap.BoundedItemsHeap'] = heap

    def init(e, A):
        e.prove('pairs are pairs of fractions of the given curve', isinstance(A['curve'], UObj) and A['curve'].term.sort() == cur.term.sort() and zval(A['curve'].term == cur.term))
        return UObj(first(A['junc'].term, zval(A['cnum1']), zval(A['cnum2'])), 'Pair', {})
    eng.contracts[CPP + '.init_first_order'] = init
    est = new_obj(eng, cls_of(eng, EST))
    if 'na' in P:
        # distinct pairs are distinct terms
        pass
    eng.cover('inputs')
    r = eng.call(eng.getattr(est, '_create_tree'), [cur, good, bad], {'keep_max_lo_item': True, 'stash': T.stash})
    eng.prove('the tree filled is the tree returned', isinstance(r, UObj) and r is T.obj)
    if len(made) != 1:
        raise Unsupported('trees made: %d' % len(made))
    A = made[0]
    sameopt = lambda x, y: Or(And(opt(x)[0], opt(y)[0]), And(Not(opt(x)[0]), Not(opt(y)[0]), opt(x)[1] == opt(y)[1]) if opt(x)[1] is not None else False)
    eng.prove('the thresholds of the tree are the given ones', And(sameopt(A.get('good_threshold'), good), sameopt(A.get('bad_threshold'), bad)))
    eng.prove('the options of the tree are the given ones', And(A.get('keep_max_lo_item') is True, isinstance(A.get('stash'), UObj)))
    T.check_items()
    evs = T.events()
    autop = lambda k, a, b: And(ranges((k, na), (a, G), (b, G)), b >= a + 2)
    touch = lambda j, a, b: And(a == z3.If(rv1(j), z3.IntVal(0), zval(G) - 1), b == z3.If(rv2(j), zval(G) - 1, z3.IntVal(0)))
    regp = lambda k, a, b: And(ranges((k, nr), (a, G), (b, G)), Not(touch(re(k), a, b)))
    if 'na' in P:
        rng = range(P['G'])
        targets = [(True, au(z3.IntVal(k)), a, b) for k in range(na) for a in rng for b in rng if b >= a + 2]
        reg = [(k, a, b) for k in range(nr) for a in rng for b in rng]
        js = [au(z3.IntVal(k)) for k in range(na)] + [re(z3.IntVal(k)) for k in range(nr)]
        for x in range(len(js)):
            for y in range(x):
                eng.assume(js[x] != js[y])
        key = lambda p: (p.arg(0), p.arg(1), p.arg(2))
        is_ = lambda p, j, a, b: And(*[u == v for u, v in zip(key(p), (j, z3.IntVal(a), z3.IntVal(b)))])
        targets += [(Not(touch(re(z3.IntVal(k)), z3.IntVal(a), z3.IntVal(b))), re(z3.IntVal(k)), a, b) for k, a, b in reg]
        if any(bs for bs, *_ in evs):
            raise Unsupported('unexpected enumeration')
        for w, j, a, b in targets:
            cnt = sum([z3.If(zval(And(c, is_(p, j, a, b))), z3.IntVal(1), z3.IntVal(0)) for _, c, _, _, _, p in evs], z3.IntVal(0))
            eng.prove('every pair of fractions that do not touch in time is put into the tree, once', Implies(w, cnt == 1))
            eng.prove('no pair of touching fractions is put into the tree', Implies(Not(w), cnt == 0))
        for _, c, _, _, _, p in evs:
            eng.prove('only pairs of fractions that do not touch in time are put into the tree', Implies(c, Or(*[And(w, is_(p, j, a, b)) for w, j, a, b in targets])))
        return
    w = [eng.fresh(n, IntS) for n in ('w_junc', 'w_c1', 'w_c2')]
    hits = {'auto': [], 'regular': []}
    for bs, c, _, _, _, p in evs:
        if any(b.sort() != IntS for b in bs) or not p.decl().eq(first) or p.arg(0).num_args() != 1:
            raise Unsupported('unexpected enumeration')
        j = p.arg(0)
        isau = j.decl().eq(au(z3.IntVal(0)).decl())
        key = [j.arg(0), p.arg(1), p.arg(2)]
        eng.prove('only pairs of fractions that do not touch in time are put into the tree', Implies(c, (autop if isau else regp)(*key)))
        sol, rest = solve(eng, bs, key, w)
        hits['auto' if isau else 'regular'].append(And(eng.subst(zval(c), sol), rest))
    for nm, cond in (('auto', autop), ('regular', regp)):
        n = sum([z3.If(zval(h), z3.IntVal(1), z3.IntVal(0)) for h in hits[nm]], z3.IntVal(0))
        eng.prove('every pair of fractions that do not touch in time is put into the tree, once (%s)' % nm, Implies(cond(*w), n == 1))


def names(t):
    out, todo = set(), [t]
    while todo:
        x = todo.pop()
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.add(x.get_id())
        todo.extend(x.children())
    return out


def solve(eng, bs, key, w):
    """values of the loop variables for which the enumerated triple is w (each is determined: unit coefficients, triangular)"""
    left, sol = list(bs), []
    key = [z3.simplify(k) for k in key]
    todo = list(range(len(key)))
    while left:
        for n in todo:
            inside = [b for b in left if b.get_id() in names(key[n])]
            if len(inside) == 1:
                b = inside[0]
                rest = z3.simplify(key[n] - b)
                if b.get_id() in names(rest):
                    continue
                val_ = z3.simplify(w[n] - rest)
                sol = [(x, z3.substitute(v, (b, val_))) for x, v in sol] + [(b, val_)]
                key = [z3.simplify(z3.substitute(k, (b, val_))) for k in key]
                left.remove(b)
                todo.remove(n)
                break
        else:
            raise Unsupported('unexpected enumeration')
    return sol, And(*[key[n] == w[n] for n in todo])


FACE = z3.DeclareSort('Face')
CPT = z3.DeclareSort('CurvePointOf')
fm = z3.Function('face_moment', IntS, FACE, BoolS, CPT)


def h_moments(eng, P):
    """the points kept with the tree under a pattern number are points of that pattern"""
    def members(v):
        evs = [Event((), True, x) for x in v.puts]
        if v.base is not None:
            x = z3.FreshConst(CPT, 'pt')
            u = UObj(x, 'CurvePoint', {})
            evs.append(Event((x,), v.base(u), u))
        return Bag(evs)
    eng.set_as_bag = members
    pat = z3.Function('pattern_of_point', CPT, IntS)
    p_, f_, l_ = z3.Int('p!m'), z3.Const('f!m', FACE), z3.Const('l!m', BoolS)
    eng.sorted_hook = lambda e, it, key, reverse: e.mklist(it)
    mult = P.get('mult') if 'mult' in P else eng.fresh('mult', IntS)
    nf = P.get('nf') if 'nf' in P else eng.fresh('faces', IntS)
    eng.assume(And(zval(mult) >= 1, zval(nf) >= 0))
    fa = eng.fresh_fun('face_no', IntS, FACE)
    if 'mult' in P:
        for p0 in range(P['mult']):
            for f0 in range(P['nf']):
                for l0 in (False, True):
                    eng.assume(pat(fm(z3.IntVal(p0), fa(z3.IntVal(f0)), z3.BoolVal(l0))) == p0)
    else:
        eng.assume(z3.ForAll([p_, f_, l_], pat(fm(p_, f_, l_)) == p_, patterns=[fm(p_, f_, l_)]))
    d, fd = eng.fresh('dim', IntS), eng.fresh('face_dim', IntS)

    class Done(Exception):
        pass

    def faces(e, A):
        e.prove('faces of the cube of the curve of the asked dimension', And(e.eq(A['dim'], d), e.eq(A['face_dim'], fd)))
        return GenIter(SymCurve.seq(nf, lambda i: UObj(fa(zval(i)), 'Face', {})))
    eng.contracts['utils.gen_faces'] = faces

    def moment(face, pnum=0, last=False, find_point=False):
        eng.prove('points are asked for', find_point is True)
        return UObj(fm(zval(pnum), face.term, zval(last)), 'CurvePoint', {})
    cur = UObj(eng.fresh('curve', z3.DeclareSort('RegularCurve')), 'Curve', {
        'mult': lambda s: mult, 'dim': lambda s: d, 'get_face_moment': lambda s: Builtin('get_face_moment', moment)})
    got = []

    def create(e, A):
        got.append(A)
        raise PyRaise('Stop')
    eng.contracts[EST + '._create_tree'] = create
    est = new_obj(eng, cls_of(eng, EST))
    eng.cover('inputs')
    try:
        eng.call(eng.getattr(est, 'estimate_dilation_regular'), [cur], {'use_face_moments': True, 'face_dim': fd})
    except PyRaise as e:
        if e.exc != 'Stop':
            raise
    kw = got[0].get('tree_kwargs')
    stash = eng.getitem(kw, 'stash')
    q = eng.fresh('pattern', IntS)
    eng.assume(ranges((q, mult)))
    for qq in ([q] if 'mult' not in P else range(P['mult'])):
        pts = eng.getitem(stash, qq)
        it = eng.iter_of(pts)
        for ev in (it if isinstance(it, Bag) else eng.bag_of(it)).events:
            bs, c, v = eng.rename_event(ev)
            eng.prove('the points kept for a pattern are points of that pattern', Implies(c, pat(v.term) == zval(qq)))


DFIN = [{'n': 0}, {'n': 1}, {'n': 3}]
CFIN = [{'G': 4, 'na': 1, 'nr': 0}, {'G': 3, 'na': 0, 'nr': 1}, {'G': 3, 'na': 1, 'nr': 2}]
CONTRACTS += [
    Contract('_push_tree: item with the bounds of the pair', h_push, [EST + '._push_tree'], setup, [{}]),
    Contract('_divide_tree: parts of the popped item', h_divide_tree, [EST + '._divide_tree'], setup, DFIN),
    Contract('_create_tree: all pairs that do not touch', h_create, [EST + '._create_tree'], setup, CFIN),
    Contract('estimate_dilation_regular: points kept with the tree', h_moments, [EST + '.estimate_dilation_regular'], setup, [{'mult': 1, 'nf': 2}, {'mult': 2, 'nf': 1}]),
]
