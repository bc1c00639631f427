"""C12: the bounded-item queue, over multisets of items.

heapq is used by contract: heappush keeps a valid heap and adds the node, heappop removes and returns a least node,
index 0 is the node heappop would return.  The order of the remaining nodes is not specified.
"""
from contracts.common import *
from contracts.abstract import new_obj, opt
from contracts import inv

MOD = '_bounded_items_heap'
BH = MOD + '.BoundedItemsHeap'
IT = z3.DeclareSort('Item')
AR = z3.ArraySort(IT, IntS)
lo, up = z3.Function('lo', IT, RealS), z3.Function('up', IT, RealS)
inc = z3.Function('inc', IT, IntS)
least = z3.Function('least', AR, IT)
size_of = z3.Function('size_of', AR, IntS)
ATTRS = {'lo': lambda s: lo(s.term), 'up': lambda s: up(s.term), '__classes__': ('BoundedItem',)}


def mk(t):
    return UObj(t, 'BoundedItem', ATTRS)


class MBag(Bag):
    """content of a list whose order is not specified: a multiset of items; nodes: heap nodes instead of bare items"""
    def __init__(self, M, nodes):
        self.M, self.nodes = M, nodes
        x = z3.Const('mb!x', IT)
        v = (-up(x), inc(x), mk(x)) if nodes else mk(x)
        super().__init__([Event((x,), M[x] > 0, v)])

    def m_append(self, eng, v):
        if self.nodes or not isinstance(v, UObj):
            raise Unsupported('append to a heap')
        M = add_to(eng, self.M, v.term)
        return MBag(M, False)

    def index(self, eng, k):
        if not self.nodes or simp(k) != 0:
            raise Unsupported('index into an unordered list')
        if not eng.branch(size_of(self.M) > 0):
            raise PyRaise('IndexError')
        x = some_least(eng, self.M)
        return (-up(x), inc(x), mk(x))


def ms_axioms():
    """sizes of finite multisets"""
    a = z3.Const('a!m', AR)
    x = z3.Const('x!m', IT)
    return [z3.ForAll([a], size_of(a) >= 0, patterns=[size_of(a)]),
            size_of(z3.K(IT, z3.IntVal(0))) == 0]


def add_to(eng, M, t, d=1):
    N = z3.FreshConst(AR, 'M')
    eng.assume(N == z3.Store(M, t, M[t] + d))
    eng.assume(size_of(N) == size_of(M) + d)
    return N


def some_least(eng, M):
    """the node heapq keeps in front: a least one, i.e. of largest upper bound"""
    x = least(M)
    y = z3.Const('y!l', IT)
    eng.assume(M[x] > 0)
    eng.assume(z3.ForAll([y], z3.Implies(M[y] > 0, up(y) <= up(x)), patterns=[M[y]]))
    return x


class HeapModel:
    @staticmethod
    def node(eng, node):
        node = eng.plain_seq(node)
        if not isinstance(node, tuple) or len(node) < 2 or not isinstance(node[-1], UObj):
            raise Unsupported('heap node')
        return node

    def push(self, eng, l, node):
        node = self.node(eng, node)
        x = node[-1].term
        eng.prove('the priority of a node is minus the upper bound', toreal(node[0]) == -up(x))
        c = l.content
        if isinstance(c, list):
            for o in c:
                eng.prove('nodes are told apart before items are compared', Or(Not(eng.eq(o[0], node[0])), And(*[Not(eng.eq(o[1], node[1]))])))
            if c and eng.branch(toreal(node[0]) < toreal(c[0][0])):
                c.insert(0, node)
            else:
                c.append(node)
            return
        if not isinstance(c, MBag):
            raise Unsupported('heap content')
        if len(node) > 2:
            if getattr(l, 'ginc', None) is not None:
                eng.prove('the running number of a new node is larger than all earlier ones', zval(node[1]) > zval(l.ginc))
            l.ginc = node[1]
        l.content = MBag(add_to(eng, c.M, x), True)

    def pop(self, eng, l):
        c = l.content
        if isinstance(c, list):
            if not c:
                raise PyRaise('IndexError')
            r = c.pop(0)
            if c:
                c.insert(0, c.pop(front(eng, c)))
            return r
        if not isinstance(c, MBag):
            raise Unsupported('heap content')
        if not eng.branch(size_of(c.M) > 0):
            raise PyRaise('IndexError')
        x = some_least(eng, c.M)
        l.content = MBag(add_to(eng, c.M, x, -1), True)
        return (-up(x), inc(x), mk(x))


def front(eng, c):
    for k in range(len(c)):
        if k == len(c) - 1 or eng.branch(And(*[toreal(c[k][0]) <= toreal(o[0]) for o in c])):
            return k


def bag_len(eng):
    def f(bag):
        if isinstance(bag, MBag):
            return size_of(bag.M)
        m = mult(bag)
        if m is None:
            raise Unsupported('length of a filtered collection')
        b, t, src = m
        x = z3.Const('x!len', IT)
        N = z3.FreshConst(AR, 'kept')
        eng.assume(z3.ForAll([x], N[x] == z3.substitute(t, (b, x)), patterns=[N[x]]))
        eng.assume(z3.ForAll([x], z3.Implies(src[x] > 0, N[x] == z3.substitute(t, (b, x))), patterns=[src[x]]))
        # a part of a multiset: equally large exactly when nothing is missing
        w = eng.fresh('missing', IT)
        eng.assume(z3.And(size_of(N) >= 0, size_of(N) <= size_of(src)))
        eng.assume(z3.Implies(size_of(N) == size_of(src), z3.ForAll([x], N[x] == src[x], patterns=[src[x]])))
        eng.assume(z3.Implies(size_of(N) < size_of(src), N[w] < src[w]))
        eng.assumptions.add('sizes of finite multisets: a part is as large as the whole exactly when it is the whole')
        return size_of(N)
    return f


def mult(bag):
    """(binder, multiplicity, source) of a bag made by selecting items of a multiset"""
    if isinstance(bag, MBag):
        ev = bag.events[0]
        return ev.binders[0], bag.M[ev.binders[0]], bag.M
    if len(bag.events) != 1:
        return None
    ev = bag.events[0]
    if len(ev.binders) != 1 or ev.binders[0].sort() != IT:
        return None
    b = ev.binders[0]
    v = ev.value
    if not (isinstance(v, UObj) and v.term.eq(b)):
        return None
    src = []

    def walk(e):
        if z3.is_select(e) and e.arg(1).eq(b) and e.arg(0).sort() == AR:
            src.append(e.arg(0))
        for c in e.children():
            walk(c)
    walk(ev.cond)
    if not src or any(not s.eq(src[0]) for s in src):
        return None
    return b, z3.If(ev.cond, src[0][b], z3.IntVal(0)), src[0]


def cnt(eng, l, x):
    """multiplicity of item x in a list"""
    c = l.content if isinstance(l, LList) else l
    if isinstance(c, GenIter):
        c = c.coll.content if isinstance(c.coll, LList) else c.coll
    if isinstance(c, MBag):
        return c.M[x]
    if isinstance(c, Bag):
        m = mult(c)
        if m is None:
            if all(not ev.binders for ev in c.events):
                return z3.Sum([z3.IntVal(0)] + [z3.If(And(zval(ev.cond), it_of(ev.value) == x), 1, 0) for ev in c.events])
            raise Unsupported('multiplicity')
        return z3.substitute(m[1], (m[0], x))
    return z3.Sum([z3.IntVal(0)] + [z3.If(it_of(v) == x, 1, 0) for v in c])


def it_of(v):
    if isinstance(v, tuple):
        v = v[-1]
    if not isinstance(v, UObj):
        raise Unsupported('not an item')
    return v.term


def thr(eng, name, P):
    if name in P:
        return P[name] if P[name] is None else eng.fresh(name, RealS)
    return Opt(eng.fresh(name + '_none', BoolS), eng.fresh(name, RealS))


def is_good(g, x):
    isn, v = opt(g)
    return And(Not(isn), up(x) <= toreal(v)) if v is not None else False


def is_bad(b, x):
    isn, v = opt(b)
    return And(Not(isn), lo(x) >= toreal(v)) if v is not None else False


class Heap:
    """an arbitrary queue satisfying the class invariant"""
    def __init__(self, eng, P, keep=False, thresholds=True):
        self.eng = eng
        self.n = n = P.get('n')
        stat = Poison('statistics')
        stat.stat = True
        f = {}
        self.good = thr(eng, 'good', P) if thresholds else None
        self.bad = thr(eng, 'bad', P) if thresholds else None
        self.x = z3.Const('x!h', IT)
        self.incv = eng.fresh('inc', IntS)
        if n is None:
            for a in ms_axioms():
                eng.assume(a)
            self.M, self.B = eng.fresh('M', AR), eng.fresh('B', AR)
            heap, bads = eng.mklist(MBag(self.M, True)), eng.mklist(MBag(self.B, False))
            x = self.x
            eng.assume(z3.ForAll([x], z3.And(self.M[x] >= 0, self.B[x] >= 0), patterns=[self.M[x]]))
            eng.assume(z3.ForAll([x], self.B[x] >= 0, patterns=[self.B[x]]))
            eng.assume((size_of(self.M) == 0) == (self.M == z3.K(IT, z3.IntVal(0))))
            eng.assume((size_of(self.B) == 0) == (self.B == z3.K(IT, z3.IntVal(0))))
            heap.ginc = eng.fresh('ghost_inc', IntS)
            eng.assume(heap.ginc <= self.incv)
            self.each(lambda y: z3.Implies(self.M[y] > 0, And(Not(is_good(self.good, y)), Not(is_bad(self.bad, y)))))
        else:
            its = [eng.fresh('item%d' % i, IT) for i in range(n)]
            bs = [eng.fresh('bitem%d' % i, IT) for i in range(P.get('nb', 0))]
            self.its = its
            heap = eng.mklist([(-up(t), eng.fresh('inc%d' % i, IntS), mk(t)) for i, t in enumerate(its)])
            for i, nd in enumerate(heap.content):
                eng.assume(nd[1] <= self.incv)
                for o in heap.content[:i]:
                    eng.assume(nd[1] != o[1])
                if i:
                    eng.assume(up(its[0]) >= up(its[i]))
            eng.fork_filter = True
            bads = eng.mklist([mk(t) for t in bs])
            for y in its:
                eng.assume(And(Not(is_good(self.good, y)), Not(is_bad(self.bad, y))))
        eng.heap_model = HeapModel()
        eng.bag_len = bag_len(eng)
        f.update(_heap=heap, _bad_items=bads, _good_threshold=self.good, _bad_threshold=self.bad, _keep_max_lo_item=keep, stats=stat, stash=None, _inc=self.incv)
        self.keep = keep
        if keep:
            self.seen = eng.fresh('seen', BoolS) if P.get('seen') is None else P['seen']
            self.mx = eng.fresh('maxlo', IT)
            f['seen_items'] = self.seen
            f['max_lo_item'] = mk(self.mx)
            if n is None:
                self.each(lambda y: z3.Implies(self.M[y] > 0, And(self.seen, lo(y) <= lo(self.mx))))
            else:
                for y in self.its:
                    eng.assume(And(self.seen, lo(y) <= lo(self.mx)))
        self.obj = new_obj(eng, cls_of(eng, BH), **f)
        self.heap, self.bads = heap, bads
        self.M0, self.B0 = snap(eng, heap), snap(eng, bads)

    def each(self, f):
        b = f(self.x)
        if is_z3(b):
            self.eng.assume(z3.ForAll([self.x], b, patterns=[self.M[self.x]]))

    def M_(self, x):
        return cnt(self.eng, self.eng.getattr(self.obj, '_heap'), x)

    def B_(self, x):
        return cnt(self.eng, self.eng.getattr(self.obj, '_bad_items'), x)


def snap(eng, l):
    c = l.content
    c = list(c) if isinstance(c, list) else c
    return lambda x: cnt(eng, eng.mklist(c), x)


def same_thr(eng, a, b):
    ai, av = opt(a)
    bi, bv = opt(b)
    if av is None or bv is None:
        return eng.eq(zval(ai), zval(bi))
    return And(eng.eq(ai, bi), Or(ai, eng.eq(av, bv)))


def frame_ok(eng, H, good=None):
    o = H.obj
    return And(same_thr(eng, eng.getattr(o, '_good_threshold'), H.good if good is None else good), same_thr(eng, eng.getattr(o, '_bad_threshold'), H.bad), eng.getattr(o, '_keep_max_lo_item') is H.keep)


def class_inv(eng, H):
    """the class invariant after the operation"""
    o = H.obj
    x = eng.fresh('any_item', IT)
    g, b = eng.getattr(o, '_good_threshold'), eng.getattr(o, '_bad_threshold')
    n = H.M_(x)
    eng.prove('class invariant: an active item is neither good nor bad', Implies(n > 0, And(Not(is_good(g, x)), Not(is_bad(b, x)))), kind='class invariant')
    eng.prove('class invariant: multiplicities are not negative', And(n >= 0, H.B_(x) >= 0), kind='class invariant')
    if H.keep:
        m = eng.getattr(o, 'max_lo_item').term
        eng.prove('class invariant: no active item has a larger lower bound than the recorded one', Implies(n > 0, And(eng.truth(eng.getattr(o, 'seen_items')), lo(x) <= lo(m))), kind='class invariant')


def h_push(keep):
    def h(eng, P):
        H = Heap(eng, P, keep)
        t = eng.fresh('item', IT)
        eng.cover('inputs')
        eng.call(eng.getattr(H.obj, 'push'), [mk(t)])
        x = eng.fresh('x', IT)
        one = z3.If(x == t, 1, 0)
        good, bad = is_good(H.good, t), And(Not(is_good(H.good, t)), is_bad(H.bad, t))
        eng.prove('push: the item becomes active exactly when it is neither good nor bad', H.M_(x) == H.M0(x) + z3.If(zval(Or(good, bad)), 0, one))
        eng.prove('push: the item is stored as bad exactly when it is bad and not good', H.B_(x) == H.B0(x) + z3.If(zval(bad), one, 0))
        eng.prove('push: thresholds and options are kept', frame_ok(eng, H))
        if keep:
            m = eng.getattr(H.obj, 'max_lo_item').term
            eng.prove('push: the recorded item has the largest lower bound pushed so far',
                      And(eng.truth(eng.getattr(H.obj, 'seen_items')), lo(m) >= lo(t), Implies(H.seen, lo(m) >= lo(H.mx)), Or(m == t, And(H.seen, m == H.mx))))
        class_inv(eng, H)
    return Contract('push%s' % (' keeping the largest lower bound' if keep else ''), h, [BH + '.push'], hsetup, FIN)


def hsetup(eng):
    def stats(e, args, kwargs):
        p = Poison('statistics')
        p.stat = True
        return p
    eng.contracts[MOD + '._HeapStat'] = stats


def h_top(what):
    def h(eng, P):
        H = Heap(eng, P)
        eng.cover('inputs')
        try:
            r = eng.call(eng.getattr(H.obj, what), [])
        except PyRaise as e:
            x = eng.fresh('x', IT)
            eng.prove('%s fails only on an empty queue' % what, H.M0(x) == 0)
            return
        x = eng.fresh('x', IT)
        t = r.term
        eng.prove('%s gives an active item' % what, H.M0(t) > 0)
        eng.prove('%s gives an item of largest upper bound' % what, Implies(H.M0(x) > 0, up(x) <= up(t)))
        eng.prove('%s: the other active items stay' % what, H.M_(x) == H.M0(x) - (z3.If(x == t, 1, 0) if what == 'pop' else 0))
        eng.prove('%s: bad items and thresholds are kept' % what, And(H.B_(x) == H.B0(x), frame_ok(eng, H)))
        class_inv(eng, H)
    return Contract(what, h, [BH + '.' + what], hsetup, [{'n': 0}, {'n': 1}, {'n': 2}])


def heap_objs(eng, env):
    cls = cls_of(eng, BH)
    return {n: v for n, v in env.vars.items() if isinstance(v, Obj) and v.cls is cls}


def extend_loop(eng, s, env, it, carried):
    """loop pushing the elements of a multiset one by one into a queue"""
    import ast
    if not isinstance(it, Bag) or mult(it) is None or carried:
        return None
    used = {n.id for st in s.body for n in ast.walk(st) if isinstance(n, ast.Name)}
    hs = [v for n, v in heap_objs(eng, env).items() if n in used]
    if len(hs) != 1:
        return None
    H = hs[0]
    heap0, bads0 = H.f['_heap'], H.f['_bad_items']
    M0, B0 = snap(eng, heap0), snap(eng, bads0)
    good, bad = H.f['_good_threshold'], H.f['_bad_threshold']
    keep = H.f['_keep_max_lo_item']
    seen0, mx0 = H.f.get('seen_items'), H.f.get('max_lo_item')
    x = z3.Const('x!e', IT)

    class L(inv.Loop):
        objs = [H, heap0, bads0]

        def multiset(self, bag):
            b, t, src = mult(bag)
            return b, t

        def havoc(self, k):
            heap0.content, bads0.content = MBag(z3.FreshConst(AR, 'Mh'), True), MBag(z3.FreshConst(AR, 'Bh'), False)
            H.f['_heap'], H.f['_bad_items'] = heap0, bads0
            H.f['_inc'] = eng.fresh('inc', IntS)
            heap0.ginc = eng.fresh('ghost_inc', IntS)
            if keep:
                H.f['seen_items'] = eng.fresh('seen', BoolS)
                H.f['max_lo_item'] = mk(eng.fresh('maxlo', IT))

        def inv(self, k):
            h, b = H.f['_heap'], H.f['_bad_items']
            bd = lambda y: And(Not(is_good(good, y)), is_bad(bad, y))
            D = self.D

            def both(y):
                act = Not(Or(is_good(good, y), is_bad(bad, y)))
                return And(cnt(eng, h, y) == M0(y) + z3.If(zval(act), D[y], 0), cnt(eng, b, y) == B0(y) + z3.If(zval(bd(y)), D[y], 0))
            hc = h.content
            if isinstance(hc, MBag):
                qs = [z3.ForAll([x], both(x), patterns=[hc.M[x]])]
                if isinstance(b.content, MBag):
                    qs.append(z3.ForAll([x], both(x), patterns=[b.content.M[x]]))
                qs.append(z3.ForAll([x], both(x), patterns=[D[x]] if not z3.is_K(D) and not z3.is_store(D) else []))
            else:
                qs = [z3.ForAll([x], both(x))]
            out = [('pushed so far: active, bad or discarded', And(qs)), ('thresholds kept', And(same_thr(eng, H.f['_good_threshold'], good), same_thr(eng, H.f['_bad_threshold'], bad), H.f['_keep_max_lo_item'] is keep))]
            if getattr(h, 'ginc', None) is not None:
                out.append(('running numbers', zval(h.ginc) <= zval(H.f['_inc'])))
            if keep:
                m, sn = H.f['max_lo_item'].term, eng.truth(H.f['seen_items'])
                out.append(('largest lower bound so far', And(z3.ForAll([x], z3.Implies(D[x] > 0, z3.And(zval(sn), lo(x) <= lo(m)))), Implies(seen0, And(sn, lo(m) >= lo(mx0.term))),
                                                              Or(And(m == mx0.term, eng.eq(sn, seen0)), D[m] > 0))))
            return out
    return L()


def h_raise_threshold(keep):
    def h(eng, P):
        H = Heap(eng, P, keep)
        t = eng.fresh('newgood', RealS)
        isn, v = opt(H.good)
        lower = And(Not(isn), t < toreal(v)) if v is not None else False
        eng.loop_hints = {'inv': inv.make(extend_loop)}
        eng.cover('inputs')
        x = eng.fresh('x', IT)
        try:
            eng.call(eng.getattr(H.obj, 'update_good_threshold'), [t])
        except PyRaise as e:
            eng.prove('lowering the good threshold is refused, and nothing else', lower)
            eng.prove('a refused update changes nothing', And(H.M_(x) == H.M0(x), H.B_(x) == H.B0(x), frame_ok(eng, H)))
            return
        eng.prove('the good threshold is never lowered', Not(lower))
        eng.prove('raising the threshold keeps exactly the active items above it', H.M_(x) == z3.If(up(x) > t, H.M0(x), 0))
        eng.prove('raising the threshold keeps bad items', H.B_(x) == H.B0(x))
        eng.prove('raising the threshold sets it', frame_ok(eng, H, Opt(False, t)))
        if keep:
            m = eng.getattr(H.obj, 'max_lo_item').term
            eng.prove('raising the threshold keeps the largest recorded lower bound', Implies(H.seen, And(eng.truth(eng.getattr(H.obj, 'seen_items')), lo(m) == lo(H.mx), Or(m == H.mx, H.M0(m) > 0))))
        class_inv(eng, H)
    return Contract('update_good_threshold%s' % (' keeping the largest lower bound' if keep else ''), h, [BH + '.update_good_threshold', BH + '._extend', BH + '.push'], hsetup, FIN)


def h_pop_bad(eng, P):
    H = Heap(eng, P)
    eng.cover('inputs')
    r = eng.call(eng.getattr(H.obj, 'pop_bad_items'), [])
    x = eng.fresh('x', IT)
    eng.prove('all bad items are handed out', cnt(eng, r, x) == H.B0(x))
    eng.prove('no bad item is kept', H.B_(x) == 0)
    eng.prove('active items and thresholds are kept', And(H.M_(x) == H.M0(x), frame_ok(eng, H)))
    eng.prove('later bad items do not appear in the list handed out', eng.getattr(H.obj, '_bad_items') is not r)


def h_copy(eng, P):
    H = Heap(eng, P, thresholds=False)
    g, b = thr(eng, 'newgood', P), thr(eng, 'newbad', P)
    eng.loop_hints = {'inv': inv.make(extend_loop)}
    eng.cover('inputs')
    R = eng.call(eng.getattr(H.obj, 'copy_and_cleanup'), [], {'good_threshold': g, 'bad_threshold': b})
    x = eng.fresh('x', IT)
    cr, br = cnt(eng, eng.getattr(R, '_heap'), x), cnt(eng, eng.getattr(R, '_bad_items'), x)
    good, bad = is_good(g, x), is_bad(b, x)
    eng.prove('copy: the active items are those that are neither good nor bad', cr == z3.If(zval(Or(good, bad)), 0, H.M0(x)))
    eng.prove('copy: the bad items are those that are bad and not good', br == z3.If(zval(And(Not(good), bad)), H.M0(x), 0))
    eng.prove('copy: thresholds', And(same_thr(eng, eng.getattr(R, '_good_threshold'), g), same_thr(eng, eng.getattr(R, '_bad_threshold'), b)))
    eng.prove('copy: the original is unchanged', And(H.M_(x) == H.M0(x), H.B_(x) == H.B0(x), frame_ok(eng, H)), kind='frame')
    eng.prove('copy: nothing is shared with the original', eng.getattr(R, '_heap') is not H.heap and eng.getattr(R, '_bad_items') is not H.bads and R is not H.obj, kind='frame')


def h_init(eng, P):
    g, b = thr(eng, 'g', P), thr(eng, 'b', P)
    R = eng.call(cls_of(eng, BH), [], {'good_threshold': g, 'bad_threshold': b, 'keep_max_lo_item': P['keep']})
    x = eng.fresh('x', IT)
    eng.prove('a new queue is empty', And(cnt(eng, eng.getattr(R, '_heap'), x) == 0, cnt(eng, eng.getattr(R, '_bad_items'), x) == 0))
    eng.prove('a new queue has the given thresholds', And(same_thr(eng, eng.getattr(R, '_good_threshold'), g), same_thr(eng, eng.getattr(R, '_bad_threshold'), b)))
    if P['keep']:
        eng.prove('a new queue has seen no item', Not(eng.truth(eng.getattr(R, 'seen_items'))))


def h_view(eng, P):
    H = Heap(eng, P)
    x = eng.fresh('x', IT)
    eng.cover('inputs')
    n = eng.call(eng.getattr(H.obj, 'size'), [])
    eng.prove('size is zero exactly when no item is active', Implies(eng.eq(n, 0), H.M0(x) == 0))
    if P.get('n') is not None:
        eng.prove('size counts the active items', eng.eq(n, P['n']))
    r = eng.call(eng.getattr(H.obj, 'items'), [])
    eng.prove('items lists the active items', cnt(eng, r, x) == H.M0(x))
    eng.prove('looking changes nothing', And(H.M_(x) == H.M0(x), H.B_(x) == H.B0(x), frame_ok(eng, H)), kind='frame')


FIN = [{'n': 0}, {'n': 1, 'nb': 1}, {'n': 2}]
CONTRACTS = [
    Contract('__init__', h_init, [BH + '.__init__'], hsetup, [{}], params={'keep': False}), Contract('__init__ keeping the largest lower bound', h_init, [BH + '.__init__'], hsetup, [{}], params={'keep': True}),
    h_push(False), h_push(True), h_top('top'), h_top('pop'), h_raise_threshold(False), h_raise_threshold(True),
    Contract('pop_bad_items', h_pop_bad, [BH + '.pop_bad_items'], hsetup, FIN),
    Contract('copy_and_cleanup', h_copy, [BH + '.copy_and_cleanup', BH + '._extend', BH + '.push'], hsetup, FIN),
    Contract('size, items', h_view, [BH + '.size', BH + '.items'], hsetup, FIN),
]
