"""C16: grid path search.

A path is its sequence of nodes; node(p, i) is its i-th node, a node is a cube with a state.
"""
import ast
from contracts.common import *
from contracts.abstract import *
from contracts import inv
from pyvc.builtins_ import GenIter
from pyvc.engine import Poison

CPT = '_cube_path_trees._CubePath'
TREE = '_cube_path_trees.CubePathTree'
NODE = '_cube_path_trees._CubeNode'
PTH, ND, CB, ST = [z3.DeclareSort(n) for n in ('GridPath', 'GridNode', 'GridCube', 'GridState')]
node = z3.Function('node', PTH, IntS, ND)
plen = z3.Function('path_length', PTH, IntS)
prv = z3.Function('path_prev', PTH, PTH)
cb, sta = z3.Function('cube_of', ND, CB), z3.Function('state_of', ND, ST)


def mkcube(t):
    return UObj(t, 'Cube', {})


def mknode(t):
    return UObj(t, 'Node', {'cube': lambda s: mkcube(cb(s.term)), 'state': lambda s: UObj(sta(s.term), 'State', {})})


class Paths:
    def __init__(self, eng, P, calls=True):
        self.eng, self.calls = eng, calls
        eng.set_elem = (CB, mkcube)
        self.fin = P.get('n')

    def fresh(self, nm='path'):
        eng = self.eng
        p = eng.fresh(nm, PTH)
        eng.assume(plen(p) >= 1)
        self.chain(p)
        return p

    def chain(self, p):
        i = z3.Int('i!c')
        q = prv(p)
        self.eng.assume(z3.Implies(plen(p) > 1, z3.And(plen(q) == plen(p) - 1, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < plen(q)), node(q, i) == node(p, i)), patterns=[node(q, i)]))))

    def inside(self, p, upto=None):
        """c is a cube of the path"""
        n = plen(p) if upto is None else upto

        def f(c):
            i = z3.FreshConst(IntS, 'i')
            return z3.Exists([i], z3.And(i >= 0, i < n, cb(node(p, i)) == c.term))
        return f

    def mk(self, p):
        eng = self.eng

        def supp(s):
            r = LSet([], self.inside(s.term))
            r.birth = eng.new_birth()
            return r

        def tail(s):
            h = cb(node(s.term, plen(s.term) - 1))
            r = LSet([], lambda c: And(self.inside(s.term)(c), c.term != h))
            r.birth = eng.new_birth()
            return r
        at = {'head': lambda s: mknode(node(s.term, plen(s.term) - 1)), 'length': lambda s: plen(s.term), 'prev': lambda s: self.prev(s.term),
              'support': lambda s: Builtin('support', lambda: supp(s)), 'tail_support': lambda s: Builtin('tail_support', lambda: tail(s)),
              'future': lambda s: Builtin('future', lambda: (tail(s), mknode(node(s.term, plen(s.term) - 1)))),
              'flat': lambda s: Builtin('flat', lambda: eng.mklist(SymCurve.seq(plen(s.term), lambda i: mknode(node(s.term, zval(i)))))),
              }
        if not self.calls:
            for k in ('support', 'tail_support', 'flat'):
                at.pop(k)
        return UObj(p, 'Path', at)

    def prev(self, p):
        self.chain(prv(p))
        return Opt(plen(p) == 1, self.mk(prv(p)))


def method(eng, cls, name):
    m = eng.find_method(cls_of(eng, cls), name)
    if m is None:
        raise Unsupported('no ' + name)
    return m


def climb(X, p, coll_inv, coll_havoc):
    """loop that follows the links from the head: after k steps it stands at the ancestor of length n-k"""
    def spec(eng, s, env, it, carried):
        if it is not None:
            return None
        ps = [n for n, v in carried.items() if isinstance(v, UObj) and v.tag == 'Path']
        cs = [v for v in env.vars.values() if isinstance(v, (LList, LSet))]
        if len(ps) != 1 or len(cs) != 1:
            return None

        class L(inv.Loop):
            objs = [cs[0]]

            def havoc(self, k):
                a = X.fresh('ancestor')
                env.vars[ps[0]] = X.mk(a)
                coll_havoc(eng, cs[0], k)

            def inv(self, k):
                v = env.vars[ps[0]]
                a = (v.val if isinstance(v, Opt) else v).term
                i = z3.Int('i!v')
                return [('standing at an ancestor', z3.And(plen(a) == plen(p) - zval(k), plen(a) >= 1, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < plen(a)), node(a, i) == node(p, i)), patterns=[node(a, i)])))] + coll_inv(eng, cs[0], zval(k))
        return L()
    return spec


def start(eng, P, calls):
    X = Paths(eng, P, calls)
    p = X.fresh()
    if X.fin:
        eng.assume(plen(p) == X.fin)
        eng.unroll = X.fin + 1
        q = p
        for _ in range(X.fin):
            X.chain(q)
            q = prv(q)
    return X, p


def h_flat(eng, P):
    X, p = start(eng, P, False)

    def cinv(e, c, k):
        i = z3.FreshConst(IntS, 'i')
        get = lambda t: c.content.get(t).term
        return [('nodes so far', And(e.eq(e.length(c), k + 1), z3.ForAll([i], z3.Implies(z3.And(i >= 0, i <= k), (c.content[0].term if isinstance(c.content, list) and len(c.content) == 1 else get(i)) == node(p, plen(p) - 1 - i)))))]

    def chav(e, c, k):
        c.content = SymCurve.seq(zval(k) + 1, lambda i: mknode(node(p, plen(p) - 1 - zval(i))))
    if not X.fin:
        eng.loop_hints = {'inv': inv.make(climb(X, p, cinv, chav))}
    eng.cover('inputs')
    r = eng.call_function(method(eng, CPT, 'flat'), [X.mk(p)], {})
    eng.prove('as many nodes as the path is long', eng.eq(eng.length(r), plen(p)))
    j = eng.fresh('j', IntS)
    if X.fin:
        for t in range(X.fin):
            eng.prove('the nodes from start to head', eng.getitem(r, t).term == node(p, z3.IntVal(t)))
        return
    eng.assume(ranges((j, plen(p))))
    eng.prove('the nodes from start to head', eng.getitem(r, j).term == node(p, j))


def h_support(eng, P):
    X, p = start(eng, P, False)
    seen = lambda k: (lambda c: X_exists(p, plen(p) - 1 - k, plen(p), c))

    def X_exists(p, a, b, c):
        i = z3.FreshConst(IntS, 'i')
        return z3.Exists([i], z3.And(i >= a, i < b, cb(node(p, i)) == c.term))

    def cinv(e, c, k):
        x = z3.FreshConst(CB, 'c')
        return [('cubes so far', z3.ForAll([x], zval(e.contains(c, mkcube(x))) == seen(k)(mkcube(x))))]

    def chav(e, c, k):
        c.puts, c.base = [], seen(zval(k))
    if not X.fin:
        eng.loop_hints = {'inv': inv.make(climb(X, p, cinv, chav))}
    eng.cover('inputs')
    r = eng.call_function(method(eng, CPT, 'support'), [X.mk(p)], {})
    c = mkcube(eng.fresh('cube', CB))
    if X.fin:
        eng.prove('support is the set of the cubes', zval(eng.contains(r, c)) == z3.Or(*[cb(node(p, z3.IntVal(t))) == c.term for t in range(X.fin)]))
        return
    eng.prove('support has only cubes of the path', Implies(eng.contains(r, c), X.inside(p)(c)))
    eng.prove('support has every cube of the path', Implies(X.inside(p)(c), eng.contains(r, c)))


def h_future(eng, P):
    X, p = start(eng, P, True)
    eng.cover('inputs')
    c = mkcube(eng.fresh('cube', CB))
    h = node(p, plen(p) - 1)
    want = And(X.inside(p)(c), c.term != cb(h))
    r = eng.call_function(method(eng, CPT, 'tail_support'), [X.mk(p)], {})
    eng.prove('tail support: the cubes without that of the head', zval(eng.contains(r, c)) == zval(want))
    f = eng.call_function(method(eng, CPT, 'future'), [X.mk(p)], {})
    eng.prove('future: visited cubes', zval(eng.contains(eng.getitem(f, 0), c)) == zval(want))
    eng.prove('future: head', eng.getitem(f, 1).term == h)


def h_check_glue(eng, P):
    X, a = start(eng, P, True)
    b = X.fresh('other')
    if X.fin:
        eng.assume(plen(b) == X.fin)
    fn = method(eng, TREE, '_check_glue')
    eng.cover('inputs')
    r = eng.truth(eng.call_function(fn, [X.mk(a), X.mk(b)], {}))
    ha, hb = node(a, plen(a) - 1), node(b, plen(b) - 1)
    c = z3.Const('c!g', CB)
    tail = lambda p, h: z3.And(X.inside(p)(mkcube(c)), c != cb(h))
    ok = z3.And(ha == hb, z3.Not(z3.Exists([c], z3.And(tail(a, ha), tail(b, hb)))))
    eng.prove('glued paths share their head and no other cube', zval(r) == ok)


def h_glue(eng, P):
    """start, then the rest of mid, then finish backwards without its head"""
    X, s = start(eng, {}, True)
    m, f = X.fresh('mid'), X.fresh('finish')
    if P.get('k'):
        a, b, c = P['k']
        eng.assume(And(plen(s) == a, plen(m) == b, plen(f) == c))
    eng.assume(plen(m) >= plen(s))
    fn = method(eng, TREE, '_glue_paths')
    eng.cover('inputs')
    r = eng.call_function(fn, [X.mk(s), X.mk(m), X.mk(f)], {})
    n = plen(m) + plen(f) - 1
    eng.prove('length of a glued path', eng.eq(eng.length(r), n))

    def want(j):
        return z3.If(j < plen(s), node(s, j), z3.If(j < plen(m), node(m, j), node(f, plen(f) - 2 - (j - plen(m)))))

    def at(j):
        v = eng.getitem(r, j)
        return And(eng.getitem(v, 0).term == cb(want(zval(j))), eng.getitem(v, 1).term == sta(want(zval(j))))
    if P.get('k'):
        for j in range(P['k'][1] + P['k'][2] - 1):
            eng.prove('nodes of a glued path', at(z3.IntVal(j)))
        return
    j = eng.fresh('j', IntS)
    eng.assume(ranges((j, n)))
    eng.prove('nodes of a glued path', at(j))


# ---- growing paths ----

def pterm(v):
    v = v.val if isinstance(v, Opt) else v
    if not isinstance(v, UObj):
        raise Unsupported('path expected')
    return v.term


def h_continue(eng, P):
    """one-step continuations of a path: exactly the proposed steps that stay in the grid and hit no cube of the path, each once"""
    d = P.get('dim') or eng.fresh('dim', IntS)
    eng.assume(zval(d) >= 1)
    N = eng.fresh('div', IntS)
    eng.assume(N >= 1)
    n = P['n'] if 'n' in P else eng.fresh('proposals', IntS)
    eng.assume(zval(n) >= 0)
    rev, given = P['rev'], P['given']
    co = eng.fresh_fun('cube', IntS, IntS)
    de = eng.fresh_fun('delta', IntS, IntS, IntS)
    sts = eng.fresh_fun('new_state', IntS, ST)
    S = z3.DeclareSort('Cells')
    cellco = eng.fresh_fun('cell', S, IntS, IntS)
    vis = eng.fresh_fun('visited', S, BoolS)
    get = lambda v, t: zval(eng.getitem(v, t)) if not isinstance(v, Seq) else zval(v.get(t))

    def visited(v):
        if P.get('dim'):
            return eng_vis(*[get(v, t) for t in range(P['dim'])])
        x, t = z3.FreshConst(S, 'x'), z3.FreshConst(IntS, 't')
        return z3.Exists([x], z3.And(vis(x), z3.ForAll([t], z3.Implies(ranges((t, d)), cellco(x, t) == get(v, t)))))
    if P.get('dim'):
        eng_vis = eng.fresh_fun('visited_at', *([IntS] * P['dim'] + [BoolS]))
    tup = lambda f: tuple(f(z3.IntVal(t)) for t in range(P['dim'])) if P.get('dim') else SymCurve.seq(d, lambda t: f(zval(t)))
    cube = tup(co)
    state = UObj(eng.fresh('state', ST), 'State', {})
    head = UObj(eng.fresh('head', ND), 'Node', {'cube': lambda s: cube, 'state': lambda s: state})

    def support():
        r = LSet([], visited)
        r.birth = eng.new_birth()
        return r
    L = eng.fresh('length', IntS)
    path = UObj(eng.fresh('path', PTH), 'Path', {'prev': lambda s: UObj(prv(s.term), 'Path', {}), 'head': lambda s: head, 'length': lambda s: L, 'support': lambda s: Builtin('support', support)})
    eng.assume(visited(cube))
    used = []

    def proposals(which):
        def f(c, s):
            used.append(which)
            eng.prove('proposals are asked for the head', And(eng.eq(c, cube), s.term == state.term))
            item = lambda i: (tup(lambda t: de(zval(i), t)), UObj(sts(zval(i)), 'State', {}))
            return eng.mklist([item(z3.IntVal(i)) for i in range(P['n'])]) if 'n' in P else SymCurve.seq(n, item)
        return Builtin(which, f)
    self_ = new_obj(eng, cls_of(eng, TREE))
    self_.f.update(dim=d, div=N, next_func=proposals('next'), prev_func=proposals('prev'))
    eng.cover('inputs')
    kw = {}
    if rev is not None:
        kw['reverse'] = rev
    if given:
        kw['cubeset'] = support()
    out = eng.call(eng.getattr(self_, '_continue_path'), [path], kw)
    evs = [eng.rename_event(ev) for ev in eng.bag_of(out).events]
    eng.prove('the right neighbours are used', len(used) >= 1 and set(used) == {'prev' if rev else 'next'})
    new = lambda i: tup(lambda t: co(t) + de(i, t))

    def ok(i):
        c = new(i)
        if P.get('dim'):
            ins = z3.And(*[z3.And(c[t] >= 0, c[t] < N) for t in range(P['dim'])])
        else:
            t = z3.FreshConst(IntS, 't')
            ins = z3.ForAll([t], z3.Implies(ranges((t, d)), z3.And(co(t) + de(i, t) >= 0, co(t) + de(i, t) < N)))
        return z3.And(ins, z3.Not(visited(c)))

    def same(v, i):
        h = eng.getattr(v, 'head')
        return [('new node: cube', eng.eq(eng.getattr(h, 'cube'), new(i))), ('new node: state', eng.getattr(h, 'state').term == sts(i)),
                ('new path: length', eng.eq(eng.getattr(v, 'length'), L + 1)), ('new path: link', pterm(eng.getattr(v, 'prev')) == path.term)]
    if 'n' in P:
        if any(bs for bs, c, v in evs):
            raise Unsupported('unexpected enumeration')
        hit = lambda v, i: And(*[f for nm, f in same(v, i)])
        for bs, c, v in evs:
            eng.prove('only admissible continuations', Implies(c, Or(*[And(ok(z3.IntVal(i)), hit(v, z3.IntVal(i))) for i in range(P['n'])])))
        for i in range(P['n']):
            eng.prove('every admissible continuation', Implies(ok(z3.IntVal(i)), Or(*[And(c, hit(v, z3.IntVal(i))) for bs, c, v in evs])))
        tot = lambda xs: z3.Sum([z3.If(zval(x), 1, 0) for x in xs]) if xs else z3.IntVal(0)
        eng.prove('each continuation once', tot([c for bs, c, v in evs]) == tot([ok(z3.IntVal(i)) for i in range(P['n'])]))
        return
    w = eng.fresh('w', IntS)
    eng.assume(ranges((w, n)))
    hits = []
    for bs, c, v in evs:
        if len(bs) != 1 or bs[0].sort() != IntS:
            raise Unsupported('unexpected enumeration')
        eng.prove('only admissible continuations', Implies(c, And(ranges((bs[0], n)), ok(bs[0]))))
        for nm, f in same(v, bs[0]):
            eng.prove(nm, Implies(c, f))
        hits.append(eng.subst(zval(c), [(bs[0], w)]))
    eng.prove('every admissible continuation', Implies(ok(w), Or(*hits)))
    for a in range(len(hits)):
        for b in range(a):
            eng.prove('each continuation once', Not(And(hits[a], hits[b])))


ext = {False: z3.Function('extends_forwards', PTH, BoolS), True: z3.Function('extends_backwards', PTH, BoolS)}
ARP = z3.ArraySort(PTH, IntS)


class Search:
    """_continue_path by its contract: the continuations of p are the paths q with ext(q) and prev(q) = p (each q a path object of its own)"""
    def __init__(self, eng, P):
        self.eng = eng
        self.X = Paths(eng, {}, True)
        self.asked = []
        eng.contracts[TREE + '._continue_path'] = self.cont
        eng.bag_len = self.count
        self.self_ = new_obj(eng, cls_of(eng, TREE))
        self.kids = P.get('kids')

    def count(self, bag):
        n = self.eng.fresh('how_many', IntS)
        self.eng.assume(n >= 0)
        return n

    def cont(self, eng, a):
        p, rev, cs = a['path'], a.get('reverse', False), a.get('cubeset')
        if not isinstance(rev, bool):
            raise Unsupported('direction')
        if not isinstance(p, UObj):
            raise Unsupported('path expected')
        if isinstance(cs, Opt):
            raise Unsupported('cubes')
        if cs is not None:
            c = mkcube(eng.fresh('cube', CB))
            eng.prove('cubes given to a continuation are those of the path', zval(eng.contains(cs, c)) == self.supp(p.term, c))
        self.asked.append(rev)
        q = z3.FreshConst(PTH, 'q')
        t = p.term
        return GenIter(Bag([Event((q,), z3.And(ext[rev](q), prv(q) == t, plen(q) == plen(t) + 1), self.X.mk(q))]))

    def supp(self, t, c):
        return self.X.inside(t)(c)


def count_in(eng, content, q, what='listed'):
    """how often the path q is in a list"""
    tot = z3.IntVal(0)
    if isinstance(content, (list, tuple)) and not content:
        return tot
    bag = content if isinstance(content, Bag) else eng.bag_of(content)
    for ev in bag.events:
        bs, c, v = eng.rename_event(ev)
        if not isinstance(v, UObj) or v.term.sort() != PTH:
            raise Unsupported('unexpected entry')
        mine = [b for b in bs if v.term.eq(b)]
        rest = [b for b in bs if not v.term.eq(b)]
        if len(mine) > 1 or any(b.sort() != PTH for b in rest) or len(rest) > 1 or (rest and not mine):
            raise Unsupported('unexpected enumeration')
        if not bs:
            tot = tot + z3.If(And(c, v.term == q), 1, 0)
            continue
        if not mine:
            raise Unsupported('unexpected enumeration')
        for b in rest:
            eng.prove('continuations are listed by their parent', Implies(c, b == prv(mine[0])))
        tot = tot + z3.If(zval(eng.subst(zval(c), [(mine[0], q)] + [(b, prv(q)) for b in rest])), 1, 0)
    return tot


KIDS = {'': ['a', 'b'], 'a': ['c', 'd'], 'b': ['e'], 'c': [], 'd': ['f'], 'e': ['g', 'h'], 'f': ['i'], 'g': [], 'h': ['j', 'k'], 'i': [], 'j': [], 'k': []}
BACK = {'': ['a', 'b'], 'a': ['x'], 'b': ['w'], 'w': [], 'x': ['y', 'z'], 'y': [], 'z': []}


def finite_tree(eng, S, P):
    """a fixed small search tree; the backward tree is another one"""
    con = {}

    def T(nm):
        if nm not in con:
            con[nm] = z3.Const('path_' + nm, PTH)
        return con[nm]
    for t in (KIDS, BACK):
        for a in t:
            if a:
                eng.assume(plen(T(a)) >= 1)
            for c in t[a]:
                eng.assume(prv(T(c)) == T(a) if a else plen(T(c)) == 1)
                if a:
                    eng.assume(plen(T(c)) == plen(T(a)) + 1)

    def cont(e, a):
        p, rev = a['path'], a.get('reverse', False)
        S.asked.append(rev)
        if a.get('cubeset') is not None:
            c = mkcube(e.fresh('cube', CB))
            e.prove('cubes given to a continuation are those of the path', zval(e.contains(a['cubeset'], c)) == S.supp(p.term, c))
        nm = [k for k in con if con[k].eq(p.term)][0]
        return GenIter(tuple(S.X.mk(T(c)) for c in (BACK if rev else KIDS)[nm]))
    def inside(p, upto=None):
        def f(c):
            nm, out = [k for k in con if con[k].eq(p)][0], []
            while nm:
                t = con[nm]
                out.append(c.term == cb(node(t, plen(t) - 1)))
                nm = [a for a in KIDS if nm in KIDS[a]][0]
            return z3.Or(*out)
        return f
    S.X.inside = inside
    eng.contracts[TREE + '._continue_path'] = cont
    return T


def tree_level(t, k):
    cur = t['']
    for _ in range(k):
        cur = [c for a in cur for c in t[a]]
    return sorted(cur)


def h_width_finite(eng, P):
    S = Search(eng, P)
    T = finite_tree(eng, S, P)
    tree = BACK if P['rev'] else KIDS
    mc = None
    if P['mc'] == 'some':
        mc = eng.fresh('max_count', IntS)
        eng.assume(mc >= 0)
    eng.cover('inputs')
    kw = {'max_steps': P['m'], 'max_count': mc}
    if P['rev']:
        kw['reverse'] = True
    r = eng.call(eng.getattr(S.self_, '_width_search'), [eng.mklist([S.X.mk(T(a)) for a in tree['']])], kw)
    if not isinstance(r, LList) or not isinstance(r.content, list):
        raise Unsupported('result')
    got = sorted(str(x.term)[5:] for x in r.content)
    eng.prove('the result is one complete level', any(got == tree_level(tree, k) for k in range(P['m'] + 1)))


def h_width(eng, P):
    """the result is one complete level: all the k-step continuations of the given paths for one k <= max_steps"""
    if 'm' in P:
        return h_width_finite(eng, P)
    S = Search(eng, P)
    rev = P['rev']
    E = ext[rev]
    lvl = eng.fresh_fun('level', IntS, PTH, BoolS)      # lvl(k, q): q is a k-step continuation of a given path
    k0, q0 = z3.Int('k!l'), z3.Const('q!l', PTH)
    eng.assume(z3.ForAll([k0, q0], lvl(k0 + 1, q0) == z3.And(k0 >= 0, E(q0), lvl(k0, prv(q0)), plen(q0) == plen(prv(q0)) + 1), patterns=[lvl(k0 + 1, q0)]))
    m = eng.fresh('max_steps', IntS)
    eng.assume(m >= 0)
    b = z3.Const('p!0', PTH)
    level = lambda k: Bag([Event((b,), lvl(zval(k), b), S.X.mk(b))])
    paths = eng.mklist(level(z3.IntVal(0)))
    mc = opt(eng.fresh('max_count', IntS)) if P['mc'] == 'opt' else None
    if P['mc'] == 'some':
        mc = eng.fresh('max_count', IntS)
        eng.assume(mc >= 0)
    ghost = {}

    def outer(e, s, env, it, carried):
        if it is None or isinstance(it, Bag):
            return None
        cur = [nm for nm, v in carried.items() if isinstance(v, LList)]
        if len(cur) != 1:
            return None
        nm = cur[0]

        class L(inv.Loop):
            objs = []

            def havoc(self, k):
                env.vars[nm] = e.mklist(level(k))

            def inv(self, k):
                q = e.fresh('q', PTH)
                ghost['k'] = k
                return [('the current paths are level k', z3.ForAll([q], count_in(e, env.vars[nm].content, q) == z3.If(lvl(zval(k), q), 1, 0)))]
        return L()

    def inner(e, s, env, it, carried):
        if not isinstance(it, Bag):
            return None
        news = [v for v in env.vars.values() if isinstance(v, LList) and isinstance(v.content, list) and not v.content]
        if len(news) != 1 or len(it.events) != 1:
            return None
        new = news[0]

        class L(inv.Loop):
            objs = [new]

            def multiset(self, bag):
                bs, c, v = e.rename_event(bag.events[0])
                if len(bs) != 1 or not v.term.eq(bs[0]):
                    raise Unsupported('unexpected enumeration')
                return bs[0], z3.If(zval(c), 1, 0)

            def havoc(self, k):
                q = z3.FreshConst(PTH, 'q')
                D = self.D
                new.content = Bag([Event((q,), z3.And(E(q), D[prv(q)] == 1, plen(q) == plen(prv(q)) + 1), S.X.mk(q))])

            def inv(self, k):
                q = z3.FreshConst(PTH, 'q')
                return [('continuations so far', z3.ForAll([q], count_in(e, new.content, q) == z3.If(z3.And(E(q), plen(q) == plen(prv(q)) + 1), self.D[prv(q)], 0)))]
        return L()
    eng.loop_hints = {'inv': inv.make(outer, inner)}
    eng.cover('inputs')
    kw = {'max_steps': m, 'max_count': mc}
    if rev:
        kw['reverse'] = True
    r = eng.call(eng.getattr(S.self_, '_width_search'), [paths], kw)
    if any(x != rev for x in S.asked):
        eng.prove('the search grows in its own direction', False)
    q = eng.fresh('q', PTH)
    if 'k' not in ghost:
        raise Unsupported('no loop over the steps')
    n = count_in(eng, r.content, q)
    ks = z3.Int('k!r')
    eng.prove('the result is one complete level', Or(*[And(zval(k) >= 0, zval(k) <= m, z3.ForAll([q], n == z3.If(lvl(zval(k), q), 1, 0))) for k in ghost_ks(ghost)]))


def ghost_ks(g):
    return [g['k']]


class Base:
    """what a list held when the iteration began, seen through one number"""
    def __init__(self, N):
        self.N = N


class Todo(Bag):
    """paths still to be extended, each with its cubes; N of them lead to the path in question"""
    def __init__(self, S, N, size, anc, note):
        self.args = (S, N, size, anc, note)
        super().__init__([Event((), size > 0, Base(N))])

    def m_pop(self, eng, *at):
        S, N, size, anc, note = self.args
        if not eng.branch(size > 0):
            raise PyRaise('IndexError')
        p = S.X.fresh('todo')
        w = z3.If(anc(p), 1, 0)
        eng.assume(N >= w)
        note(p)
        cs = LSet([], S.X.inside(p))
        cs.birth = eng.new_birth()
        return (S.X.mk(p), cs), Todo(S, simp(N - w), simp(size - 1), anc, note)


def h_depth_finite(eng, P):
    S = Search(eng, P)
    T = finite_tree(eng, S, P)
    eng.unroll = 14
    eng.cover('inputs')
    roots = KIDS[''][:P['k']]
    out = eng.call(eng.getattr(S.self_, '_depth_search'), [eng.mklist([S.X.mk(T(a)) for a in roots]), P['len']], {})
    got = sorted(str(ev.value.term)[5:] for ev in eng.bag_of(out).events)
    t = dict(KIDS, **{'': roots})
    eng.prove('all continuations of that length, each once', got == tree_level(t, P['len'] - 1))


def h_depth(eng, P):
    """for one arbitrary path x: it is found as often as it continues one of the given paths"""
    if 'len' in P:
        return h_depth_finite(eng, P)
    S = Search(eng, P)
    E = ext[False]
    given = [S.X.fresh('given%d' % i) for i in range(P['k'])]
    length = eng.fresh('length', IntS)
    x = S.X.fresh('x')
    eng.assume(plen(x) == length)
    A, ok = eng.fresh_fun('initial_part', IntS, PTH), eng.fresh_fun('continues', IntS, BoolS)
    l = z3.Int('l!a')
    eng.assume(z3.And(A(length) == x, ok(length)))
    eng.assume(z3.ForAll([l], z3.Implies(z3.And(l >= 1, l < length), z3.And(A(l) == prv(A(l + 1)), ok(l) == z3.And(ok(l + 1), E(A(l + 1)), plen(A(l + 1)) == l + 1))), patterns=[A(l)]))
    anc = lambda p: z3.And(plen(p) < length, p == A(plen(p)), ok(plen(p)))
    g = {}

    def note(p):
        g['p'] = p

    def pair(v):
        if not (isinstance(v, tuple) and len(v) == 2 and isinstance(v[0], UObj) and isinstance(v[1], LSet)):
            raise Unsupported('entry of the list of paths')
        c = z3.FreshConst(CB, 'c')
        q = v[0].term
        S.X.chain(q)
        return q, z3.ForAll([c], zval(eng.contains(v[1], mkcube(c))) == S.X.inside(q)(mkcube(c)))

    def todo_state(content):
        """number of entries leading to x; conditions on the entries"""
        tot, conds = z3.IntVal(0), []
        if isinstance(content, (list, tuple)):
            for v in content:
                q, f = pair(v)
                tot = tot + z3.If(anc(q), 1, 0)
                conds.append(f)
            return tot, conds
        for ev in content.events:
            if isinstance(ev.value, Base):
                tot = tot + ev.value.N
                continue
            bs, c, v = eng.rename_event(ev)
            q, f = pair(v)
            conds.append(Implies(c, f))
            if not bs:
                tot = tot + z3.If(And(c, anc(q)), 1, 0)
                continue
            if len(bs) != 1 or not bs[0].eq(q) or 'p' not in g:
                raise Unsupported('unexpected enumeration')
            a = A(plen(g['p']) + 1)
            conds.append(Implies(And(c, anc(q)), q == a))
            tot = tot + z3.If(z3.And(zval(eng.subst(zval(c), [(q, a)])), anc(a)), 1, 0)
        return tot, conds

    def found(content):
        tot = z3.IntVal(0)
        rest = []
        for ev in (content.events if isinstance(content, Bag) else eng.bag_of(eng.mklist(content)).events):
            if isinstance(ev.value, Base):
                tot = tot + ev.value.N
            else:
                rest.append(ev)
        return tot + count_in(eng, Bag(rest), x)

    def spec(e, s, env, it, carried):
        if it is not None:
            return None
        lists = [v for v in env.vars.values() if isinstance(v, LList) and v is not start_list]
        ee = env
        while ee.out is None:
            ee = ee.parent
        out = ee.out
        if len(lists) != 1 or 'loop' in g:
            return None
        todo = lists[0]
        g['loop'] = 1
        N0 = todo_state(todo.content if not isinstance(todo.content, Seq) else e.plain_seq(todo))[0]
        g['N0'] = N0

        class L(inv.Loop):
            objs = [todo, out]

            def havoc(self, k):
                N, Y, size = e.fresh('leading', IntS), e.fresh('found', IntS), e.fresh('size', IntS)
                e.assume(z3.And(N >= 0, Y >= 0, size >= N))
                todo.content = Todo(S, N, size, anc, note)
                out.content = Bag([Event((), True, Base(Y))])

            def inv(self, k):
                n, conds = todo_state(todo.content)
                return [('found plus leading', n + found(out.content) == N0)] + [('entries carry their cubes', f) for f in conds]
        return L()

    def blen(bag):
        return bag.args[2] if isinstance(bag, Todo) else S.count(bag)
    eng.bag_len = blen
    start_list = eng.mklist([S.X.mk(p) for p in given])
    eng.loop_hints = {'inv': inv.make(spec)}
    eng.cover('inputs')
    out = eng.call(eng.getattr(S.self_, '_depth_search'), [start_list, length], {})
    if any(S.asked):
        eng.prove('the search grows forwards', False)
    o = out.it if isinstance(out, GenIter) and hasattr(out, 'it') else out
    c = o.content if isinstance(o, LList) else o
    eng.prove('x is found as often as it continues a given path', found(c) == z3.Sum([z3.If(anc(p), 1, 0) for p in given]))


FUT = z3.DeclareSort('Future')
fut = z3.Function('future_of', PTH, FUT)
fhash = z3.Function('hash_of_future', FUT, IntS)


def h_hash(eng, P):
    """equal futures have equal hashes; a path whose tail is what the other leaves free, with the same head, has the hash the other asks for"""
    X, a = start(eng, P, True)
    b, c = X.fresh('other'), X.fresh('twin')
    if X.fin:
        eng.assume(And(plen(b) == X.fin, plen(c) == X.fin))
    allc = eng.fresh_fun('cube_of_grid', CB, BoolS)
    x = z3.Const('c!h', CB)
    head = lambda p: node(p, plen(p) - 1)
    tail = lambda p: z3.And(X.inside(p)(mkcube(x)), x != cb(head(p)))
    cells = LSet([], lambda y: allc(y.term))
    cells.birth = eng.new_birth()
    eng.assume(z3.ForAll([x], tail(b) == z3.And(allc(x), z3.Not(X.inside(a)(mkcube(x))))))
    eng.assume(head(a) == head(b))
    eng.assume(z3.And(z3.ForAll([x], tail(b) == tail(c)), head(c) == head(b)))
    eng.cover('inputs')
    hb = eng.call_function(method(eng, CPT, 'future_hash'), [X.mk(b)], {})
    hc = eng.call_function(method(eng, CPT, 'future_hash'), [X.mk(c)], {})
    ha = eng.call_function(method(eng, CPT, 'complement_future_hash'), [X.mk(a), cells], {})
    eng.prove('equal futures have equal hashes', eng.eq(hb, hc))
    eng.prove('the complement asks for the hash of the matching future', eng.eq(ha, hb))


def with_future(eng, S):
    mk = S.X.mk

    def mk2(p):
        u = mk(p)
        at = dict(u.attrs)
        at['future'] = lambda s: Builtin('future', lambda: UObj(fut(s.term), 'Future', {}))
        at['future_hash'] = lambda s: Builtin('future_hash', lambda: fhash(fut(s.term)))
        return UObj(u.term, u.tag, at)
    S.X.mk = mk2


def h_group(eng, P):
    """the groups: every path in exactly one, futures equal inside a group, no group empty"""
    S = Search(eng, P)
    with_future(eng, S)
    fn = method(eng, TREE, '_group_paths_by_future')
    if 'n' in P:
        ps = [z3.Const('path_%d' % i, PTH) for i in range(P['n'])]
        eng.assume(z3.Distinct(*ps) if len(ps) > 1 else True)
        arg = eng.mklist([S.X.mk(p) for p in ps])
        eng.cover('inputs')
        out = eng.concrete_items(eng.call_function(fn, [arg], {}))
        groups = [[pterm(v) for v in eng.concrete_items(g)] for g in out]
        for g in groups:
            eng.prove('no empty group', len(g) > 0)
            for t in g[1:]:
                eng.prove('futures are equal inside a group', fut(t) == fut(g[0]))
        flat = [str(t) for g in groups for t in g]
        eng.prove('every path in exactly one group', sorted(flat) == sorted(str(p) for p in ps))
        return
    given = eng.fresh_fun('given', PTH, BoolS)
    b = z3.Const('p!g', PTH)
    arg = eng.mklist(Bag([Event((b,), given(b), S.X.mk(b))]))
    eng.cover('inputs')
    out = eng.call_function(fn, [arg], {})
    tot, q = z3.IntVal(0), eng.fresh('q', PTH)
    evs = [eng.rename_event(ev) for ev in eng.bag_of(out).events]
    for bs, c, v in evs:
        if not isinstance(v, LList) or not isinstance(v.content, Bag) or len(v.content.events) != 1:
            raise Unsupported('unexpected groups')
        cs, d, w = eng.rename_event(v.content.events[0])
        if len(cs) != 1 or not w.term.eq(cs[0]):
            raise Unsupported('unexpected groups')
        r = cs[0]
        eng.prove('no empty group', Implies(c, z3.Exists([r], zval(d))))
        t = z3.FreshConst(PTH, 't')
        d2 = eng.subst(zval(d), [(r, t)])
        eng.prove('futures are equal inside a group', Implies(And(c, d, d2), fut(r) == fut(t)))
        # the group of a path is determined by its future and hash
        own = []
        for x in bs:
            if x.sort() == FUT:
                own.append((x, fut(r)))
            elif x.sort() == IntS:
                own.append((x, fhash(fut(r))))
            else:
                raise Unsupported('unexpected groups')
        eng.prove('groups are named by future', Implies(And(c, d), And(*[x == y for x, y in own])))
        me = And(eng.subst(eng.subst(zval(And(c, d)), own), [(r, q)])) if own else eng.subst(zval(And(c, d)), [(r, q)])
        tot = tot + z3.If(zval(me), 1, 0)
    eng.prove('every path in exactly one group', tot == z3.If(given(q), 1, 0))


def h_init(eng, P):
    fn = method(eng, TREE, '_init_path')
    c, st = mkcube(eng.fresh('cube', CB)), UObj(eng.fresh('state', ST), 'State', {})
    eng.cover('inputs')
    r = eng.call(eng.getattr(new_obj(eng, cls_of(eng, TREE)), '_init_path'), [c, st], {})
    h = eng.getattr(r, 'head')
    eng.prove('initial path: one node', And(eng.getattr(r, 'prev') is None, eng.eq(eng.getattr(r, 'length'), 1), eng.getattr(h, 'cube').term == c.term, eng.getattr(h, 'state').term == st.term))


RES = z3.DeclareSort('FoundPath')
glue = z3.Function('glued', PTH, PTH, PTH, RES)
fits = z3.Function('fits', PTH, PTH, BoolS)
fhp, chp = z3.Function('future_hash', PTH, IntS), z3.Function('complement_hash', PTH, IntS)
Sg = z3.Function('start_path', IntS, IntS, PTH)     # group, position
Mid = z3.Function('mid_path', PTH, IntS, PTH)
Fin = z3.Function('finish_path', IntS, PTH)


def h_grow(eng, P):
    """found: for every start path, every continuation (of the first path of its group) to the length that meets the finish
    paths and every finish path that fits, the glued path, once"""
    X = Paths(eng, {}, True)
    T = eng.fresh('cells', IntS)
    eng.assume(T >= 2)
    ns, nf, G, ls, lf = [eng.fresh(n, IntS) for n in ('starts', 'finishes', 'groups', 'start_length', 'finish_length')]
    gl = eng.fresh_fun('group_size', IntS, IntS)
    dn = eng.fresh_fun('mids', PTH, IntS)
    fin = P.get('fin')
    if fin:
        eng.assume(And(ns == fin['ns'], nf == fin['nf'], G == fin['G']))
        for j in range(fin['G']):
            eng.assume(gl(z3.IntVal(j)) == fin['gl'])
    j, r, t, i = z3.Ints('j!g r!g t!g i!g')
    eng.assume(And(ns >= 0, nf >= 0, G >= 0, (ns == 0) == (G == 0)))
    cells = UObj(eng.fresh('all_cubes', z3.DeclareSort('CellSet')), 'Cells', {})
    if fin:
        for a in range(fin['G']):
            for b in range(fin['gl']):
                eng.assume(plen(Sg(z3.IntVal(a), z3.IntVal(b))) == ls)
        for b in range(fin['nf']):
            eng.assume(plen(Fin(z3.IntVal(b))) == lf)
    else:
        eng.assume(z3.ForAll([j], gl(j) >= 1, patterns=[gl(j)]))
        eng.assume(z3.ForAll([j, i], plen(Sg(j, i)) == ls, patterns=[Sg(j, i)]))
        eng.assume(z3.ForAll([t], plen(Fin(t)) == lf, patterns=[Fin(t)]))
    p0 = z3.Const('p!g', PTH)
    eng.assume(z3.ForAll([p0], dn(p0) >= 0, patterns=[dn(p0)])) if not fin else None

    def mk(p):
        u = X.mk(p)
        at = dict(u.attrs)
        at['future_hash'] = lambda s: Builtin('future_hash', lambda: fhp(s.term))

        def comp(s, c):
            eng.prove('complement in the whole grid', c.term == cells.term if isinstance(c, UObj) else False)
            return chp(s.term)
        at['complement_future_hash'] = lambda s: Builtin('complement_future_hash', lambda all_cubes: comp(s, all_cubes))
        return UObj(u.term, u.tag, at)
    self_ = new_obj(eng, cls_of(eng, TREE))
    nextf, prevf = UObj(eng.fresh('nf', z3.DeclareSort('Func')), 'Func', {}), UObj(eng.fresh('pf', z3.DeclareSort('Func')), 'Func', {})
    self_.f.update(dim=eng.fresh('dim', IntS), div=eng.fresh('div', IntS), next_func=nextf, prev_func=prevf if P['exp'] else None, _all_cubes=cells)
    eng.assume(T == eng.power(self_.f['div'], self_.f['dim']))
    seq = lambda n, f: tuple(f(z3.IntVal(k)) for k in range(n)) if isinstance(n, int) else Seq(n, lambda k: f(zval(k)))
    cpy = eng.fresh_fun('init_path', CB, ST, PTH)

    def init(e, a):
        p = cpy(a['cube'].term, a['state'].term)
        if not P['exp']:
            e.assume(plen(p) == 1)
            return mk(p)
        return UObj(p, 'InitPath', {'length': lambda s: 1})
    sc, ss, fc, fs = eng.fresh_fun('start_cube', IntS, CB), eng.fresh_fun('start_state', IntS, ST), eng.fresh_fun('finish_cube', IntS, CB), eng.fresh_fun('finish_state', IntS, ST)
    n1, n2 = (fin['n1'], fin['nf']) if fin else (eng.fresh('n_start', IntS), eng.fresh('n_finish', IntS))
    eng.assume(And(zval(n1) >= 0, zval(n2) >= 0))
    if not P['exp']:        # the finish paths are the given ends themselves
        eng.assume(And(nf == n2, lf == 1))
        if not fin:
            eng.assume(z3.ForAll([t], plen(cpy(fc(t), fs(t))) == 1, patterns=[cpy(fc(t), fs(t))]))
    FinT = Fin if P['exp'] else (lambda k: cpy(fc(k), fs(k)))
    pairs = lambda n, c, s: eng.mklist(list(seq(n, lambda k: (mkcube(c(k)), UObj(s(k), 'State', {}))))) if isinstance(n, int) else eng.mklist(seq(n, lambda k: (mkcube(c(k)), UObj(s(k), 'State', {}))))

    def given(lst, n, c, s):
        """lst is the list of the initial paths for the given pairs"""
        n_ok = eng.eq(eng.length(lst), n)
        if isinstance(n, int):
            return And(n_ok, *[eng.getitem(lst, k).term == cpy(c(z3.IntVal(k)), s(z3.IntVal(k))) for k in range(n)]) if n_ok is True else n_ok
        k = eng.fresh('k', IntS)
        return And(n_ok, Implies(ranges((k, n)), eng.as_seq(lst).get(k).term == cpy(c(k), s(k))))

    def width(e, a):
        rev = a.get('reverse', False)
        if not isinstance(rev, bool):
            raise Unsupported('direction')
        m = a['max_steps']
        if rev:
            e.prove('finish paths grow from the finish', given(a['paths'], n2, fc, fs))
            e.assume(And(lf >= 1, lf <= z3.If(zval(m) > 0, zval(m), 0) + 1))
            return e.mklist(list(seq(fin['nf'], lambda k: mk(FinT(k))))) if fin else e.mklist(seq(nf, lambda k: mk(FinT(k))))
        e.prove('start paths grow from the start', given(a['paths'], n1, sc, ss))
        e.assume(And(ls >= 1, ls <= z3.If(zval(m) > 0, zval(m), 0) + 1))
        sp = e.fresh_fun('any_start', IntS, PTH)
        if fin:
            for k in range(fin['ns']):
                e.assume(plen(sp(z3.IntVal(k))) == ls)
            return e.mklist([mk(sp(z3.IntVal(k))) for k in range(fin['ns'])])
        k0 = z3.Int('k!s')
        e.assume(z3.ForAll([k0], plen(sp(k0)) == ls, patterns=[sp(k0)]))
        return e.mklist(seq(ns, lambda k: mk(sp(k))))

    def groups(e, a):
        if fin:
            return GenIter(tuple(e.mklist([mk(Sg(z3.IntVal(x), z3.IntVal(y))) for y in range(fin['gl'])]) for x in range(fin['G'])))
        return GenIter(seq(G, lambda x: e.mklist(seq(gl(x), lambda y: mk(Sg(x, y))))))

    def depth(e, a):
        ps = e.concrete_items(a['paths'])
        L = a['length']
        if len(ps) != 1:
            if fin:
                return GenIter(tuple(mk(Mid(pterm(q), z3.IntVal(k))) for q in ps for k in range(fin['mids'])))
            raise Unsupported('more than one path to continue')
        p = pterm(ps[0])
        e.prove('mid paths meet the finish paths', e.eq(L, T - lf + 1))
        e.prove('start paths are shorter than mid paths', plen(p) < zval(L))
        if fin:
            for k in range(fin['mids']):
                e.assume(plen(Mid(p, z3.IntVal(k))) == zval(L))
            return GenIter(tuple(mk(Mid(p, z3.IntVal(k))) for k in range(fin['mids'])))
        return GenIter(seq(dn(p), lambda k: mk(Mid(p, k))))
    a0, b0 = z3.Const('a!f', PTH), z3.Const('b!f', PTH)

    def check(e, a):
        m, f = pterm(a['beg']), pterm(a['end'])
        return fits(m, f)
    # lemma: a mid path and a finish path that together have every cell once ask for the same hash
    if fin:
        for x in range(fin['G']):
            for y in range(fin['mids']):
                for z in range(fin['nf']):
                    m, f = Mid(Sg(z3.IntVal(x), z3.IntVal(0)), z3.IntVal(y)), FinT(z3.IntVal(z))
                    eng.assume(Implies(fits(m, f), fhp(m) == chp(f)))
    else:
        eng.assume(z3.ForAll([a0, b0], z3.Implies(fits(a0, b0), fhp(a0) == chp(b0)), patterns=[fits(a0, b0)]))
    eng.contracts[TREE + '._init_path'] = init
    eng.contracts[TREE + '._width_search'] = width
    eng.contracts[TREE + '._group_paths_by_future'] = groups
    eng.contracts[TREE + '._depth_search'] = depth
    eng.contracts[TREE + '._check_glue'] = check
    eng.contracts[TREE + '._glue_paths'] = lambda e, a: UObj(glue(pterm(a['start']), pterm(a['mid']), pterm(a['finish'])), 'FoundPath', {})
    eng.cover('inputs')
    kw = {} if P['exp'] else {'finish_max_count': None}
    out = eng.call(eng.getattr(self_, 'grow'), [pairs(n1, sc, ss), pairs(n2, fc, fs)], kw)
    evs = [eng.rename_event(ev) for ev in eng.bag_of(out).events]
    if fin:
        if any(bs for bs, c, v in evs):
            raise Unsupported('unexpected enumeration')
        for x in range(fin['G']):
            for y in range(fin['gl']):
                for z in range(fin['mids']):
                    for w in range(fin['nf']):
                        g = (Sg(z3.IntVal(x), z3.IntVal(y)), Mid(Sg(z3.IntVal(x), z3.IntVal(0)), z3.IntVal(z)), FinT(z3.IntVal(w)))
                        n = [zval(c) for bs, c, v in evs if v.term.eq(glue(*g))]
                        tot = z3.Sum([z3.If(c, 1, 0) for c in n]) if n else z3.IntVal(0)
                        eng.prove('every fitting triple is found once', tot == z3.If(fits(g[1], g[2]), 1, 0))
        known = {glue(Sg(z3.IntVal(x), z3.IntVal(y)), Mid(Sg(z3.IntVal(x), z3.IntVal(0)), z3.IntVal(z)), FinT(z3.IntVal(w))).sexpr()
                 for x in range(fin['G']) for y in range(fin['gl']) for z in range(fin['mids']) for w in range(fin['nf'])}
        for bs, c, v in evs:
            eng.prove('nothing else is found', Implies(c, v.term.sexpr() in known))
        return
    J, R, W, I = [eng.fresh(n, IntS) for n in ('J', 'R', 'W', 'I')]
    want = (glue(Sg(J, I), Mid(Sg(J, z3.IntVal(0)), R), FinT(W)))
    rng = And(ranges((J, G), (I, gl(J)), (W, nf), (R, dn(Sg(J, z3.IntVal(0))))))
    eng.assume(rng)
    tot = z3.IntVal(0)
    for bs, c, v in evs:
        try:
            s, m, f = v.term.children()
            role = {s.arg(0).get_id(): J, s.arg(1).get_id(): I, m.arg(1).get_id(): R, (f if P['exp'] else f.arg(0)).arg(0).get_id(): W}
        except Exception:
            raise Unsupported('unexpected result')
        if len(role) != 4 or len(bs) != 4 or any(b.get_id() not in role for b in bs):
            raise Unsupported('unexpected enumeration')
        sub = [(b, role[b.get_id()]) for b in bs]
        back = [(y, x) for x, y in sub]
        eng.prove('start path, a continuation of its group and a finish path', Implies(c, And(v.term == eng.subst(want, back), eng.subst(zval(rng), back))))
        tot = tot + z3.If(zval(eng.subst(zval(c), sub)), 1, 0)
    eng.prove('every fitting triple is found once', tot == z3.If(fits(Mid(Sg(J, z3.IntVal(0)), R), FinT(W)), 1, 0))


CF = [{'dim': 2, 'n': 1}, {'dim': 1, 'n': 2}]
NF = [{'n': 1}, {'n': 2}, {'n': 3}]
CONTRACTS = [
    Contract('_CubePath.flat', h_flat, [CPT + '.flat'], setup, NF),
    Contract('_CubePath.support', h_support, [CPT + '.support'], setup, NF),
    Contract('_CubePath.tail_support, future', h_future, [CPT + '.tail_support', CPT + '.future'], setup, NF),
    Contract('_check_glue', h_check_glue, [TREE + '._check_glue'], setup, NF[:2]),
    Contract('_glue_paths', h_glue, [TREE + '._glue_paths'], setup, [{'k': (1, 1, 1)}, {'k': (1, 2, 2)}, {'k': (2, 3, 1)}, {'k': (2, 2, 3)}]),
] + [Contract('_continue_path (%s, %s)' % ('backwards' if r else 'default direction' if r is None else 'forwards', 'cubes given' if g else 'cubes found'),
               lambda eng, P, r=r, g=g: h_continue(eng, dict(P, rev=r, given=g)), [TREE + '._continue_path'], setup, CF)
      for r, g in ((None, True), (False, False), (True, False))]
CONTRACTS += [Contract('_width_search (%s, %s)' % ('backwards' if r else 'forwards', mc), lambda eng, P, r=r, mc=mc: h_width(eng, dict(P, rev=r, mc=mc)), [TREE + '._width_search'], setup, [{'m': 0}, {'m': 1}, {'m': 2}])
              for r, mc in ((False, 'some'), (True, 'some'), (True, 'none'))]
CONTRACTS += [Contract('_depth_search (%d given)' % k, lambda eng, P, k=k: h_depth(eng, dict(P, k=k)), [TREE + '._depth_search'], setup, [{'len': 2}, {'len': 3}] if k == 2 else [{'len': 4}])
              for k in (1, 2)]
CONTRACTS += [Contract('_CubePath.future_hash, complement_future_hash', h_hash, [CPT + '.future_hash', CPT + '.complement_future_hash', CPT + '.future'], setup, NF[:2]),
              Contract('_group_paths_by_future', h_group, [TREE + '._group_paths_by_future'], setup, NF)]
GF = [{'fin': dict(n1=1, ns=1, nf=1, G=1, gl=1, mids=1)}, {'fin': dict(n1=1, ns=2, nf=2, G=1, gl=2, mids=1)}, {'fin': dict(n1=2, ns=2, nf=1, G=2, gl=1, mids=2)}]
CONTRACTS += [Contract('_init_path', h_init, [TREE + '._init_path'], setup, [{'n': 1}]),
              Contract('grow', lambda eng, P: h_grow(eng, dict(P, exp=True)), [TREE + '.grow'], setup, GF),
              Contract('grow (finish not expanded)', lambda eng, P: h_grow(eng, dict(P, exp=False)), [TREE + '.grow'], setup, GF)]
