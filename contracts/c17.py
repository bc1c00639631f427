"""C17: path generation.

Path lists, links, gates and path trees enter by their contracts (C16, C18); a path is an element of a sort.
"""
import ast
import itertools
from contracts.common import *
from contracts.abstract import *
from contracts import inv
from contracts.c16 import Base, pterm
from pyvc.builtins_ import GenIter
from pyvc.engine import Poison, ExtType

GEN = 'paths.PathsGenerator'
PA, LK = z3.DeclareSort('GenPath'), z3.DeclareSort('GenLink')
mkpath = lambda t: UObj(t, 'GenPath', {})


def arrangements(ids):
    """permutations of the positions that keep the ids"""
    n = len(ids)
    return [p for p in itertools.permutations(range(n)) if all(ids[p[i]] == ids[i] for i in range(n))]


def h_combprod(eng, P):
    """for every choice of multisets of list positions, one per id, exactly one tuple"""
    ids = P['ids']
    names = sorted(set(ids))
    el = {a: eng.fresh_fun('elem_' + a, IntS, PA) for a in names}
    fin = P.get('n')
    n = {a: (fin if fin is not None else eng.fresh('count_' + a, IntS)) for a in names}
    d = LDict([(a, eng.mklist([mkpath(el[a](z3.IntVal(i))) for i in range(fin)]) if fin is not None else eng.mklist(Seq(n[a], lambda i, a=a: mkpath(el[a](zval(i)))))) for a in names])
    d.birth = eng.new_birth()
    for a in names:
        eng.assume(zval(n[a]) >= 0)
    fn = cls_of(eng, 'utils.combinations_product')
    eng.cover('inputs')
    out = eng.call(fn, [tuple(ids), d])
    W = [eng.fresh('w%d' % i, IntS) for i in range(len(ids))]
    rng = And(*[And(w >= 0, w < zval(n[a])) for w, a in zip(W, ids)])
    inc = And(*[W[i] <= W[j] for j in range(len(ids)) for i in range(j) if ids[i] == ids[j]])
    eng.assume(And(rng, inc))
    tot = z3.IntVal(0)
    for ev in eng.bag_of(out).events:
        bs, c, v = eng.rename_event(ev)
        v = eng.plain_seq(v)
        if not isinstance(v, tuple) or len(v) != len(ids):
            eng.prove('one element for every position', Not(c))
            continue
        ix = []
        for x, a in zip(v, ids):
            if not isinstance(x, UObj) or x.term.num_args() != 1 or not x.term.eq(el[a](x.term.arg(0))):
                ix = None
                break
            ix.append(x.term.arg(0))
        if ix is None:
            eng.prove('elements come from the list of their id', Not(c))
            continue
        eng.prove('elements come from the list of their id', Implies(c, And(*[And(i >= 0, i < zval(n[a])) for i, a in zip(ix, ids)])))
        seen = []
        for p in arrangements(ids):
            t = [W[p[i]] for i in range(len(ids))]
            new = And(*[Not(And(*[x == y for x, y in zip(t, u)])) for u in seen])
            seen.append(t)
            if bs:
                if len(bs) != len(ix) or len({b.get_id() for b in bs}) != len(bs) or sorted(b.get_id() for b in bs) != sorted(i.get_id() for i in ix):
                    raise Unsupported('unexpected enumeration')
                hit = eng.subst(zval(c), [(i, w) for i, w in zip(ix, t)])
            else:
                hit = And(c, *[i == w for i, w in zip(ix, t)])
            tot = tot + z3.If(zval(And(new, hit)), 1, 0)
    eng.prove('one tuple for every choice of multisets', tot == 1)


class Gen:
    """a generator object whose paths for a restriction are an arbitrary finite list"""
    def __init__(self, eng, P):
        self.eng = eng
        self.fin = P.get('n')
        self.self_ = new_obj(eng, cls_of(eng, GEN))
        self.cnt = z3.Function('paths_for', LK, LK, BoolS, IntS)
        self.path = z3.Function('path_for', LK, LK, BoolS, IntS, PA)
        self.none = z3.Const('nothing', LK)
        eng.contracts[GEN + '.generate_paths_generic'] = self.generic
        self.kw = []

    def term(self, v):
        if v is None:
            return self.none
        if isinstance(v, Opt):
            return z3.If(v.isnone, self.none, v.val.term)
        return v.term

    def key(self, link, parent, std):
        return self.term(link), self.term(parent), z3.BoolVal(bool(std))

    def generic(self, eng, a):
        k = self.key(a.get('link'), a.get('parent'), a.get('std', False))
        self.kw.append(a.get('kwargs'))
        eng.assume(self.cnt(*k) >= 0)
        if self.fin is not None:
            eng.assume(self.cnt(*k) == self.fin)
            return GenIter(tuple(mkpath(self.path(*k, z3.IntVal(i))) for i in range(self.fin)))
        return GenIter(Seq(self.cnt(*k), lambda i: mkpath(self.path(*k, zval(i)))))


def restrictions(eng, G, P):
    """(arguments of the call, list of (link, parent) it means)"""
    n = P['k']
    obj = [UObj(eng.fresh('given%d' % i, LK), 'Restriction', {}) for i in range(n)]
    if P.get('same'):
        obj[1] = obj[0]
    for a, b in itertools.combinations(range(n), 2):
        if not (P.get('same') and (a, b) == (0, 1)):
            eng.assume(obj[a].term != obj[b].term)
    for o in obj:
        eng.assume(o.term != G.none)
    how = P['how']
    if how == 'own':
        G.self_.f['links'] = tuple(obj)
        return {}, [(o, None) for o in obj]
    G.self_.f['links'] = tuple(UObj(eng.fresh('own%d' % i, LK), 'Restriction', {}) for i in range(n))
    if how == 'links':
        return {'links': tuple(obj)}, [(o, None) for o in obj]
    return {'parents': tuple(obj)}, [(None, o) for o in obj]


def h_example(eng, P):
    """an example exists iff every restriction has a path; it consists of paths for the restrictions, in order"""
    G = Gen(eng, P)
    kw, rs = restrictions(eng, G, P)
    eng.cover('inputs')
    r = eng.call(eng.getattr(G.self_, 'get_paths_example'), [], kw)
    cnt = [G.cnt(*G.key(l, p, False)) for l, p in rs]
    ok = And(*[c >= 1 for c in cnt])
    if r is None:
        eng.prove('no example only if a restriction has no path', Not(ok))
        return
    if isinstance(r, Opt):
        raise Unsupported('optional result')
    eng.prove('an example only if every restriction has a path', ok)
    items = eng.concrete_items(r)
    eng.prove('one path for every restriction', len(items) == len(rs))
    for v, (l, p) in zip(items, rs):
        i = z3.FreshConst(IntS, 'i')
        k = G.key(l, p, False)
        eng.prove('the paths fit the restrictions', z3.Exists([i], z3.And(i >= 0, i < G.cnt(*k), pterm2(v) == G.path(*k, i))))


def pterm2(v):
    if not isinstance(v, UObj):
        raise Unsupported('path expected')
    return v.term


def h_paths(eng, P):
    """tuples of paths: the product over the restrictions; standardised: a multiset for equal restrictions"""
    G = Gen(eng, P)
    kw, rs = restrictions(eng, G, P)
    std = P['std']
    if std is not None:
        kw['std'] = std
    cp = []

    def combprod(e, a):
        ids = e.concrete_items(a['iter_ids'])
        lists = []
        for x in ids:
            lists.append(e.dict_get(a['iter_dict'], x))
        cp.append((ids, lists))
        return GenIter(e.mklist(Bag([])))
    eng.contracts['utils.combinations_product'] = combprod
    eng.cover('inputs')
    out = eng.call(eng.getattr(G.self_, 'generate_paths'), [], kw)
    keys = [G.key(l, p, std) for l, p in rs]
    W = [eng.fresh('w%d' % i, IntS) for i in range(len(rs))]
    eng.assume(And(*[And(w >= 0, w < G.cnt(*k)) for w, k in zip(W, keys)]))
    if cp:
        eng.prove('combinations only when standardised or when no restriction is repeated', bool(std) or not P.get('same'))
        ids, lists = cp[0]
        eng.prove('combinations over the restrictions', len(cp) == 1 and len(ids) == len(rs))
        for x, (l, p), lst, w, k in zip(ids, rs, lists, W, keys):
            a, b = eng.getitem(x, 0), eng.getitem(x, 1)
            eng.prove('the ids are the restrictions', And(G.term(a) == G.term(l), G.term(b) == G.term(p)))
            eng.prove('lists of paths', And(eng.eq(eng.length(lst), G.cnt(*k)), eng.as_seq(lst).get(w).term == G.path(*k, w)))
        return
    multi = bool(std and P.get('same'))
    ids = [0, 0] + list(range(2, len(rs))) if multi else list(range(len(rs)))
    if multi:
        eng.assume(W[0] <= W[1])
    tot = z3.IntVal(0)
    for ev in eng.bag_of(out).events:
        bs, c, v = eng.rename_event(ev)
        v = eng.plain_seq(v)
        if not isinstance(v, tuple) or len(v) != len(rs):
            eng.prove('one path for every restriction', Not(c))
            continue
        ix = [x.term.arg(3) for x in v]
        want = [G.path(*k, i) for k, i in zip(keys, ix)]
        eng.prove('paths of the restriction', Implies(c, And(*[And(x.term == y, i >= 0, i < G.cnt(*k)) for x, y, i, k in zip(v, want, ix, keys)])))
        if bs:
            if len(bs) != len(ix) or sorted(b.get_id() for b in bs) != sorted(i.get_id() for i in ix):
                raise Unsupported('unexpected enumeration')
        seen = []
        for p in arrangements(ids):
            t = [W[p[i]] for i in range(len(ids))]
            new = And(*[Not(And(*[x == y for x, y in zip(t, u)])) for u in seen])
            seen.append(t)
            hit = eng.subst(zval(c), list(zip(ix, t))) if bs else And(c, *[i == w for i, w in zip(ix, t)])
            tot = tot + z3.If(zval(And(new, hit)), 1, 0)
    eng.prove('every tuple of paths once', tot == 1)


# ---- one restriction ----
SB = z3.DeclareSort('GateSubset')
GL = z3.DeclareSort('GateLink')
BMS = z3.DeclareSort('SomeMap')
KEEP = z3.DeclareSort('Kept')
lentr, lexit, linv = z3.Function('entr_of', GL, SB), z3.Function('exit_of', GL, SB), z3.Function('reversed_link', GL, GL)
lmeet = z3.Function('links_meet', GL, GL, BoolS)
sbdiv_n = z3.Function('parts', SB, IntS)
sbdiv_c, sbdiv_s = z3.Function('part_cube', SB, IntS, IntS, IntS), z3.Function('part_set', SB, IntS, SB)
gln, glf = z3.Function('entering_links', SB, IntS), z3.Function('entering_link', SB, IntS, GL)
nxn, nxd, nxl = z3.Function('steps', SB, IntS), z3.Function('step_delta', SB, IntS, IntS, IntS), z3.Function('step_link', SB, IntS, GL)
fnc, fnl = z3.Function('found_cube', IntS, IntS, IntS, IntS), z3.Function('found_link', IntS, IntS, GL)
pth = z3.Function('found', IntS, PA)
act = z3.Function('image_of_path', BMS, PA, PA)
brev = z3.Function('reverses_time', BMS, BoolS)
stdp = z3.Function('least_image', PA, PA)


class Lookup:
    """dictionary known by its contract"""
    def __init__(self, f):
        self.f = f

    def find(self, eng, k):
        return True, self.f(k)


def mksub(eng, t, P):
    def divide(s, div):
        eng.prove('gates are divided by div', eng.eq(div, P['N']))
        return GenIter(P['seq'](sbdiv_n(s.term), lambda i: (P['tup'](lambda j: sbdiv_c(s.term, i, j)), mksub(eng, sbdiv_s(s.term, i), P)), P.get('parts')))
    return UObj(t, 'Subset', {'divide': lambda s: Builtin('divide', lambda div: divide(s, div))})


def mklink(eng, t, P):
    return UObj(t, 'Link', {'entrance': lambda s: mksub(eng, lentr(s.term), P), 'exit': lambda s: mksub(eng, lexit(s.term), P),
                            '__invert__': lambda s: mklink(eng, linv(s.term), P),
                            'intersects': lambda s: Builtin('intersects', lambda o: lmeet(s.term, o.term))})


def h_generic(eng, P):
    P = dict(P)
    fin = P.get('fin')
    dim = P['dim']
    N = eng.fresh('div', IntS)
    eng.assume(N >= 2)
    P['N'] = N
    P['tup'] = tup = lambda f: tuple(f(z3.IntVal(j)) for j in range(dim))

    def seq(n, f, k=None):
        if fin:
            k = k if k is not None else fin
            eng.assume(n == k)
            return tuple(f(z3.IntVal(i)) for i in range(k))
        eng.assume(n >= 0)
        return Seq(n, lambda i: f(zval(i)))
    P['seq'] = seq
    mkl = lambda t: mklink(eng, t, P)
    par = P['parent']
    self_ = new_obj(eng, cls_of(eng, GEN))
    d = LDict([], Lookup(lambda k: seq(nxn(k.term), lambda i: (tup(lambda j: nxd(k.term, i, j)), mkl(nxl(k.term, i))))))
    d.birth = eng.new_birth()
    self_.f.update(dim=dim, div=N, _exit2next=d, links=())
    eng.contracts[GEN + '._gen_intersected_links'] = lambda e, a: GenIter(seq(gln(a['subset'].term), lambda i: mkl(glf(a['subset'].term, i))))
    n = fin + 1 if fin else eng.fresh('cells', IntS)
    eng.assume(zval(n) >= 2)
    pc, pl = eng.fresh_fun('parent_cube', IntS, IntS, IntS), eng.fresh_fun('parent_link', IntS, GL)
    i0, i1 = z3.Ints('i!p j!p')
    kw = {}
    keep = eng.fresh('kept', KEEP)
    fixed = eng.fresh_fun('fixes', BMS, KEEP, BoolS)
    if par:
        cubes = tuple(tup(lambda j, k=k: pc(z3.IntVal(k), j)) for k in range(n)) if fin else Seq(n, lambda k: tup(lambda j: pc(zval(k), j)))
        links = tuple(mkl(pl(z3.IntVal(k))) for k in range(n)) if fin else Seq(n, lambda k: mkl(pl(zval(k))))
        same = lambda a, b: z3.And(*[pc(a, z3.IntVal(j)) == pc(b, z3.IntVal(j)) for j in range(dim)])
        if fin:
            for a in range(n):
                for b in range(a):
                    eng.assume(z3.Not(same(z3.IntVal(a), z3.IntVal(b))))
        else:
            eng.assume(z3.ForAll([i0, i1], z3.Implies(z3.And(i0 >= 0, i0 < i1, i1 < n), z3.Not(same(i0, i1)))))
        kw['parent'] = given = UObj(keep, 'Kept', {'proto': lambda s: cubes, 'links': lambda s: links})
    else:
        gl0 = eng.fresh('global_link', GL)
        base = mkl(gl0)
        kw['link'] = given = UObj(keep, 'Kept', {'entrance': lambda s: mksub(eng, lentr(gl0), P), 'exit': lambda s: mksub(eng, lexit(gl0), P)})
    bmap = lambda b: UObj(b, 'SomeMap', {'__mul__': lambda s, o: moved(s, o), 'time_rev': lambda s: brev(s.term)})

    def moved(s, o):
        if isinstance(o, UObj) and o.tag == 'Kept':
            return UObj(z3.If(fixed(s.term, o.term), o.term, other), 'Kept', {})
        if isinstance(o, UObj) and o.tag == 'GenPath':
            return mkpath(act(s.term, o.term))
        raise Unsupported('image')
    other = eng.fresh('moved', KEEP)
    eng.assume(other != keep)
    allb = eng.fresh_fun('is_map', BMS, BoolS)
    idm = eng.fresh('identity', BMS)
    eng.assume(And(allb(idm), fixed(idm, keep)))

    def maps(e, a):
        tr = a.get('time_rev')
        eng.prove('all symmetries, with time reversal', And(tr is None, e.eq(a['dim'], dim)))
        b = z3.FreshConst(BMS, 'b')
        return GenIter(e.mklist(Bag([Event((b,), allb(b), bmap(b))])))
    eng.contracts['base_maps.BaseMap.gen_base_maps'] = maps
    tree = {}
    L = eng.fresh('found_length', IntS)
    eng.assume(L >= 1)
    npaths = eng.fresh('found_paths', IntS)

    def grow(start, finish, **k):
        tree['start'], tree['finish'], tree['kw'] = start, finish, k
        tree['checked'] = check_tree(tree)
        if fin:
            eng.assume(And(L == 2, npaths == P.get('paths', fin)))
            return GenIter(tuple(eng.mklist([(tup(lambda j, r=r, t=t: fnc(z3.IntVal(r), z3.IntVal(t), j)), mkl(fnl(z3.IntVal(r), z3.IntVal(t)))) for t in range(2)]) for r in range(P.get('paths', fin))))
        eng.assume(npaths >= 0)
        return GenIter(Seq(npaths, lambda r: eng.mklist(Seq(L, lambda t: (tup(lambda j: fnc(zval(r), zval(t), j)), mkl(fnl(zval(r), zval(t))))))))

    def mktree(e, args, kwargs):
        names = ['dim', 'div', 'next_func', 'prev_func']
        tree.update(zip(names, args))
        tree.update(kwargs)
        return UObj(e.fresh('tree', z3.DeclareSort('PathTree')), 'Tree', {'grow': lambda s: Builtin('grow', grow)})
    eng.contracts['_cube_path_trees.CubePathTree'] = mktree
    eng.contracts['paths.Proto'] = lambda e, args, kwargs: (list(args) + [kwargs[x] for x in ('dim', 'div', 'cubes')[len(args):]]) and mkproto(e, args, kwargs)

    def mkproto(e, args, kwargs):
        v = dict(zip(('dim', 'div', 'cubes'), args), **kwargs)
        eng.prove('the prototype is in the grid of the generator', And(e.eq(v['dim'], dim), e.eq(v['div'], N)))
        return ('proto', e.plain_seq(v['cubes'] if not isinstance(v['cubes'], GenIter) else e.iter_of(v['cubes'])))

    def mkpth(e, args, kwargs):
        v = dict(zip(('proto', 'links'), args), **kwargs)
        ls = v['links']
        ls = e.plain_seq(ls if not isinstance(ls, GenIter) else e.iter_of(ls))
        cs = v['proto'][1]
        at = lambda q, t: q[t] if isinstance(q, tuple) else q.get(z3.IntVal(t) if isinstance(t, int) else t)
        r = at(ls, 0).term.arg(0)
        ln = lambda q: len(q) if isinstance(q, tuple) else q.n
        e.prove('length of the path', And(e.eq(ln(ls), L), e.eq(ln(cs), L)))
        for t in (range(len(ls)) if isinstance(ls, tuple) else [e.fresh('t', IntS)]):
            ok = And(at(ls, t).term == fnl(r, zval(t)), e.eq(at(cs, t), tup(lambda j: fnc(r, zval(t), j))))
            e.prove('cubes and links of the found path', ok if isinstance(t, int) else Implies(ranges((t, L)), ok))
        return mkpath(pth(r))
    eng.contracts['paths.Path'] = mkpth
    xq = z3.Const('x!std', PA)
    if not fin:
        eng.assume(z3.ForAll([xq], stdp(stdp(xq)) == stdp(xq), patterns=[stdp(stdp(xq))]))
    else:
        for r in range(P.get('paths', fin)):
            eng.assume(stdp(stdp(pth(z3.IntVal(r)))) == stdp(pth(z3.IntVal(r))))

    def least(e, name, bag):
        if name != 'min' or len(bag.events) != 1:
            raise Unsupported('extremum')
        bs, c, v = e.rename_event(bag.events[0])
        if len(bs) != 1 or bs[0].sort() != BMS or v.tag != 'GenPath' or v.term.decl().name() != 'image_of_path':
            raise Unsupported('extremum')
        eng.prove('least image under the symmetries that keep the restriction', And(v.term.arg(0) == bs[0], zval(c) == zval(And(allb(bs[0]), fixed(bs[0], keep)))))
        return mkpath(stdp(v.term.arg(1)))
    eng.minmax_hook = least

    def parent_ok(k, cube, link):
        return And(*[c == pc(k, z3.IntVal(j)) for j, c in enumerate(cube)], lmeet(link, pl(k)))

    def listing(what, coll, want, rng, names):
        """the collection has exactly the wanted entries, each once; want: binders -> (cond, cube, link)"""
        evs = [eng.rename_event(ev) for ev in eng.bag_of(coll).events]
        if fin:
            combos = rng
            for bs, c, v in evs:
                if bs:
                    raise Unsupported('unexpected enumeration')
                eng.prove(what + ': nothing else', Implies(c, Or(*[And(want(*x)[0], eng.eq(v[0], want(*x)[1]), v[1].term == want(*x)[2]) for x in combos])))
            for x in combos:
                cond, cu, li = want(*x)
                eng.prove(what + ': nothing missing', Implies(cond, Or(*[And(c, eng.eq(v[0], cu), v[1].term == li) for bs, c, v in evs])))
            tot = lambda xs: z3.Sum([z3.If(zval(x), 1, 0) for x in xs]) if xs else z3.IntVal(0)
            eng.prove(what + ': each once', tot([c for bs, c, v in evs]) == tot([want(*x)[0] for x in combos]))
            return
        W = [eng.fresh('w', IntS) for _ in names]
        eng.assume(rng(*W))
        cond, cu, li = want(*W)
        tot = z3.IntVal(0)
        for bs, c, v in evs:
            if len(bs) != len(names) or any(b.sort() != IntS for b in bs):
                raise Unsupported('unexpected enumeration')
            wc, wcu, wli = want(*bs)
            eng.prove(what + ': entries', Implies(c, And(rng(*bs), wc, eng.eq(v[0], wcu), v[1].term == wli)))
            tot = tot + z3.If(zval(eng.subst(zval(c), list(zip(bs, W)))), 1, 0)
        eng.prove(what + ': each once', tot == z3.If(zval(cond), 1, 0))

    def check_tree(tr):
        eng.prove('tree over the grid of the generator', And(eng.eq(tr['dim'], dim), eng.eq(tr['div'], N)))
        # continuation rules, at an arbitrary cube of the grid
        k = eng.fresh('k', IntS)
        li = eng.fresh('here', GL)
        cube = tup(lambda j: pc(k, j)) if par else tup(eng.fresh_fun('cube', IntS, IntS))
        for fwd in (True, False):
            if par and fin:
                kk = z3.IntVal(0 if fwd else n - 1)
                cube = tup(lambda j: pc(kk, j))
            elif par:
                kk = eng.fresh('k', IntS)
                eng.assume(z3.And(kk >= 0, kk < n - 1) if fwd else z3.And(kk >= 1, kk < n))
                cube = tup(lambda j: pc(kk, j))
            s0 = lexit(li) if fwd else lentr(li)
            out = eng.call(tr['next_func' if fwd else 'prev_func'], [cube, mkl(li)])

            def want(i):
                dl = tup(lambda j: nxd(s0, i, j))
                nl = nxl(s0, i) if fwd else linv(nxl(s0, i))
                c = True if not par else parent_ok(simp(kk + 1) if fwd else simp(kk - 1), [a + b for a, b in zip(cube, dl)], nl)
                return c, dl, nl
            listing('steps forwards' if fwd else 'steps backwards', out, want, [(z3.IntVal(i),) for i in range(fin)] if fin else (lambda i: ranges((i, nxn(s0)))), 'i')
        # first and last cubes
        for first in (True, False):
            if par:
                kk = z3.IntVal(0) if first else (z3.IntVal(n - 1) if fin else n - 1)
                s0 = lentr(pl(kk)) if first else lexit(pl(kk))

                def want(i):
                    nl = glf(s0, i) if first else linv(glf(s0, i))
                    return parent_ok(kk, tup(lambda j: pc(kk, j)), nl), tup(lambda j: pc(kk, j)), nl
                listing('starts' if first else 'ends', tr['start' if first else 'finish'], want, [(z3.IntVal(i),) for i in range(fin)] if fin else (lambda i: ranges((i, gln(s0)))), 'i')
            else:
                s0 = lentr(gl0) if first else lexit(gl0)

                def want(a, i):
                    part = sbdiv_s(s0, a)
                    nl = glf(part, i) if first else linv(glf(part, i))
                    return True, tup(lambda j: sbdiv_c(s0, a, j)), nl
                listing('starts' if first else 'ends', tr['start' if first else 'finish'], want,
                        [(z3.IntVal(a), z3.IntVal(i)) for a in range(fin) for i in range(fin)] if fin else (lambda a, i: And(ranges((a, sbdiv_n(s0)), (i, gln(sbdiv_s(s0, a)))))), 'ai')
        return True
    std = P['std']
    if std:
        kw['std'] = True
    if std and not fin:
        key = eng.fresh('class_key', PA)
        exists_below = eng.fresh_fun('class_met', IntS, BoolS)
        kq = z3.Int('k!e')
        eng.assume(z3.Not(exists_below(0)))
        eng.assume(z3.ForAll([kq], z3.Implies(kq >= 0, exists_below(kq + 1) == z3.Or(exists_below(kq), stdp(pth(kq)) == key)), patterns=[exists_below(kq + 1)]))

        def spec(e, s, env, it, carried):
            if not isinstance(it, Seq) or not it.n.eq(npaths):
                return None
            sets = [v for v in env.vars.values() if isinstance(v, LSet) and not v.puts]
            ee = env
            while ee.out is None:
                ee = ee.parent
            out = ee.out
            if len(sets) != 1:
                return None
            seen = sets[0]

            class LL(inv.Loop):
                objs = [seen, out]

                def havoc(self, k):
                    Y = e.fresh('yielded', IntS)
                    inS = e.fresh_fun('seen', PA, BoolS)
                    seen.puts, seen.base = [], (lambda v: inS(v.term))
                    out.content = Bag([Event((), True, Base(Y))])

                def inv(self, k):
                    y = z3.IntVal(0)
                    for ev in (out.content.events if isinstance(out.content, Bag) else [Event((), True, v) for v in out.content]):
                        if isinstance(ev.value, Base):
                            y = y + ev.value.N
                        else:
                            if ev.binders:
                                raise Unsupported('unexpected enumeration')
                            y = y + z3.If(zval(And(ev.cond, stdp(ev.value.term) == key)), 1, 0)
                    m = exists_below(zval(k))
                    return [('seen classes', zval(e.contains(seen, mkpath(key))) == m), ('one path per class met', y == z3.If(m, 1, 0))]
            return LL()
        eng.loop_hints = {'inv': inv.make(spec)}
    eng.cover('inputs')
    out = eng.call(eng.getattr(self_, 'generate_paths_generic'), [], kw)
    if 'checked' not in tree:
        raise Unsupported('no search')
    if std and fin:
        ys = [(c, v.term) for bs, c, v in (eng.rename_event(ev) for ev in eng.bag_of(out).events)]
        for r in range(P.get('paths', fin)):
            x = pth(z3.IntVal(r))
            eng.prove('one path of every class that is found', z3.Sum([z3.If(zval(And(c, stdp(y) == stdp(x))), 1, 0) for c, y in ys]) == 1 if ys else False)
        return
    if std:
        o = out.coll if isinstance(out, GenIter) else out
        c = o.content if isinstance(o, LList) else o
        if not isinstance(c, Bag) or len(c.events) != 1 or not isinstance(c.events[0].value, Base):
            raise Unsupported('result')
        eng.prove('one path of every class that is found', c.events[0].value.N == z3.If(exists_below(npaths), 1, 0))
        return
    evs = [eng.rename_event(ev) for ev in eng.bag_of(out).events]
    if fin:
        got = sorted(str(v.term) for bs, c, v in evs)
        eng.prove('every found path once', And(got == sorted(str(pth(z3.IntVal(r))) for r in range(P.get('paths', fin))), *[c for bs, c, v in evs]))
        return
    w, tot = eng.fresh('w', IntS), z3.IntVal(0)
    eng.assume(ranges((w, npaths)))
    for bs, c, v in evs:
        if len(bs) != 1 or bs[0].sort() != IntS:
            raise Unsupported('unexpected enumeration')
        eng.prove('only found paths', Implies(c, And(v.term == pth(bs[0]), ranges((bs[0], npaths)))))
        tot = tot + z3.If(zval(eng.subst(zval(c), [(bs[0], w)])), 1, 0)
    eng.prove('every found path once', tot == 1)


PATTERNS = ['a', 'aa', 'ab', 'aab', 'aba', 'abc', 'aaa', 'abab', 'abba']
CONTRACTS = [Contract('combinations_product (%s)' % p, lambda eng, P, p=p: h_combprod(eng, dict(P, ids=p)), ['utils.combinations_product'], setup, [{'n': 1}, {'n': 2}]) for p in PATTERNS]
CONTRACTS += [Contract('get_paths_example (%d, %s)' % (k, how), lambda eng, P, k=k, how=how: h_example(eng, dict(P, k=k, how=how)), [GEN + '.get_paths_example', GEN + '._get_restrictions'], setup, [])
              for k, how in ((1, 'own'), (2, 'links'), (3, 'parents'), (2, 'own'))]
CONTRACTS += [Contract('generate_paths (%d, %s, std %s%s)' % (k, how, std, ', repeated' if same else ''), lambda eng, P, k=k, how=how, std=std, same=same: h_paths(eng, dict(P, k=k, how=how, std=std, same=same)),
                       [GEN + '.generate_paths', GEN + '._get_restrictions'], setup, [{'n': 1}, {'n': 2}])
              for k, how, std, same in ((1, 'own', None, 0), (1, 'parents', True, 0), (2, 'own', None, 0), (2, 'links', True, 1), (2, 'own', False, 1), (3, 'parents', None, 1), (3, 'links', True, 0))]
CONTRACTS += [Contract('generate_paths_generic (dim %d, %s%s)' % (d, 'parent' if par else 'global gates', ', standardised' if std else ''),
                       lambda eng, P, d=d, par=par, std=std: h_generic(eng, dict(P, dim=d, parent=par, std=std)), [GEN + '.generate_paths_generic'], setup, [{'fin': 1, 'paths': 3}] if std else [{'fin': 1}, {'fin': 2}])
              for d in (1, 2, 3) for par in (False, True) for std in ((False, True) if d == 2 else (False,))]
