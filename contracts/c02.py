"""C02: enumerations of base maps are complete and free of repetitions.

itertools is used by contract: permutations(p) lists each rearrangement of p once, product(pool, repeat=n) each
selection of n members of the pool once (in an order that is left open).
"""
from contracts.common import *
from pyvc.builtins_ import GenIter

Q = 'base_maps.BaseMap.'


def setup(eng):
    eng.contracts[BM] = miss_mode(BM)


class Perms:
    """rearrangements of 0..n-1, as elements u with at(u, i); every rearrangement is one of them, exactly once"""
    def __init__(self, eng, n):
        self.eng, self.n = eng, n
        tag = eng.fresh('tag', IntS).decl().name()
        self.S = z3.DeclareSort('Perm_' + tag)
        self.at = z3.Function('at_' + tag, self.S, IntS, IntS)
        self.inv = z3.Function('inv_' + tag, self.S, IntS, IntS)
        self.wit = z3.Function('diff_' + tag, self.S, self.S, IntS)
        u, v, i = z3.Const('u!p', self.S), z3.Const('v!p', self.S), z3.Int('i!p')
        r = lambda x: z3.And(x >= 0, x < n)
        eng.assume(z3.ForAll([u, i], z3.Implies(r(i), z3.And(r(self.at(u, i)), self.inv(u, self.at(u, i)) == i)), patterns=[self.at(u, i)]))
        eng.assume(z3.ForAll([u, i], z3.Implies(r(i), z3.And(r(self.inv(u, i)), self.at(u, self.inv(u, i)) == i)), patterns=[self.inv(u, i)]))

    def same(self, u, v):
        """no repetitions: two listed rearrangements that agree everywhere are the same entry"""
        w = self.wit(u, v)
        self.eng.assume(z3.Or(u == v, z3.And(w >= 0, w < self.n, self.at(u, w) != self.at(v, w))))
        return w

    def find(self, K):
        """completeness: the rearrangement i -> K(i) is listed"""
        u = z3.FreshConst(self.S, 'found')
        i = z3.Int('i!f')
        self.eng.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < self.n), self.at(u, i) == K(i)), patterns=[self.at(u, i)]))
        return u


class Choices:
    """selections of one of m entries at each of n places"""
    def __init__(self, eng, n, m):
        self.eng, self.n, self.m = eng, n, m
        tag = eng.fresh('tag', IntS).decl().name()
        self.S = z3.DeclareSort('Sel_' + tag)
        self.at = z3.Function('at_' + tag, self.S, IntS, IntS)
        self.wit = z3.Function('diff_' + tag, self.S, self.S, IntS)
        u, i = z3.Const('u!c', self.S), z3.Int('i!c')
        eng.assume(z3.ForAll([u, i], z3.And(self.at(u, i) >= 0, self.at(u, i) < m), patterns=[self.at(u, i)]))

    same = Perms.same
    find = Perms.find


def lib(eng):
    """contracts of itertools.permutations and itertools.product(.., repeat=n) for symbolic sizes"""
    made = {}

    def perms(e, p):
        if not isinstance(p, Seq):
            raise Unsupported('permutations')
        W = Perms(e, p.n)
        u = z3.FreshConst(W.S, 'perm')
        made[W.S] = W
        W.pool = p
        return GenIter(e.mklist(Bag([Event((u,), True, Seq(p.n, lambda i: p.get(W.at(u, zval(i)))))])))

    def prod(e, pool, n):
        if not isinstance(pool, tuple):
            raise Unsupported('product')
        W = Choices(e, n, len(pool))
        u = z3.FreshConst(W.S, 'sel')
        made[W.S] = W
        W.pool = pool

        def get(i):
            k = W.at(u, zval(i))
            r = pool[-1]
            for j in range(len(pool) - 2, -1, -1):
                r = e.ite(k == j, pool[j], r)
            return r
        return GenIter(e.mklist(Bag([Event((u,), True, Seq(n, get))])))
    eng.permutations_hook, eng.product_repeat_hook = perms, prod
    return made


def h_gen(eng, P, which=None):
    """which: None (argument omitted), or a requested direction"""
    d = sym_dim(eng, P)
    made = lib(eng)
    args = [d]
    if which == 'given':
        want = eng.fresh('time_rev', BoolS)
        args.append(want)
    eng.cover('inputs')
    out = eng.iter_of(eng.call(eng.getattr(cls_of(eng, BM), 'gen_base_maps'), args))
    bag = out if isinstance(out, Bag) else eng.bag_of(out)
    # an arbitrary signed permutation with a time direction
    coords, _ = perm_coords(eng, 'X', d)
    T = eng.fresh('T', BoolS)
    target = lambda i: item(eng, coords, i)
    asked = True if which is None else T == want
    if isinstance(d, int):
        hits = []
        for ev in bag.events:
            bs, c, v = eng.rename_event(ev)
            if bs:
                raise Unsupported('unexpected enumeration')
            hits.append(And(c, bm_equal(eng, v, d, target, T)))
            eng.prove('only signed permutations are listed', Implies(c, valid_coords(eng, eng.getattr(v, 'coords'), d)))
            eng.prove('only requested time directions are listed', Implies(And(c, eng.eq(eng.getattr(v, 'time_rev'), T)), asked))
        cnt = sum([z3.If(zval(h), z3.IntVal(1), z3.IntVal(0)) for h in hits], z3.IntVal(0))
        eng.prove('each signed permutation is listed once for each requested time direction', Implies(asked, cnt == 1))
        return
    hits, names = [], []
    for ev in bag.events:
        bs, c, v = eng.rename_event(ev)
        for b in bs:
            if b.sort() not in made:
                raise Unsupported('unexpected enumeration')
        # -- only
        eng.prove('only signed permutations are listed', Implies(c, valid_coords(eng, eng.getattr(v, 'coords'), d)))
        eng.prove('only requested time directions are listed', Implies(And(c, eng.eq(eng.getattr(v, 'time_rev'), T)), asked))
        # -- all: the selections that make up the target
        pairs = []
        for b in bs:
            W = made[b.sort()]
            if isinstance(W, Perms):
                pairs.append((b, W.find(lambda i: zval(target(i)[0]))))
            else:
                if len(W.pool) != 2 or not all(isinstance(x, bool) for x in W.pool):
                    raise Unsupported('unexpected enumeration')
                pairs.append((b, W.find(lambda i: z3.If(zval(target(i)[1]), z3.IntVal(W.pool.index(True) if True in W.pool else 0), z3.IntVal(W.pool.index(False) if False in W.pool else 0)))))
        hits.append(And(eng.subst(c, pairs), bm_equal(eng, eng.subst(v, pairs), d, target, T)))
    eng.prove('every signed permutation is listed for every requested time direction', Implies(asked, Or(*hits)))
    for i1, ev1 in enumerate(bag.events):
        for i2, ev2 in enumerate(bag.events):
            if i2 < i1:
                continue
            b1, c1, v1 = eng.rename_event(ev1)
            b2, c2, v2 = eng.rename_event(ev2)
            same = bm_equal(eng, v2, d, lambda i: item(eng, eng.getattr(v1, 'coords'), i), eng.getattr(v1, 'time_rev'))
            if i1 != i2:
                eng.prove('no base map is listed twice', Not(And(c1, c2, same)))
                continue
            cs1, cs2 = eng.getattr(v1, 'coords'), eng.getattr(v2, 'coords')
            for x, y in zip(b1, b2):
                w = made[x.sort()].same(x, y)
                at = Implies(z3.And(w >= 0, w < d), And(eng.eq(pair(eng, cs1, w)[1], pair(eng, cs2, w)[1]), eng.eq(pair(eng, cs1, w)[2], pair(eng, cs2, w)[2])))
                eng.prove('no base map is listed twice', Implies(And(c1, c2, at), x == y))


def gen_given(eng, P):
    h_gen(eng, P, 'given')


# ---- maps that carry one point to another ---------------------------------------------------------
def h_fast(eng, P, d=2, shape=None, first=None):
    """for arbitrary rational points of this dimension"""
    src, dst = sym_seq(eng, 'src', d), sym_seq(eng, 'dst', d)
    # which coordinates coincide (directly or after a flip) decides everything: go through the cases
    for j in range(d):
        for i in range(j):
            if shape is None:
                eng.branch(eng.eq(dst[i], dst[j]))
            else:
                eng.assume(dst[i] == dst[j] if shape[i] == shape[j] else dst[i] != dst[j])
    if first is not None:
        hits = Or(*[Or(src[0] == y, 1 - src[0] == y) for y in dst[1:]])
        here = Or(src[0] == dst[0], 1 - src[0] == dst[0])
        eng.assume([And(here, Not(hits)), And(here, hits), And(Not(here), hits), And(Not(here), Not(hits))][first])
    for x in src:
        for y in dst:
            eng.branch(eng.eq(x, y))
            eng.branch(eng.eq(1 - x, y))
    eng.cover('inputs')
    out = eng.iter_of(eng.call(eng.getattr(cls_of(eng, BM), 'gen_constraint_fast'), [src, dst]))
    bag = out if isinstance(out, Bag) else eng.bag_of(out)
    coords, _ = perm_coords(eng, 'X', d)
    T = eng.fresh('T', BoolS)
    maps = And(Not(T), *[eng.eq(eng.ite(coords[j][1], 1 - eng.tuple_get(src, coords[j][0]), eng.tuple_get(src, coords[j][0])), dst[j]) for j in range(d)])
    hits = []
    for ev in bag.events:
        bs, c, v = eng.rename_event(ev)
        if bs:
            raise Unsupported('unexpected enumeration')
        hits.append(And(c, bm_equal(eng, v, d, lambda i: item(eng, coords, i), T)))
        eng.prove('gen_constraint_fast: signed permutations only', Implies(c, valid_coords(eng, eng.getattr(v, 'coords'), d)))
    cnt = sum([z3.If(zval(h), z3.IntVal(1), z3.IntVal(0)) for h in hits], z3.IntVal(0))
    eng.prove('gen_constraint_fast: a map is listed once if it carries the point to the target without time reversal, and not otherwise',
              cnt == z3.If(maps, z3.IntVal(1), z3.IntVal(0)))


def fast(d, shape=None, first=None):
    return Contract('gen_constraint_fast, dimension %d%s' % (d, ' (targets of the form %s%s)' % (shape, '' if first is None else ', case %d' % first) if shape else ''), lambda eng, P: h_fast(eng, P, d, shape, first), [Q + 'gen_constraint_fast'], setup, [], max_paths=4000,
                    doc='all rational points of dimension %d' % d)


FIN = [{'dim': 1}, {'dim': 2}, {'dim': 3}]
CONTRACTS = [
    Contract('gen_base_maps', h_gen, [Q + 'gen_base_maps'], setup, FIN, doc='every signed permutation and both time directions, each once'),
    Contract('gen_base_maps with a time direction', gen_given, [Q + 'gen_base_maps'], setup, FIN, doc='every signed permutation with the requested time direction, each once'),
] + [fast(1), fast(2)] + [fast(3, f) for f in ('xxx', 'xxy', 'xyx', 'yxx')] + [fast(3, 'xyz', k) for k in range(4)]
