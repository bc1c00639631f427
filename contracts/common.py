"""Shared contract vocabulary: arbitrary base maps, specs, points; miss-mode constructors."""
import z3
from pyvc.vals import *
from pyvc.engine import *
from pyvc.engine import zval, simp, And, Or, Not, Implies, ForAll, Exists, IntS, RealS, BoolS
from pyvc.run import Contract



def cls_of(eng, qual):
    m, c = qual.split('.')
    return eng.module_global(eng.prog.modules[m], c)


def miss_mode(qual):
    """Contract of a hash-consing constructor: the object its body builds when nothing is cached.
    (That a cached object is indistinguishable is a separate obligation, see C01.)"""
    def con(eng, args, kwargs):
        cls = cls_of(eng, qual)
        key = lambda k: (k[0], k[1]) == (cls.module.name, cls.name)
        saved = {k: v for k, v in eng.class_state.items() if key(k)}
        for k in saved:
            del eng.class_state[k]
        pri, eff, jr = eng.priors, list(eng.effects), eng.journal
        eng.priors = []
        was = qual in eng.inline_only
        eng.inline_only.add(qual)
        eng.journal = None
        try:
            return eng.instantiate(cls, args, kwargs)
        finally:
            if not was:
                eng.inline_only.discard(qual)
            for k in [k for k in eng.class_state if key(k)]:
                del eng.class_state[k]
            eng.class_state.update(saved)
            eng.priors, eng.effects, eng.journal = pri, eff, jr
    return con


def sym_dim(eng, P, name='d', lo=1):
    if P.get('dim') is not None:
        return P['dim']
    d = eng.fresh(name, IntS)
    eng.assume(d >= lo)
    return d


def perm_coords(eng, name, d):
    """Arbitrary signed permutation as a coords tuple, with ghost inverse."""
    if isinstance(d, int):
        ks = [eng.fresh('%s_k%d' % (name, i), IntS) for i in range(d)]
        bs = [eng.fresh('%s_b%d' % (name, i), BoolS) for i in range(d)]
        for k in ks:
            eng.assume(z3.And(k >= 0, k < d))
        if d > 1:
            eng.assume(z3.Distinct(*ks))
        return tuple(zip(ks, bs)), None
    K = eng.fresh_fun(name + '_k', IntS, IntS)
    B = eng.fresh_fun(name + '_b', IntS, BoolS)
    KI = eng.fresh_fun(name + '_ki', IntS, IntS)
    i = z3.Int('i!ax')
    eng.assume(ForAll([i], Implies(z3.And(i >= 0, i < d), z3.And(K(i) >= 0, K(i) < d, KI(K(i)) == i)), patterns=[K(i)]))
    eng.assume(ForAll([i], Implies(z3.And(i >= 0, i < d), z3.And(KI(i) >= 0, KI(i) < d, K(KI(i)) == i)), patterns=[KI(i)]))
    return Seq(d, lambda i: (K(i), B(i))), KI


BM = 'base_maps.BaseMap'
SPEC = 'base_maps.Spec'


def sym_bm(eng, name, d, time_rev=None):
    coords, ki = perm_coords(eng, name, d)
    tr = eng.fresh(name + '_tr', BoolS) if time_rev is None else time_rev
    o = eng.call(cls_of(eng, BM), [coords, tr])
    o.ghost['ki'] = ki
    o.ghost['sym'] = True
    return o


def sym_seq(eng, name, n, sort=RealS):
    if isinstance(n, int):
        return tuple(eng.fresh('%s%d' % (name, i), sort) for i in range(n))
    f = eng.fresh_fun(name, IntS, sort)
    return Seq(n, lambda i: f(i))


def item(eng, seq, i):
    s = eng.plain_seq(seq)
    if isinstance(s, tuple):
        return eng.tuple_get(s, i)
    return s.get(i)


def pair(eng, seq, i):
    """(ok, k, b): element i of a coords sequence; ok: it is a pair"""
    v = item(eng, seq, i)
    ok = True
    if isinstance(v, Opt):
        ok, v = Not(v.isnone), v.val
    if not isinstance(v, tuple) or len(v) != 2:
        raise Unsupported('coords are not pairs')
    return ok, v[0], v[1]


MARK = z3.Function('mention', IntS, BoolS)


def mention(t, goal):
    """goal, with t offered to the solver as an instantiation term (MARK is otherwise unconstrained)"""
    return Implies(MARK(t), goal)


def for_index(eng, d, fn):
    """for all 0 <= i < d: fn(i)   (fn must not fork)"""
    if isinstance(d, int):
        return And([fn(i) for i in range(d)])
    i = eng.index_var('ix')
    eng.binders.append(i)
    try:
        b = fn(i)
    finally:
        eng.binders.pop()
    return ForAll([i], Implies(z3.And(i >= 0, i < d), b))


def valid_coords(eng, coords, d):
    """range and injectivity (a finite injection of a set into itself is a permutation)"""
    def one(i):
        ok, k, b = pair(eng, coords, i)
        return And(ok, k >= 0, k < d)
    rng = for_index(eng, d, one)
    i, j = eng.index_var('vi'), eng.index_var('vj')
    if isinstance(d, int):
        inj = And([Not(eng.eq(pair(eng, coords, a)[1], pair(eng, coords, b)[1])) for a in range(d) for b in range(a)])
    else:
        inj = ForAll([i, j], Implies(z3.And(i >= 0, i < d, j >= 0, j < d, pair(eng, coords, i)[1] == pair(eng, coords, j)[1]), i == j))
    return And(eng.eq(eng.length(coords), d), rng, inj)


def bm_equal(eng, bm, d, coord, tr):
    """bm is the map with coords i -> coord(i) and time reversal tr"""
    cs = eng.getattr(bm, 'coords')

    def one(i):
        ok, k, b = pair(eng, cs, i)
        k2, b2 = coord(i)
        return And(ok, eng.eq(k, k2), eng.eq(b, b2))
    return And(eng.eq(eng.length(cs), d), eng.eq(eng.getattr(bm, 'dim'), d), for_index(eng, d, one), eng.eq(eng.getattr(bm, 'time_rev'), tr))


def mul_coord(eng, a, b):
    ca, cb = eng.getattr(a, 'coords'), eng.getattr(b, 'coords')

    def coord(i):
        _, p, b1 = pair(eng, ca, i)
        _, k, b2 = pair(eng, cb, p)
        return (k, z3.Xor(zval(b1), zval(b2)))
    return coord
