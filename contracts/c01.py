"""C01: base maps form a group acting on points, times, cubes and cube numbers."""
from contracts.common import *

Q = 'base_maps.BaseMap.'
FIN = [{'dim': 1}, {'dim': 2}, {'dim': 3}]


def setup(eng):
    eng.contracts[BM] = miss_mode(BM)


def act(eng, bm, seq, flip):
    """documented action: y_j = flip(x_{k_j}) if b_j else x_{k_j}"""
    cs = eng.getattr(bm, 'coords')

    def at(i):
        k, b = item(eng, cs, i)
        x = item(eng, seq, k)
        return eng.ite(b, flip(x), x)
    return at


# ---- single actions ---------------------------------------------------------------------------
def h_new(eng, P):
    d = sym_dim(eng, P)
    coords, ki = perm_coords(eng, 'A', d)
    tr = eng.fresh('tr', BoolS)
    o = eng.call(cls_of(eng, BM), [coords, tr])
    eng.cover('constructor')
    eng.prove('BaseMap(coords, time_rev) has these coords, dim and time_rev', bm_equal(eng, o, d, lambda i: item(eng, coords, i), tr))


def h_new_history(eng, P):
    """An object returned from the cache equals the one that would be built."""
    d1, d2 = sym_dim(eng, P, 'd1'), sym_dim(eng, P, 'd2')
    c1, _ = perm_coords(eng, 'A', d1)
    c2, _ = perm_coords(eng, 'B', d2)
    t1, t2 = eng.fresh('t1', BoolS), eng.fresh('t2', BoolS)
    cls = cls_of(eng, BM)
    o1 = eng.instantiate(cls, [c1, t1], {})
    eff = list(eng.effects)
    eng.effects = []
    for k in list(eng.class_state):
        del eng.class_state[k]
    eng.priors = eff
    o2 = eng.instantiate(cls, [c2, t2], {})
    eng.prove('after any earlier construction BaseMap(coords, time_rev) has these coords and time_rev',
              bm_equal(eng, o2, d2, lambda i: item(eng, c2, i), t2))


def action(name, call, spec, doc):
    def h(eng, P):
        d = sym_dim(eng, P)
        a = sym_bm(eng, 'A', d)
        eng.cover('inputs')
        x, res = call(eng, a, d)
        at = spec(eng, a, x)
        eng.prove(doc, And(eng.eq(eng.length(res), d), for_index(eng, d, lambda i: eng.eq(item(eng, res, i), at(i)))))
    return Contract(name, h, [Q + name], setup, FIN)


def c_apply_x(eng, a, d):
    x, mx = sym_seq(eng, 'x', d), eng.fresh('mx', RealS)
    return (x, mx), eng.call(eng.getattr(a, 'apply_x'), [x, mx])


def c_apply_x_default(eng, a, d):
    x = sym_seq(eng, 'x', d)
    return (x, 1), eng.call(eng.getattr(a, 'apply_x'), [x])


def c_apply_vec(eng, a, d):
    x = sym_seq(eng, 'x', d)
    return x, eng.call(eng.getattr(a, 'apply_vec'), [x])


def c_apply_cube(eng, a, d):
    div = eng.fresh('div', IntS)
    eng.assume(div >= 1)
    x = sym_seq(eng, 'cube', d, IntS)
    return (x, div), eng.call(eng.getattr(a, 'apply_cube'), [div, x])


def c_apply_cube_start(eng, a, d):
    x, l = sym_seq(eng, 'cs', d), eng.fresh('len', RealS)
    return (x, l), eng.call(eng.getattr(a, 'apply_cube_start'), [x, l])


def one_scalar(name, mk, spec, doc):
    def h(eng, P):
        d = sym_dim(eng, P)
        a = sym_bm(eng, 'A', d)
        args = mk(eng)
        r = eng.call(eng.getattr(a, name), args)
        eng.prove(doc, eng.eq(r, spec(eng, eng.getattr(a, 'time_rev'), *args)))
    return Contract(name, h, [Q + name], setup, FIN)


def mk_t(eng):
    return [eng.fresh('t', RealS), eng.fresh('mt', RealS)]


def mk_t1(eng):
    return [eng.fresh('t', RealS)]


def mk_cnum(eng):
    g, c = eng.fresh('genus', IntS), eng.fresh('cnum', IntS)
    eng.assume(z3.And(g >= 1, c >= 0, c < g))
    return [g, c]


# ---- products ---------------------------------------------------------------------------------
def h_mul(eng, P):
    d = sym_dim(eng, P)
    a, b = sym_bm(eng, 'A', d), sym_bm(eng, 'B', d)
    eng.cover('inputs')
    r = eng.call(eng.getattr(a, '__mul__'), [b])
    eng.prove('coords and time direction of A*B are those of the composition', bm_equal(eng, r, d, mul_coord(eng, a, b), z3.Xor(zval(eng.getattr(a, 'time_rev')), zval(eng.getattr(b, 'time_rev')))))
    eng.prove('A*B is a signed permutation', valid_coords(eng, eng.getattr(r, 'coords'), d))


def mark(o, *fields):
    """memo state of an input object comes from earlier calls"""
    for n, v in o.f.items():
        if isinstance(v, LDict):
            v.memo = ('obj', o, n)
    o.ghost['memo'] = {n: 'field' for n, v in o.f.items() if v is None}
    o.ghost['sym'] = True


def run_writer(eng, which, P):
    """One earlier call of a method that may leave state behind, on arbitrary arguments."""
    d0 = sym_dim(eng, P, 'd0')
    if which == 'id_map':
        eng.call(eng.getattr(cls_of(eng, BM), 'id_map'), [d0])
    else:
        w = sym_bm(eng, 'W', d0)
        mark(w)
        args = []
        if which in ('__mul__', 'conjugate_by'):
            v = sym_bm(eng, 'V', d0)
            mark(v)
            args = [v]
        eng.call(eng.getattr(w, which), args)
    eff = list(eng.effects)
    bad = [e for e in eff if e[0] == 'mutate']
    if bad:
        raise Unsupported('%s changes %s' % (which, bad[0][2]))
    eng.effects = []
    for k in list(eng.class_state):
        del eng.class_state[k]
    eng.priors = eff


def h_mul_history(which):
    def h(eng, P):
        run_writer(eng, which, P)
        d = sym_dim(eng, P)
        a, b = sym_bm(eng, 'A', d), sym_bm(eng, 'B', d)
        mark(a)
        mark(b)
        r = eng.call(eng.getattr(a, '__mul__'), [b])
        eng.prove('A*B after any earlier %s is the composition' % which, bm_equal(eng, r, d, mul_coord(eng, a, b), z3.Xor(zval(eng.getattr(a, 'time_rev')), zval(eng.getattr(b, 'time_rev')))))
    return h


def inverse_ok(eng, a, r, d, hint=True):
    ca, cr = eng.getattr(a, 'coords'), eng.getattr(r, 'coords')

    def one(i):
        _, k, b = pair(eng, ca, i)
        ok1, k2, b2 = pair(eng, cr, k)
        ok2, p, c = pair(eng, cr, i)
        _, p2, c2 = pair(eng, ca, p)
        g = And(ok1, ok2, eng.eq(k2, i), eng.eq(b2, b), eng.eq(p2, i), eng.eq(c, c2), p >= 0, p < d)
        ki = a.ghost.get('ki')
        return mention(ki(i), g) if hint and ki is not None and not isinstance(d, int) else g
    return And(eng.eq(eng.length(cr), d), eng.eq(eng.getattr(r, 'dim'), d), for_index(eng, d, one), eng.eq(eng.getattr(r, 'time_rev'), eng.getattr(a, 'time_rev')))


def h_inv(eng, P):
    d = sym_dim(eng, P)
    a = sym_bm(eng, 'A', d)
    r = eng.call(eng.getattr(a, 'get_inverse'), [])
    eng.prove('the inverse undoes the map on both sides', inverse_ok(eng, a, r, d))


def h_inv_history(which):
    def h(eng, P):
        run_writer(eng, which, P)
        d = sym_dim(eng, P)
        a = sym_bm(eng, 'A', d)
        mark(a)
        r = eng.call(eng.getattr(a, 'get_inverse'), [])
        eng.prove('the inverse after any earlier %s is the inverse' % which, inverse_ok(eng, a, r, d))
    return h


def h_id(eng, P):
    d = sym_dim(eng, P)
    r = eng.call(eng.getattr(cls_of(eng, BM), 'id_map'), [d])
    eng.prove('id_map is the identity', bm_equal(eng, r, d, lambda i: (i, False), False))


def h_id_history(eng, P):
    run_writer(eng, 'id_map', P)
    d = sym_dim(eng, P)
    r = eng.call(eng.getattr(cls_of(eng, BM), 'id_map'), [d])
    eng.prove('id_map after any earlier id_map is the identity', bm_equal(eng, r, d, lambda i: (i, False), False))


def h_invert(eng, P):
    d = sym_dim(eng, P)
    a = sym_bm(eng, 'A', d)
    r = eng.call(eng.getattr(a, '__invert__'), [])
    cs = eng.getattr(a, 'coords')
    eng.prove('~A reverses time and keeps the isometry', bm_equal(eng, r, d, lambda i: item(eng, cs, i), Not(eng.getattr(a, 'time_rev'))))


def h_cube_map(eng, P):
    d = sym_dim(eng, P)
    a = sym_bm(eng, 'A', d)
    r = eng.call(eng.getattr(a, 'cube_map'), [])
    cs = eng.getattr(a, 'coords')
    eng.prove('cube_map keeps the isometry and drops time reversal', bm_equal(eng, r, d, lambda i: item(eng, cs, i), False))


def h_eq(eng, P):
    d1, d2 = sym_dim(eng, P, 'd1'), sym_dim(eng, P, 'd2')
    a, b = sym_bm(eng, 'A', d1), sym_bm(eng, 'B', d2)
    e = eng.truth(eng.call(eng.getattr(a, '__eq__'), [b]))
    ca = eng.getattr(a, 'coords')
    same = bm_equal(eng, b, d1, lambda i: item(eng, ca, i), eng.getattr(a, 'time_rev'))
    eng.prove('maps are equal exactly when coords and time direction agree (only if)', Implies(e, same))
    eng.prove('maps are equal exactly when coords and time direction agree (if)', Implies(same, e))
    ha, hb = eng.call(eng.getattr(a, '__hash__'), []), eng.call(eng.getattr(b, '__hash__'), [])
    eng.prove('equal maps have equal hashes', Implies(same, eng.eq(ha, hb)))


# contracts of the proven operations, for their callers
def use_mul(eng, A):
    a, b = A['self'], A['other']
    if not (isinstance(b, Obj) and b.cls is cls_of(eng, BM)):
        return eng.run_body(eng.prog.find(Q + '__mul__'), [a, b], {})
    d = eng.getattr(a, 'dim')
    eng.prove('A*B is called on maps of one dimension', eng.eq(d, eng.getattr(b, 'dim')), kind='pre')
    coord = mul_coord(eng, a, b)
    cs = tuple(coord(i) for i in range(d)) if isinstance(d, int) else Seq(d, coord)
    return eng.call(cls_of(eng, BM), [cs, z3.Xor(zval(eng.getattr(a, 'time_rev')), zval(eng.getattr(b, 'time_rev')))])


def use_inv(eng, A):
    a = A['self']
    d = eng.getattr(a, 'dim')
    ca = eng.getattr(a, 'coords')
    coords, ki = perm_coords(eng, 'inv', d)
    r = eng.call(cls_of(eng, BM), [coords, eng.getattr(a, 'time_rev')])
    eng.assume(inverse_ok(eng, a, r, d, False))
    return r


def use_id(eng, A):
    d = A['dim']
    cs = tuple((i, False) for i in range(d)) if isinstance(d, int) else Seq(d, lambda i: (i, False))
    return eng.call(cls_of(eng, BM), [cs])


def use_all(eng):
    setup(eng)
    eng.contracts[Q + '__mul__'] = use_mul
    eng.contracts[Q + 'get_inverse'] = use_inv
    eng.contracts[Q + 'id_map'] = use_id


def h_conj(eng, P):
    d = sym_dim(eng, P)
    a, g = sym_bm(eng, 'A', d), sym_bm(eng, 'G', d)
    r = eng.call(eng.getattr(a, 'conjugate_by'), [g])
    # r * g == g * a
    left, right = mul_coord(eng, r, g), mul_coord(eng, g, a)
    cr = eng.getattr(r, 'coords')
    rng = for_index(eng, d, lambda i: And(item(eng, cr, i)[0] >= 0, item(eng, cr, i)[0] < d))
    eng.prove('dimension of the conjugate', And(eng.eq(eng.length(cr), d), rng))
    eng.prove('(g A g^-1) g = g A', for_index(eng, d, lambda i: And(eng.eq(left(i)[0], right(i)[0]), eng.eq(left(i)[1], right(i)[1]))))
    eng.prove('conjugation keeps the time direction', eng.eq(eng.getattr(r, 'time_rev'), eng.getattr(a, 'time_rev')))


# ---- composition of actions, associativity (lemmas over the contracts) -------------------------
def h_compose(eng, P):
    d = sym_dim(eng, P)
    a, b = sym_bm(eng, 'A', d), sym_bm(eng, 'B', d)
    ab = eng.binop(__import__('ast').Mult(), a, b)
    x, mx = sym_seq(eng, 'x', d), eng.fresh('mx', RealS)
    one = lambda m, xs: eng.call(eng.getattr(m, 'apply_x'), [xs, mx])
    eng.prove('(A*B) x = A (B x)', eng.eq(one(ab, x), one(a, one(b, x))))
    vec = lambda m, xs: eng.call(eng.getattr(m, 'apply_vec'), [xs])
    eng.prove('(A*B) v = A (B v) for vectors', eng.eq(vec(ab, x), vec(a, vec(b, x))))
    div = eng.fresh('div', IntS)
    cu = sym_seq(eng, 'cube', d, IntS)
    cube = lambda m, xs: eng.call(eng.getattr(m, 'apply_cube'), [div, xs])
    eng.prove('(A*B) cube = A (B cube)', eng.eq(cube(ab, cu), cube(a, cube(b, cu))))
    ln = eng.fresh('len', RealS)
    cst = lambda m, xs: eng.call(eng.getattr(m, 'apply_cube_start'), [xs, ln])
    eng.prove('(A*B) cube start = A (B cube start)', eng.eq(cst(ab, x), cst(a, cst(b, x))))
    t, mt = eng.fresh('t', RealS), eng.fresh('mt', RealS)
    tt = lambda m, v: eng.call(eng.getattr(m, 'apply_t'), [v, mt])
    eng.prove('(A*B) t = A (B t)', eng.eq(tt(ab, t), tt(a, tt(b, t))))
    g, c = eng.fresh('genus', IntS), eng.fresh('cnum', IntS)
    cn = lambda m, v: eng.call(eng.getattr(m, 'apply_cnum'), [g, v])
    eng.prove('(A*B) cnum = A (B cnum)', eng.eq(cn(ab, c), cn(a, cn(b, c))))


def h_assoc(eng, P):
    import ast
    d = sym_dim(eng, P)
    a, b, c = sym_bm(eng, 'A', d), sym_bm(eng, 'B', d), sym_bm(eng, 'C', d)
    M = lambda x, y: eng.binop(ast.Mult(), x, y)
    l, r = M(M(a, b), c), M(a, M(b, c))
    cr = eng.getattr(r, 'coords')
    eng.prove('(A*B)*C = A*(B*C)', bm_equal(eng, l, d, lambda i: item(eng, cr, i), eng.getattr(r, 'time_rev')))
    i = eng.call(eng.getattr(cls_of(eng, BM), 'id_map'), [d])
    ca = eng.getattr(a, 'coords')
    eng.prove('A*id = A', bm_equal(eng, M(a, i), d, lambda j: item(eng, ca, j), eng.getattr(a, 'time_rev')))
    eng.prove('id*A = A', bm_equal(eng, M(i, a), d, lambda j: item(eng, ca, j), eng.getattr(a, 'time_rev')))
    v = eng.call(eng.getattr(a, 'get_inverse'), [])
    eng.prove('A*inv(A) = id', bm_equal(eng, M(a, v), d, lambda j: (j, False), False))
    eng.prove('inv(A)*A = id', bm_equal(eng, M(v, a), d, lambda j: (j, False), False))


def h_reversal(eng, P):
    """time reversal is central: the laws that callers use (contracts/abstract.py)"""
    import ast
    d = sym_dim(eng, P)
    a, b = sym_bm(eng, 'A', d), sym_bm(eng, 'B', d)
    M = lambda x, y: eng.binop(ast.Mult(), x, y)
    inv = lambda x: eng.call(eng.getattr(x, '__invert__'), [])

    def same(x, y):
        cy = eng.getattr(y, 'coords')
        return bm_equal(eng, x, d, lambda i: item(eng, cy, i), eng.getattr(y, 'time_rev'))
    ab = M(a, b)
    eng.prove('(~A)*B = ~(A*B)', same(M(inv(a), b), inv(ab)))
    eng.prove('A*(~B) = ~(A*B)', same(M(a, inv(b)), inv(ab)))
    eng.prove('~~A = A', same(inv(inv(a)), a))
    r = inv(eng.call(eng.getattr(a, 'get_inverse'), []))
    eng.prove('the inverse of ~A is ~ of the inverse', inverse_ok(eng, inv(a), r, d, False))
    c = eng.call(eng.getattr(a, 'cube_map'), [])
    t = eng.getattr(a, 'time_rev')
    eng.prove('cube_map is A or ~A', And(Implies(t, same(c, inv(a))), Implies(Not(t), same(c, a))))


# ---- powers over the proven group laws ----------------------------------------------------------
GS = z3.DeclareSort('Group')
gmul = z3.Function('gmul', GS, GS, GS)
ginv = z3.Function('ginv', GS, GS)
gone = z3.Const('gone', GS)
gpow = z3.Function('gpow', GS, IntS, GS)


def group_axioms(eng):
    x, y, w = z3.Consts('gx gy gw', GS)
    eng.assume(z3.ForAll([x, y, w], gmul(gmul(x, y), w) == gmul(x, gmul(y, w))))
    eng.assume(z3.ForAll([x], z3.And(gmul(x, gone) == x, gmul(gone, x) == x)))


def pow_axioms(eng):
    x = z3.Const('gx', GS)
    n = z3.Int('gn')
    eng.assume(z3.ForAll([x], gpow(x, 0) == gone))
    eng.assume(z3.ForAll([x, n], z3.Implies(n >= 0, gpow(x, n + 1) == gmul(gpow(x, n), x)), patterns=[gmul(gpow(x, n), x)]))


def g_attrs(eng):
    A = {}
    mk = lambda t: UObj(t, 'BaseMap', A)
    A['__mul__'] = lambda s, o: mk(gmul(s.term, o.term)) if isinstance(o, UObj) else NOTIMPL
    A['get_inverse'] = lambda s: Builtin('get_inverse', lambda: mk(ginv(s.term)))
    A['dim'] = lambda s: z3.Int('gdim')
    A['__pow__'] = lambda s, n: eng.call_function(eng.prog.find(Q + '__pow__'), [s, n], {})
    return A, mk


def pow_lemma(eng, P):
    """gpow(x, m+n) = gpow(x,m) gpow(x,n) by induction on n"""
    group_axioms(eng)
    pow_axioms(eng)
    x = eng.fresh('x', GS)
    m, n = eng.fresh('m', IntS), eng.fresh('n', IntS)
    eng.assume(z3.And(m >= 0, n >= 0))
    eng.prove('power law, base', gpow(x, m) == gmul(gpow(x, m), gpow(x, 0)), kind='lemma')
    eng.assume(z3.And(gpow(x, m + n + 1) == gmul(gpow(x, m + n), x), gpow(x, n + 1) == gmul(gpow(x, n), x)))   # instances of the definition
    eng.assume(gpow(x, m + n) == gmul(gpow(x, m), gpow(x, n)))
    eng.prove('power law, step', gpow(x, m + n + 1) == gmul(gpow(x, m), gpow(x, n + 1)), kind='lemma')
    eng.cover('power law')


def h_pow_concrete(eng, P):
    """finite instance: given maps, powers -13..13"""
    setup(eng)
    mul = lambda A, B: (tuple((B[0][k][0], b ^ B[0][k][1]) for k, b in A[0]), A[1] ^ B[1])
    for coords, tr in P['maps']:
        d = len(coords)
        one = (tuple((k, False) for k in range(d)), False)
        A = (coords, tr)
        inv_ = next(X for X in [(tuple(sorted_inv(coords)), tr)])
        for n in range(-13, 14):
            W = one
            for _ in range(abs(n)):
                W = mul(W, A if n > 0 else inv_)
            r = eng.binop(ast.Pow(), eng.call(cls_of(eng, BM), [coords, tr]), n)
            eng.prove('A**n is the n-fold product (A**-n of the inverse)', bm_equal(eng, r, d, lambda i: W[0][i], W[1]))


def sorted_inv(coords):
    out = [None] * len(coords)
    for i, (k, b) in enumerate(coords):
        out[k] = (i, b)
    return out


def h_pow(eng, P):
    if 'maps' in P:
        return h_pow_concrete(eng, P)
    group_axioms(eng)
    pow_axioms(eng)
    A, mk = g_attrs(eng)
    x = z3.Const('gx', GS)
    m, n = z3.Ints('gm gn')
    eng.assume(z3.ForAll([x, m, n], z3.Implies(z3.And(m >= 0, n >= 0), gpow(x, m + n) == gmul(gpow(x, m), gpow(x, n))), patterns=[gmul(gpow(x, m), gpow(x, n))]))
    a = eng.fresh('a', GS)
    p = eng.fresh('power', IntS)
    spec = lambda t, k: z3.If(k >= 0, gpow(t, k), gpow(ginv(t), -k))
    size = lambda k: z3.If(k >= 0, 2 * k, -2 * k + 1)

    def rec(e, Ar):
        k = zval(Ar['power'])
        e.prove('recursive call of __pow__ is on a smaller power', size(k) < size(p), kind='termination')
        return mk(spec(Ar['self'].term, k))
    eng.contracts[Q + '__pow__'] = rec
    eng.contracts[Q + 'id_map'] = lambda e, Ar: mk(gone)
    eng.loop_hints = {'for': [lambda e, nm, init, it: (lambda i: mk(gpow(a, zval(i)))) if isinstance(init, UObj) and init.term.eq(gone) else None]}
    eng.cover('inputs')
    r = eng.run_body(eng.prog.find(Q + '__pow__'), [mk(a), p], {})
    if not isinstance(r, UObj):
        raise Unsupported('power is not a base map')
    eng.prove('A**n is the n-fold product (A**-n of the inverse)', r.term == spec(a, p))


WRITERS = ['__mul__', 'get_inverse']

CONTRACTS = [
    Contract('BaseMap.__new__', h_new, [Q + '__new__'], setup, FIN),
    Contract('BaseMap.__new__ with any construction history', h_new_history, [Q + '__new__'], None, FIN),
    action('apply_x', c_apply_x, lambda e, a, x: act(e, a, x[0], lambda v: x[1] - v), 'apply_x is the documented signed permutation of [0,mx]^d'),
    action('apply_vec', c_apply_vec, lambda e, a, x: act(e, a, x, lambda v: -v), 'apply_vec is the linear part'),
    action('apply_cube', c_apply_cube, lambda e, a, x: act(e, a, x[0], lambda v: x[1] - 1 - v), 'apply_cube is the image sub-cube'),
    action('apply_cube_start', c_apply_cube_start, lambda e, a, x: act(e, a, x[0], lambda v: 1 - v - x[1]), 'apply_cube_start is the start of the image cube'),
    one_scalar('apply_t', mk_t, lambda e, tr, t, mt: e.ite(tr, mt - t, t), 'apply_t reverses [0,mt] exactly when time_rev'),
    one_scalar('apply_cnum', mk_cnum, lambda e, tr, g, c: e.ite(tr, g - 1 - c, c), 'apply_cnum reverses the cube order exactly when time_rev'),
    Contract('__mul__', h_mul, [Q + '__mul__'], setup, FIN),
    Contract('get_inverse', h_inv, [Q + 'get_inverse'], setup, FIN),
    Contract('id_map', h_id, [Q + 'id_map'], setup, FIN),
    Contract('id_map history', h_id_history, [Q + 'id_map'], setup, FIN),
    Contract('__invert__', h_invert, [Q + '__invert__'], setup, FIN),
    Contract('cube_map', h_cube_map, [Q + 'cube_map'], setup, FIN),
    Contract('__eq__/__hash__', h_eq, [Q + '__eq__', Q + '__hash__'], setup, FIN),
    Contract('conjugate_by', h_conj, [Q + 'conjugate_by'], use_all, FIN),
    Contract('composition of actions', h_compose, [Q + '__mul__'], use_all, FIN),
    Contract('group laws', h_assoc, [Q + '__mul__', Q + 'get_inverse', Q + 'id_map'], use_all, FIN),
    Contract('time reversal is central', h_reversal, [Q + '__invert__', Q + 'cube_map', Q + '__mul__'], use_all, FIN),
    Contract('power law', pow_lemma, []),
    Contract('__pow__', h_pow, [Q + '__pow__'], None, [{'maps': [(((1, False), (2, False), (0, False)), False), (((1, True), (2, False), (0, False)), True)]},
                                                       {'maps': [(((1, True), (0, False)), False), (((1, False), (2, False), (3, False), (4, False), (0, False)), True)]}]),
] + [Contract('__mul__ after %s' % w, h_mul_history(w), [Q + '__mul__'], setup, FIN) for w in WRITERS] \
  + [Contract('get_inverse after %s' % w, h_inv_history(w), [Q + 'get_inverse'], setup, FIN) for w in WRITERS]
