"""Base maps as elements of an abstract group, for the callers of the base map operations.

The axioms below are the statements proved for BaseMap in C01 (products, inverse, identity, powers, time reversal,
cube map, conjugation, actions, equality); a contract that uses this module is checked against those, not the bodies.
"""
from contracts.common import *
from contracts.common import NOTIMPL

CS = z3.DeclareSort('CubeMap')              # signed permutations: an abstract group
_D = z3.Datatype('BMap')                    # a base map is a signed permutation and a time direction
_D.declare('bm', ('cube', CS), ('rev', z3.BoolSort()))
GS = _D.create()
BV = z3.BitVecSort(4)      # concrete groups of dimension 1 and 2: bits (swap, flip1, flip0, time_rev)
cmul_ = _cmul = z3.Function('cm_mul', CS, CS, CS)
cinv_ = _cinv = z3.Function('cm_inv', CS, CS)
cone = z3.Const('cm_id', CS)
_K = z3.Function('cm_k', CS, IntS, IntS)
_B = z3.Function('cm_b', CS, IntS, BoolS)
gone = GS.bm(cone, False)


def is_app(t, f):
    return z3.is_app(t) and t.decl().eq(f)


def cube(x):
    """signed permutation of a base map term"""
    if is_app(x, GS.bm):
        return x.arg(0)
    if z3.is_app_of(x, z3.Z3_OP_ITE):
        return z3.If(x.arg(0), cube(x.arg(1)), cube(x.arg(2)))
    return GS.cube(x)


def trev(x):
    if is_app(x, GS.bm):
        return x.arg(1)
    if z3.is_app_of(x, z3.Z3_OP_ITE):
        return z3.If(x.arg(0), trev(x.arg(1)), trev(x.arg(2)))
    return GS.rev(x)


def word(c):
    """reduced word of a term: [(atom, inverted)]"""
    if c.eq(cone):
        return []
    if is_app(c, _cmul):
        return reduce_word(word(c.arg(0)) + word(c.arg(1)))
    if is_app(c, _cinv):
        return [(a, not i) for a, i in reversed(word(c.arg(0)))]
    return [(c, False)]


def reduce_word(w):
    out = []
    for a, i in w:
        if out and out[-1][0].eq(a) and out[-1][1] != i:
            out.pop()
        else:
            out.append((a, i))
    return out


def unword(w):
    ts = [_cinv(a) if i else a for a, i in w]
    if not ts:
        return cone
    r = ts[-1]
    for t in reversed(ts[:-1]):
        r = _cmul(t, r)
    return r


def cK(c, j):
    """index and flip of coordinate j, unfolded along the word"""
    for a, i in word(c):
        j = _K(_cinv(a) if i else a, j)
    return j


def cB(c, j):
    r = None
    for a, i in word(c):
        t = _cinv(a) if i else a
        b = _B(t, j)
        r = b if r is None else z3.Xor(r, b)
        j = _K(t, j)
    return z3.BoolVal(False) if r is None else r


def xor(a, b):
    if z3.is_false(a):
        return b
    if z3.is_false(b):
        return a
    if z3.is_true(a):
        return z3.simplify(z3.Not(b))
    if z3.is_true(b):
        return z3.simplify(z3.Not(a))
    if a.eq(b):
        return z3.BoolVal(False)
    return z3.Xor(a, b)


def isbv(x):
    return x.sort() == BV


def bit(x, k):
    return z3.Extract(k, k, x) == z3.BitVecVal(1, 1)


def pack(sw, b1, b0, tr):
    f = lambda c: z3.If(zval(c), z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
    return z3.Concat(f(sw), f(b1), f(b0), f(tr))


def gtr(x):
    return bit(x, 0) if isbv(x) else trev(x)


def gK(x, j):
    if not isbv(x):
        return cK(cube(x), zval(j))
    return z3.If(bit(x, 3), 1 - zval(j), zval(j))


def gB(x, j):
    if not isbv(x):
        return cB(cube(x), zval(j))
    return z3.If(zval(j) == 0, bit(x, 1), bit(x, 2))


def gmul(x, y):
    if not isbv(x):
        return GS.bm(unword(reduce_word(word(cube(x)) + word(cube(y)))), xor(trev(x), trev(y)))
    sw = z3.Xor(bit(x, 3), bit(y, 3))
    b = lambda j: z3.Xor(gB(x, j), gB(y, gK(x, j)))
    return pack(sw, b(1), b(0), z3.Xor(gtr(x), gtr(y)))


def ginv(x):
    if not isbv(x):
        return GS.bm(unword([(a, not i) for a, i in reversed(word(cube(x)))]), trev(x))
    return pack(bit(x, 3), z3.If(bit(x, 3), gB(x, 0), gB(x, 1)), z3.If(bit(x, 3), gB(x, 1), gB(x, 0)), gtr(x))


def grev(x):
    return GS.bm(cube(x), z3.simplify(z3.Not(trev(x)))) if not isbv(x) else pack(bit(x, 3), bit(x, 2), bit(x, 1), z3.Not(gtr(x)))


def gcm(x):
    return GS.bm(cube(x), False) if not isbv(x) else pack(bit(x, 3), bit(x, 2), bit(x, 1), False)


def axioms():
    x, y, w = z3.Consts('gx gy gw', CS)
    mul, inv = _cmul, _cinv
    A = z3.ForAll
    return [
        A([x, y, w], mul(mul(x, y), w) == mul(x, mul(y, w)), patterns=[mul(mul(x, y), w)]),
        A([x], mul(x, cone) == x, patterns=[mul(x, cone)]),
        A([x], mul(cone, x) == x, patterns=[mul(cone, x)]),
        A([x], mul(x, inv(x)) == cone, patterns=[mul(x, inv(x))]),
        A([x], mul(inv(x), x) == cone, patterns=[mul(inv(x), x)]),
        A([x], inv(inv(x)) == x, patterns=[inv(inv(x))]),
        A([x, y], mul(x, mul(inv(x), y)) == y, patterns=[mul(x, mul(inv(x), y))]),
        A([x, y], mul(inv(x), mul(x, y)) == y, patterns=[mul(inv(x), mul(x, y))]),
        A([x, y], inv(mul(x, y)) == mul(inv(y), inv(x)), patterns=[inv(mul(x, y))]),
        inv(cone) == cone,
    ]


def coord_axioms(d):
    x, y = z3.Consts('gx gy', CS)
    j = z3.Int('gj')
    A = z3.ForAll
    rng = z3.And(j >= 0, j < d)
    return [
        A([x, j], z3.Implies(rng, z3.And(_K(x, j) >= 0, _K(x, j) < d)), patterns=[_K(x, j)]),
        A([x, y, j], _K(_cmul(x, y), j) == _K(y, _K(x, j)), patterns=[_K(_cmul(x, y), j)]),
        A([x, y, j], _B(_cmul(x, y), j) == z3.Xor(_B(x, j), _B(y, _K(x, j))), patterns=[_B(_cmul(x, y), j)]),
        A([j], z3.And(_K(cone, j) == j, _B(cone, j) == False)),
        A([x, j], z3.Implies(rng, z3.And(_K(_cinv(x), _K(x, j)) == j, _B(_cinv(x), _K(x, j)) == _B(x, j))), patterns=[_K(_cinv(x), _K(x, j))]),
        A([x, j], z3.Implies(rng, z3.And(_K(x, _K(_cinv(x), j)) == j, _B(x, _K(_cinv(x), j)) == _B(_cinv(x), j))), patterns=[_K(x, _K(_cinv(x), j))]),
        A([x, j], z3.Implies(rng, z3.And(_B(_cinv(x), _K(x, j)) == _B(x, j))), patterns=[_B(_cinv(x), _K(x, j))]),
        A([x, j], z3.Implies(rng, z3.And(_B(x, _K(_cinv(x), j)) == _B(_cinv(x), j))), patterns=[_B(x, _K(_cinv(x), j))]),
    ]


class Group:
    def __init__(self, eng, d, coords=True, laws=True):
        self.eng, self.d = eng, d
        if isinstance(d, int):
            if d > 2:
                raise Unsupported('concrete groups of dimension above 2')
            self.sort, self.one = BV, z3.BitVecVal(0, 4)
        else:
            self.sort, self.one = GS, gone
            for a in axioms() if laws else ():
                eng.assume(a)
            if coords:
                for a in coord_axioms(zval(d)):
                    eng.assume(a)
        self.attrs = A = {'__classes__': ('BaseMap',)}
        mk = self.mk
        bi = Builtin
        A['_key'] = lambda s: s
        A['dim'] = lambda s: d
        A['time_rev'] = lambda s: gtr(s.term)
        A['cube_map'] = lambda s: bi('cube_map', lambda: mk(gcm(s.term)))
        A['get_inverse'] = lambda s: bi('get_inverse', lambda: mk(ginv(s.term)))
        A['__mul__'] = lambda s, o: mk(gmul(s.term, o.term)) if isinstance(o, UObj) and o.tag == 'BaseMap' else NOTIMPL
        A['__invert__'] = lambda s: mk(grev(s.term))
        A['__pow__'] = self.pow
        A['conjugate_by'] = lambda s: bi('conjugate_by', lambda other: mk(gmul(gmul(other.term, s.term), ginv(other.term))))
        A['apply_cube'] = lambda s: bi('apply_cube', lambda div, cube: self.act(s.term, cube, lambda v: div - 1 - v))
        A['apply_x'] = lambda s: bi('apply_x', lambda x, mx=1: self.act(s.term, x, lambda v: mx - v))
        A['apply_vec'] = lambda s: bi('apply_vec', lambda x: self.act(s.term, x, lambda v: -v))
        A['apply_cube_start'] = lambda s: bi('apply_cube_start', lambda x, l: self.act(s.term, x, lambda v: 1 - v - l))
        A['apply_t'] = lambda s: bi('apply_t', lambda t, mt=1: eng.ite(gtr(s.term), mt - t, t))
        A['apply_cnum'] = lambda s: bi('apply_cnum', lambda g, c: eng.ite(gtr(s.term), g - 1 - c, c))
        eng.contracts['base_maps.BaseMap.id_map'] = lambda e, Ar: mk(self.one)

    def mk(self, t):
        return UObj(t, 'BaseMap', self.attrs)

    def pow(self, s, n):
        n = simp(n)
        if n == -1:
            return self.mk(ginv(s.term))
        if n == 0:
            return self.mk(self.one)
        if n == 1:
            return s
        raise Unsupported('power of an abstract base map')

    def act(self, g, x, flip):
        eng = self.eng
        x = eng.plain_seq(x)

        def at(j):
            v = item(eng, x, gK(g, zval(j)))
            return eng.ite(gB(g, zval(j)), flip(v), v)
        if isinstance(self.d, int):
            return tuple(at(j) for j in range(self.d))
        return Seq(self.d, at)

    def fresh(self, name):
        return self.mk(self.elem(self.eng.fresh(name, self.sort)))

    def elem(self, t):
        """an arbitrary term of the sort as an element (dimension 1 has no swap and one flip)"""
        if self.d == 1:
            self.eng.assume(z3.And(z3.Not(bit(t, 3)), z3.Not(bit(t, 2))))
        return t


def new_obj(eng, cls, payload=None, sym=True, **f):
    o = Obj(cls)
    o.birth = eng.new_birth()
    o.f = dict(f)
    o.payload = payload
    o.ghost['sym'] = sym
    return o


def mk_spec(eng, bm, pnum):
    """the spec (bm, pnum), by the constructor's contract (a fresh object; see 'Spec.__new__ with any history')"""
    return eng.call(cls_of(eng, SPEC), [bm, pnum])


def setup(eng):
    eng.contracts[SPEC] = miss_mode(SPEC)


class SymCurve:
    """arbitrary curve: mult patterns, genus fractions, cubes and specs arbitrary (specs/cubes possibly None)"""
    def __init__(self, eng, grp, cls, div=None, holes=True, pnum=None, name='C', P={}):
        self.eng, self.g = eng, grp
        d = grp.d
        I = IntS
        self.fin = isinstance(d, int)
        if div is None:
            if self.fin:
                div = P.get('div', 2)
            else:
                div = eng.fresh('div', I)
                eng.assume(div >= 2)
        self.div = div
        if self.fin:
            self.mult = P.get('mult', 1)
        else:
            self.mult = eng.fresh(name + '_mult', I)
            eng.assume(self.mult >= 1)
        self.genus = eng.power(div, d)
        if not self.fin:
            eng.assume(zval(self.genus) >= 2)
        self.cube = eng.fresh_fun(name + '_cube', I, I, I, I)
        self.sbm = eng.fresh_fun(name + '_sbm', I, I, grp.sort)
        self.spn = eng.fresh_fun(name + '_spn', I, I, I)
        self.nospec = eng.fresh_fun(name + '_nospec', I, I, BoolS)
        self.nocube = eng.fresh_fun(name + '_nocube', I, I, BoolS)
        p, c, j = z3.Ints('p!c c!c j!c')
        rng = z3.And(p >= 0, p < self.mult, c >= 0, c < self.genus)
        if self.fin:
            for p in range(self.mult):
                for c in range(self.genus):
                    eng.assume(z3.And(self.spn(p, c) >= 0, self.spn(p, c) < self.mult))
                    grp.elem(self.sbm(p, c))
        else:
            eng.assume(z3.ForAll([p, c], z3.Implies(rng, z3.And(self.spn(p, c) >= 0, self.spn(p, c) < self.mult)), patterns=[self.spn(p, c)]))
        if pnum is None:
            pnum = eng.fresh(name + '_pnum', I)
        eng.assume(z3.And(pnum >= 0, pnum < self.mult))
        self.pnum = pnum
        self.holes = holes
        pats = self.seq(self.mult, self.pattern)
        self.obj = new_obj(eng, cls_of(eng, cls), dim=d, div=div, patterns=pats, mult=self.mult, pnum=pnum, genus=self.genus)

    @staticmethod
    def seq(n, get):
        return tuple(get(i) for i in range(n)) if isinstance(n, int) else Seq(n, get)

    def cube_at(self, p, c):
        return Seq(self.g.d, lambda j: self.cube(p, c, j)) if not isinstance(self.g.d, int) else tuple(self.cube(p, c, j) for j in range(self.g.d))

    def spec_at(self, p, c):
        e = self.eng
        bm = self.g.mk(self.sbm(p, c))
        return new_obj(e, cls_of(e, SPEC), base_map=bm, pnum=self.spn(p, c), _key=(bm, self.spn(p, c)), _hash=HashVal((bm, self.spn(p, c))))

    def pattern(self, p):
        e = self.eng
        cub = lambda c: Opt(self.nocube(p, c), self.cube_at(p, c)) if self.holes else self.cube_at(p, c)
        spc = lambda c: Opt(self.nospec(p, c), self.spec_at(p, c)) if self.holes else self.spec_at(p, c)
        proto = new_obj(e, cls_of(e, 'paths.Proto'), payload=self.seq(self.genus, cub), dim=self.g.d, div=self.div)
        specs = self.seq(self.genus, spc)
        return new_obj(e, cls_of(e, 'curves.Pattern'), payload=(proto, specs), proto=proto, specs=specs)


def opt(v):
    """(is None, value)"""
    if v is None:
        return True, None
    if isinstance(v, Opt):
        return v.isnone, v.val
    return False, v


def ranges(*pairs):
    return And([z3.And(zval(v) >= 0, zval(v) < zval(n)) for v, n in pairs])


def quiet(eng, *objs):
    """frame condition: nothing reachable from the inputs was changed"""
    return not any(e[0] == 'mutate' for e in eng.effects)


def invert(eng, o):
    if isinstance(o, UObj):
        return o.attrs['__invert__'](o)
    return eng.call(eng.getattr(o, '__invert__'), [])
