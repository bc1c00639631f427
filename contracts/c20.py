"""C20: pointed paths give the true gates; the continuity check decides continuity."""
import ast
from contracts.common import *
from contracts.abstract import *
from contracts.c05 import begin, CV, MUL

PA = 'paths.Path'
PT, LKC = 'subsets.Point', 'subsets.Link'
seq = SymCurve.seq


def co(eng, p, j):
    v = item(eng, eng.plain_seq(p), j)
    return toreal(zval(v)) if not (is_z3(v) and v.sort() == RealS) else v


def coords_are(eng, pt, d, want):
    return And(eng.eq(eng.length(pt), d), for_index(eng, d, lambda j: co(eng, pt, j) == want(j)))


def coords_at(eng, pt, d, js, want):
    return And(eng.eq(eng.length(pt), d), *[co(eng, pt, j) == want(j) for j in js])


def point(eng, d, f):
    return new_obj(eng, cls_of(eng, PT), payload=seq(d, lambda j: f(zval(j))), sym=False)


def put(div, c, x):
    """a point of the unit cube placed into a cube of the division"""
    return (z3.ToReal(zval(c)) + x) / z3.ToReal(zval(div))


def h_get_paths(eng, P):
    grp, C, p, c = begin(eng, P, cls=CV, holes=False)
    d = grp.d
    E = [eng.fresh_fun('entrance', IntS, IntS, RealS), eng.fresh_fun('exit', IntS, IntS, RealS)]
    for k, name in ((0, 'get_entrance'), (1, 'get_exit')):
        def con(e, A, k=k):
            n = A.get('pnum')
            n = C.pnum if n is None else zval(n)
            return point(e, d, lambda j: E[k](n, j))
        eng.contracts['curves.FuzzyCurve.' + name] = con

    def gate(k, p, c, j):
        """gate k of fraction c of pattern p, relative to the fraction: the image of the gate of the pattern placed there"""
        g, n = C.sbm(p, c), C.spn(p, c)
        K = gK(g, zval(j))
        v = z3.If(gtr(g), E[1 - k](n, K), E[k](n, K))
        return z3.If(gB(g, zval(j)), 1 - v, v)
    # contract of Point.map_to_cube (C18)
    eng.contracts[PT + '.map_to_cube'] = lambda e, A: point(e, d, lambda j: put(A['div'], item(e, e.plain_seq(A['cube']), j), co(e, A['self'], j)))
    # contract of get_entrance and get_exit (C07): self-similarity at the ends
    last = C.genus - 1
    facts = lambda pp, j: z3.And(E[0](pp, j) == put(C.div, C.cube(pp, 0, j), gate(0, pp, 0, j)), E[1](pp, j) == put(C.div, C.cube(pp, last, j), gate(1, pp, last, j)))
    js = list(range(d)) if C.fin else [eng.fresh('j', IntS)]         # an arbitrary coordinate
    if not C.fin:
        eng.assume(ranges((js[0], d)))
    for pp in (range(C.mult) if C.fin else [p]):
        for j in js:
            eng.assume(facts(pp, j))
    eng.cover('inputs')
    paths = eng.call(eng.getattr(C.obj, 'get_paths'), [])
    eng.prove('one path per pattern', eng.eq(eng.length(paths), C.mult))
    path = item(eng, paths, p)
    proto = eng.getattr(path, 'proto')
    eng.prove('a path has the prototype of its pattern', And(eng.eq(eng.plain_seq(item(eng, proto, c)), C.cube_at(p, c)), eng.eq(eng.length(proto), C.genus)))
    links = eng.getattr(path, 'links')
    eng.prove('one gate pair per fraction', eng.eq(eng.length(links), C.genus))
    l = item(eng, links, c)
    for k, name in ((0, 'entrance'), (1, 'exit')):
        eng.prove('%s of a fraction is the true one' % name, coords_at(eng, eng.getattr(l, name), d, js, lambda j: gate(k, p, c, j)))
        eng.prove('global %s is that of the pattern' % name, coords_at(eng, eng.getattr(eng.getattr(path, 'link'), name), d, js, lambda j: E[k](p, zval(j))))
    eng.prove('the curve is not changed', quiet(eng), kind='frame')


class SymPath:
    def __init__(self, eng, P, grp):
        d = self.d = grp.d
        self.fin = isinstance(d, int)
        self.n = P['n'] if self.fin else eng.fresh('genus', IntS)
        self.div = P.get('div', 2) if self.fin else eng.fresh('div', IntS)
        if not self.fin:
            eng.assume(And(self.n >= 1, self.div >= 1))
        f = eng.fresh_fun
        self.e, self.x = f('entr', IntS, IntS, RealS), f('exit', IntS, IntS, RealS)
        self.cube = f('cube', IntS, IntS, IntS)
        self.eng = eng
        self.proto = new_obj(eng, cls_of(eng, 'paths.Proto'), payload=seq(self.n, self.cube_at), dim=d, div=self.div)
        self.links = seq(self.n, self.link_at)
        self.obj = new_obj(eng, cls_of(eng, PA), proto=self.proto, dim=d, div=self.div, links=self.links,
                           link=self.mklink(point(eng, d, lambda j: put(self.div, self.cube(0, j), self.e(0, j))), point(eng, d, lambda j: put(self.div, self.cube(self.n - 1, j), self.x(self.n - 1, j)))))

    def mklink(self, a, b):
        return new_obj(self.eng, cls_of(self.eng, LKC), entrance=a, exit=b, dim=self.d)

    def cube_at(self, c):
        return seq(self.d, lambda j: self.cube(zval(c), zval(j)))

    def link_at(self, c):
        return self.mklink(point(self.eng, self.d, lambda j: self.e(zval(c), j)), point(self.eng, self.d, lambda j: self.x(zval(c), j)))

    def joint(self, c):
        """fraction c ends where the next one begins (in units of a fraction)"""
        R = z3.ToReal
        c = zval(c)
        return for_index(self.eng, self.d, lambda j: R(self.cube(c, zval(j))) + self.x(c, zval(j)) == R(self.cube(c + 1, zval(j))) + self.e(c + 1, zval(j)))


def h_continuous(eng, P):
    grp = Group(eng, sym_dim(eng, P), laws=False, coords=False)
    S = SymPath(eng, P, grp)

    def hint(e, name, init, it):
        if isinstance(init, Seq):
            return lambda i: S.cube_at(i)
        if isinstance(init, Obj) and init.cls.name == 'Link':
            return lambda i: S.link_at(i)
        return None
    eng.loop_hints = {'for': [hint]}
    r = eng.truth(eng.call(eng.getattr(S.obj, 'is_continuous'), []))
    if S.fin:
        want = And(*[S.joint(c) for c in range(S.n - 1)])
    else:
        c = z3.Int('c!q')
        want = z3.ForAll([c], z3.Implies(z3.And(c >= 0, c < S.n - 1), zval(S.joint(c))))
    eng.prove('is_continuous accepts only paths without jumps', Implies(r, want))
    eng.prove('is_continuous accepts every path without jumps', Implies(want, r))
    eng.prove('the path is not changed', quiet(eng), kind='frame')


def h_path_map(eng, P):
    """bm * path: images of cubes and gates; jumps are mapped to jumps"""
    grp = Group(eng, sym_dim(eng, P))
    S = SymPath(eng, P, grp)
    d = S.d
    g = grp.fresh('g')
    c = eng.fresh('c', IntS)
    eng.assume(ranges((c, S.n)))
    R = eng.binop(MUL, g, S.obj)
    rev = gtr(g.term)
    c0 = z3.If(rev, S.n - 1 - c, c)
    flip = lambda f, one: lambda j: z3.If(gB(g.term, zval(j)), one - f(gK(g.term, zval(j))), f(gK(g.term, zval(j))))
    eng.prove('bm * path: as many fractions', And(eng.eq(eng.length(eng.getattr(R, 'links')), S.n), eng.eq(eng.length(eng.getattr(R, 'proto')), S.n), eng.eq(eng.getattr(R, 'div'), S.div), eng.eq(eng.getattr(R, 'dim'), d)))
    cube = item(eng, eng.getattr(R, 'proto'), c)
    eng.prove('bm * path: cubes', for_index(eng, d, lambda j: eng.eq(item(eng, cube, j), flip(lambda k: S.cube(c0, k), zval(S.div) - 1)(j))))
    l = item(eng, eng.getattr(R, 'links'), c)
    eng.prove('bm * path: entrances', coords_are(eng, eng.getattr(l, 'entrance'), d, flip(lambda k: z3.If(rev, S.x(c0, k), S.e(c0, k)), 1)))
    eng.prove('bm * path: exits', coords_are(eng, eng.getattr(l, 'exit'), d, flip(lambda k: z3.If(rev, S.e(c0, k), S.x(c0, k)), 1)))


def h_joint_lemma(eng, P):
    """a joint of the image is the image of a joint (coordinate by coordinate)"""
    R = z3.ToReal
    n = eng.fresh('div', IntS)
    q1, q2 = eng.fresh('q1', IntS), eng.fresh('q2', IntS)
    x1, e2 = eng.fresh('x1', RealS), eng.fresh('e2', RealS)
    b, rev = eng.fresh('b', BoolS), eng.fresh('rev', BoolS)
    f = lambda v, one: z3.If(b, one - v, v)
    # forward: fractions c, c+1 of the image; backward: the image visits them in the opposite order
    a1, a2 = z3.If(rev, q2, q1), z3.If(rev, q1, q2)
    exit1, entr2 = z3.If(rev, e2, x1), z3.If(rev, x1, e2)
    old = R(q1) + x1 == R(q2) + e2
    new = R(f(a1, n - 1)) + f(exit1, 1) == R(f(a2, n - 1)) + f(entr2, 1)
    eng.prove('continuity is the same under isometries and time reversal', old == new)


def h_check(eng, P):
    grp, C, p, c = begin(eng, P, cls=CV, holes=False, coords=False, laws=False)
    good = eng.fresh_fun('path_continuous', IntS, BoolS)
    mk = lambda i: UObj(zval(i) if is_z3(i) else z3.IntVal(i), 'Path', {'is_continuous': lambda s: Builtin('is_continuous', lambda: good(s.term))})
    eng.contracts[CV + '.get_paths'] = lambda e, A: seq(C.mult, mk)
    if C.fin:
        want = And(*[good(q) for q in range(C.mult)])
    else:
        q = z3.Int('q!k')
        want = z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < C.mult), good(q)))
    try:
        eng.call(eng.getattr(C.obj, 'check'), [])
    except PyRaise as ex:
        eng.prove('check refuses with ValueError', 'ValueError' in str(ex.exc))
        eng.prove('check refuses only discontinuous curves', Not(want))
        return
    eng.prove('check accepts only continuous curves', want)


FIN = [{'dim': 1, 'div': 2, 'mult': 1, 'n': 2}, {'dim': 1, 'div': 3, 'mult': 2, 'n': 3}, {'dim': 2, 'div': 2, 'mult': 1, 'n': 2}]
CONTRACTS = [
    Contract('get_paths', h_get_paths, [CV + '.get_paths', PA + '.__init__', LKC + '.__rmul__', PT + '.__rmul__'], setup, FIN, timeout=15.0),
    Contract('Path.is_continuous', h_continuous, [PA + '.is_continuous', PT + '.transform', PT + '.intersects'], setup, FIN, timeout=15.0),
    Contract('bm * path', h_path_map, [PA + '.__rmul__', PA + '.__init__', 'paths.Proto.__rmul__', LKC + '.__rmul__'], setup, FIN, timeout=15.0),
    Contract('joints under isometries', h_joint_lemma, []),
    Contract('Curve.check', h_check, [CV + '.check'], setup, FIN),
]
