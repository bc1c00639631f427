"""C05: isometries, pattern selection and time reversal act correctly on curves."""
import ast
from contracts.common import *
from contracts.abstract import *

FC = 'curves.FuzzyCurve'
CV = 'curves.Curve'
MUL = ast.Mult()


def view(eng, curve, p, c):
    """(cube is None, cube, spec is None, base map term, pnum) of fraction c of pattern p of a resulting curve"""
    pats = eng.getattr(curve, 'patterns')
    pat = item(eng, pats, p)
    proto = eng.getattr(pat, 'proto')
    cn, cube = opt(item(eng, proto, c))
    sn, spec = opt(item(eng, eng.getattr(pat, 'specs'), c))
    bm = eng.getattr(spec, 'base_map') if spec is not None else None
    pn = eng.getattr(spec, 'pnum') if spec is not None else None
    return cn, cube, sn, bm, pn


def shape(eng, curve, C, pnum, genus=None):
    """dimensions, counts and the selected pattern"""
    genus = C.genus if genus is None else genus
    p = eng.fresh('p_any', IntS)
    pats = eng.getattr(curve, 'patterns')
    pat = item(eng, pats, p)
    proto = eng.getattr(pat, 'proto')
    return And(eng.eq(eng.length(pats), C.mult), eng.eq(eng.getattr(curve, 'mult'), C.mult), eng.eq(eng.getattr(curve, 'dim'), C.g.d),
               eng.eq(eng.getattr(curve, 'div'), C.div), eng.eq(eng.getattr(curve, 'genus'), C.genus), eng.eq(eng.getattr(curve, 'pnum'), pnum),
               Implies(ranges((p, C.mult)), And(eng.eq(eng.length(proto), C.genus), eng.eq(eng.length(eng.getattr(pat, 'specs')), C.genus),
                                                eng.eq(eng.getattr(proto, 'dim'), C.g.d), eng.eq(eng.getattr(proto, 'div'), C.div))))


def image_ok(eng, g, grp, C, R, p, c, who):
    """fraction c of pattern p of the image R is the image of the right fraction of the original"""
    c0 = eng.ite(gtr(g), C.genus - 1 - c, c)
    cn, cube, sn, bm, pn = view(eng, R, p, c)
    want = grp.act(g, C.cube_at(p, c0), lambda v: C.div - 1 - v)
    eng.prove('%s: an undefined cube stays undefined, a defined one stays defined' % who, eng.eq(cn, C.nocube(p, c0)))
    if cube is not None:
        eng.prove('%s: cube c of the image is the image of the cube at that place of the visiting order' % who, Implies(Not(cn), eng.eq(eng.plain_seq(cube), want)))
    eng.prove('%s: an undefined spec stays undefined, a defined one stays defined' % who, eng.eq(sn, C.nospec(p, c0)))
    if bm is not None:
        eng.prove('%s: orientation of the image fraction followed by the map = map followed by the original orientation' % who,
                  Implies(Not(sn), gmul(bm.term, g) == gmul(g, C.sbm(p, c0))))
        eng.prove('%s: pattern number of the image fraction' % who, Implies(Not(sn), eng.eq(pn, C.spn(p, c0))))


def begin(eng, P, cls=FC, coords=True, laws=True, **kw):
    d = sym_dim(eng, P)
    grp = Group(eng, d, coords, laws)
    C = SymCurve(eng, grp, cls, P=P, **kw)
    p, c = eng.fresh('p', IntS), eng.fresh('c', IntS)
    eng.assume(ranges((p, C.mult), (c, C.genus)))
    return grp, C, p, c


def h_apply_bm(eng, P):
    grp, C, p, c = begin(eng, P)
    g = grp.fresh('g')
    eng.cover('inputs')
    R = eng.binop(MUL, g, C.obj)
    eng.prove('bm * curve: shape and selected pattern', shape(eng, R, C, C.pnum))
    image_ok(eng, g.term, grp, C, R, p, c, 'bm * curve')
    eng.prove('bm * curve: the original curve is not changed', quiet(eng), kind='frame')


def h_apply_spec(eng, P):
    grp, C, p, c = begin(eng, P)
    g = grp.fresh('g')
    n = eng.fresh('newpnum', IntS)
    eng.assume(ranges((n, C.mult)))
    s = mk_spec(eng, g, n)
    eng.effects = []
    R = eng.binop(MUL, s, C.obj)
    eng.prove('spec * curve: shape and selected pattern', shape(eng, R, C, n))
    image_ok(eng, g.term, grp, C, R, p, c, 'spec * curve')
    eng.prove('spec * curve: the original curve is not changed', quiet(eng), kind='frame')


def h_invert(eng, P):
    grp, C, p, c = begin(eng, P)
    R = invert(eng, C.obj)
    eng.prove('~curve: shape and selected pattern', shape(eng, R, C, C.pnum))
    image_ok(eng, grev(grp.one), grp, C, R, p, c, '~curve')
    eng.prove('~curve: the original curve is not changed', quiet(eng), kind='frame')


def same_fraction(eng, A, B, p, c, who):
    a, b = view(eng, A, p, c), view(eng, B, p, c)
    eng.prove('%s: same defined cubes and specs' % who, And(eng.eq(a[0], b[0]), eng.eq(a[2], b[2])))
    eng.prove('%s: same cube' % who, Implies(Not(a[0]), eng.eq(eng.plain_seq(a[1]), eng.plain_seq(b[1]))))
    eng.prove('%s: same spec' % who, Implies(Not(a[2]), And(a[3].term == b[3].term, eng.eq(a[4], b[4]))))
    eng.prove('%s: same selected pattern' % who, eng.eq(eng.getattr(A, 'pnum'), eng.getattr(B, 'pnum')))


def h_double_reversal(eng, P):
    grp, C, p, c = begin(eng, P)
    R = invert(eng, invert(eng, C.obj))
    same_fraction(eng, R, C.obj, p, c, '~~curve is the curve')


def h_product(eng, P):
    grp, C, p, c = begin(eng, P)
    g, h = grp.fresh('g'), grp.fresh('h')
    A = eng.binop(MUL, eng.binop(MUL, g, h), C.obj)
    B = eng.binop(MUL, g, eng.binop(MUL, h, C.obj))
    same_fraction(eng, A, B, p, c, '(g*h)*curve = g*(h*curve)')


# ---- specs --------------------------------------------------------------------------------------
def spec_is(eng, s, bm, pn):
    return And(eng.getattr(s, 'base_map').term == bm, eng.eq(eng.getattr(s, 'pnum'), pn))


def h_spec_new_history(eng, P):
    d = sym_dim(eng, P)
    grp = Group(eng, d, coords=False)
    g1, g2 = grp.fresh('g1'), grp.fresh('g2')
    n1, n2 = eng.fresh('n1', IntS), eng.fresh('n2', IntS)
    cls = cls_of(eng, SPEC)
    eng.instantiate(cls, [g1, n1], {})
    eff = list(eng.effects)
    eng.effects = []
    for k in list(eng.class_state):
        del eng.class_state[k]
    eng.priors = eff
    s = eng.instantiate(cls, [g2, n2], {})
    eng.prove('Spec(bm, pnum) after any earlier construction has this base map and pattern', spec_is(eng, s, g2.term, n2))
    t = eng.instantiate(cls, [g2], {})
    eng.prove('the default pattern of a spec is 0', spec_is(eng, t, g2.term, 0))


def h_spec_ops(eng, P):
    d = sym_dim(eng, P)
    grp = Group(eng, d, coords=False)
    g, h, k = grp.fresh('g'), grp.fresh('h'), grp.fresh('k')
    n, m = eng.fresh('n', IntS), eng.fresh('m', IntS)
    S, T = mk_spec(eng, g, n), mk_spec(eng, h, m)
    eng.prove('spec * spec composes: base maps multiply, the left pattern is selected', spec_is(eng, eng.binop(MUL, S, T), gmul(g.term, h.term), n))
    eng.prove('spec * base map', spec_is(eng, eng.binop(MUL, S, k), gmul(g.term, k.term), n))
    eng.prove('base map * spec', spec_is(eng, eng.binop(MUL, k, S), gmul(k.term, g.term), n))
    eng.prove('~spec reverses time only', spec_is(eng, invert(eng, S), grev(g.term), n))
    r = eng.call(eng.getattr(S, 'conjugate_by'), [k])
    eng.prove('conjugation of a spec by a base map', spec_is(eng, r, gmul(k.term, gmul(g.term, ginv(k.term))), n))
    e = eng.truth(eng.call(eng.getattr(S, '__eq__'), [T]))
    same = And(g.term == h.term, n == m)
    eng.prove('specs are equal exactly when base map and pattern agree', And(Implies(e, same), Implies(same, e)))
    eng.prove('equal specs have equal hashes', Implies(same, eng.eq(eng.call(eng.getattr(S, '__hash__'), []), eng.call(eng.getattr(T, '__hash__'), []))))


# ---- equality of curves ---------------------------------------------------------------------------
def h_curve_eq(eng, P):
    d = sym_dim(eng, P)
    grp = Group(eng, d, coords=False)
    A = SymCurve(eng, grp, CV, holes=False, name='A', P=P)
    B = SymCurve(eng, grp, CV, div=A.div, holes=False, name='B', P=P)
    e = eng.truth(eng.call(eng.getattr(A.obj, '__eq__'), [B.obj]))
    p, c, j = z3.Ints('p!e c!e j!e')
    rng = z3.And(p >= 0, p < A.mult, c >= 0, c < A.genus)
    same = And(A.mult == B.mult, A.pnum == B.pnum,
               z3.ForAll([p, c], z3.Implies(rng, z3.And(A.sbm(p, c) == B.sbm(p, c), A.spn(p, c) == B.spn(p, c)))),
               z3.ForAll([p, c, j], z3.Implies(z3.And(rng, j >= 0, j < d), A.cube(p, c, j) == B.cube(p, c, j)))) if not A.fin else And(
        A.mult == B.mult, A.pnum == B.pnum, *[And(A.sbm(p, c) == B.sbm(p, c), A.spn(p, c) == B.spn(p, c), *[A.cube(p, c, j) == B.cube(p, c, j) for j in range(d)])
                                             for p in range(A.mult) for c in range(A.genus)])
    eng.prove('curves are equal only if patterns and selected pattern are', Implies(e, same))
    eng.prove('curves with equal patterns and selected pattern are equal', Implies(same, e))
    eng.prove('equal curves have equal hashes', Implies(same, eng.eq(eng.call(eng.getattr(A.obj, '__hash__'), []), eng.call(eng.getattr(B.obj, '__hash__'), []))))


RM = FC + '.__rmul__'
FIN = [{'dim': 1, 'div': 2, 'mult': 1}, {'dim': 1, 'div': 3, 'mult': 2}, {'dim': 2, 'div': 2, 'mult': 1}]
S = SPEC + '.'
CONTRACTS = [
    Contract('bm * curve', h_apply_bm, [RM, FC + '.__invert__', FC + '._apply_cube_map', FC + '._changed', FC + '.__init__', 'paths.Proto.__rmul__', 'paths.Proto.__new__', 'curves.Pattern.__new__'], setup, FIN),
    Contract('spec * curve', h_apply_spec, [RM, 'paths.Proto.__rmul__'], setup, FIN),
    Contract('~curve', h_invert, [FC + '.__invert__', 'curves.Pattern.__invert__', 'paths.Proto.__invert__'], setup, FIN),
    Contract('~~curve', h_double_reversal, [FC + '.__invert__'], setup, FIN),
    Contract('(g*h)*curve', h_product, [RM], setup, FIN),
    Contract('Spec.__new__ with any history', h_spec_new_history, [S + '__new__'], None, FIN),
    Contract('Spec operations', h_spec_ops, [S + '__mul__', S + '__rmul__', S + '__invert__', S + 'conjugate_by', S + '__eq__', S + '__hash__'], setup, FIN),
    Contract('Curve.__eq__/__hash__', h_curve_eq, [CV + '.__eq__', CV + '.__hash__'], setup, FIN),
]
