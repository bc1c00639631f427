"""Conversions between plain data and the real objects of /repo (public names only)."""
import sys, json, os, random
from fractions import Fraction as F
from quicktions import Fraction as Q
import ref
from ref import C, Fail, expect

HERE = os.path.dirname(os.path.abspath(__file__))

from peano.base_maps import BaseMap, Spec
from peano.curves import Curve, FuzzyCurve, PathFuzzyCurve
from peano.paths import Proto, Path, PathsGenerator
from peano.subsets import Point, Link, FacetDivSubset
import peano.utils as utils


def f(x):
    """exact value as fractions.Fraction; anything that is not an exact rational is an error"""
    if isinstance(x, bool) or isinstance(x, float):
        raise Fail('not an exact rational: %r' % (x,))
    return F(int(x.numerator), int(x.denominator))


def fs(xs):
    return tuple(f(x) for x in xs)


def q(x):
    x = F(x)
    return Q(x.numerator, x.denominator)


def qs(xs):
    return tuple(q(x) for x in xs)


def bm(a):
    return BaseMap(a[0], a[1])


def rbm(b):
    return (tuple((int(k), bool(x)) for k, x in b.coords), bool(b.time_rev))


def spec(s):
    return Spec(bm(s[0]), s[1])


def rspec(s):
    return None if s is None else (rbm(s.base_map), s.pnum)


def rawpats(cv):
    return [(tuple(cs), tuple(None if s is None else spec(s) for s in ss)) for cs, ss in cv.pats]


def curve(cv):
    return Curve(dim=cv.dim, div=cv.div, patterns=rawpats(cv), pnum=cv.pnum)


def rproto(p):
    return tuple(None if c is None else tuple(int(x) for x in c) for c in p)


def rcurve(cu):
    return C(cu.dim, cu.div, tuple((rproto(p.proto), tuple(rspec(s) for s in p.specs)) for p in cu.patterns), cu.pnum)


def pt(x):
    return Point(qs(x))


def link(l):
    return Link(pt(l[0]), pt(l[1]))


def rlink(l):
    return (fs(l.entrance), fs(l.exit))


def rpath(p):
    return (rproto(p.proto), tuple(rlink(l) for l in p.links))


def rjunc(j):
    expect(j.delta_t == 1, 'regular junction with delta_t %r' % (j.delta_t,))
    return (rspec(j.spec1), rspec(j.spec2), tuple(int(x) for x in j.delta_x))


def load_corpus():
    out = {}
    for name, d in json.load(open(os.path.join(HERE, 'corpus.json'))).items():
        pats = []
        for cubes, specs in d['pats']:
            pats.append((tuple(tuple(c) for c in cubes),
                         tuple(((tuple((k, bool(b)) for k, b in s[0][0]), bool(s[0][1])), s[1]) for s in specs)))
        out[name] = C(d['dim'], d['div'], tuple(pats), d['pnum'])
    return out


def variants(cv, rng, n):
    """n random continuous curves with the same pointed paths, as plain data"""
    comp = ref.compatible_specs(cv)
    for _ in range(n):
        pats = tuple((cubes, tuple(rng.choice(comp[p][i]) for i in range(len(cubes))))
                     for p, (cubes, _) in enumerate(cv.pats))
        yield C(cv.dim, cv.div, pats, rng.randrange(len(cv.pats)))


def paths_of(cv):
    """real pointed paths of a plain curve, built from reference gates"""
    fg = ref.frac_gates(cv)
    return tuple(Path(Proto(cv.dim, cv.div, cubes), [link(l) for l in fg[p]]) for p, (cubes, _) in enumerate(cv.pats))


METRICS = {'l1': utils.ratio_l1, 'l2': utils.ratio_l2, 'l2_squared': utils.ratio_l2_squared, 'linf': utils.ratio_linf}
