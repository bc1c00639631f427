"""C20 bounded oracle: pointed paths, gates and continuity."""
import random, itertools
from fractions import Fraction as F
import ref
from ref import expect, C
from api import bm, rbm, spec, rspec, curve, rcurve, load_corpus, variants, fs, f, rpath, rlink, rproto, Path, Proto, link, Link, FacetDivSubset

BOUND = 'corpus curves, gate-compatible variants and random curves / corrupted curves (dim<=4, div<=5, <=5 patterns); images; subdivisions k<=2; direct continuity check of paths'


def accepts(cu):
    try:
        cu.check()
        return True
    except ValueError:
        return False


def check(cv, rng, sub=1, images=2):
    cu = curve(cv)
    n = 0
    fg = ref.frac_gates(cv)
    paths = cu.get_paths()
    expect(len(paths) == len(cv.pats), 'number of paths', curve=cv)
    cont = ref.is_continuous(cv)
    for p, path in enumerate(paths):
        expect(rpath(path) == (cv.pats[p][0], tuple(fg[p])), 'gates of fractions', curve=cv, pattern=p)
        expect(path.dim == cv.dim and path.div == cv.div, 'path shape', curve=cv)
        if True:
            expect(rlink(path.link) == ref.gates(cv, p), 'global gates of the path', curve=cv, pattern=p, got=rlink(path.link), want=ref.gates(cv, p))
        n += len(fg[p]) + 1
    per = []
    for p, path in enumerate(paths):
        cubes = cv.pats[p][0]
        ok = all(tuple(a + b for a, b in zip(cubes[i], fg[p][i][1])) == tuple(a + b for a, b in zip(cubes[i + 1], fg[p][i + 1][0])) for i in range(len(cubes) - 1))
        expect(bool(path.is_continuous()) == ok, 'continuity of a path', curve=cv, pattern=p, got=path.is_continuous(), want=ok)
        per.append(ok)
        n += 1
    expect(accepts(cu) == all(per), 'continuity check', curve=cv, got=accepts(cu), want=all(per))
    for _ in range(images):
        A = ref.rnd_bm(rng, cv.dim)
        expect(accepts(bm(A) * cu) == cont, 'continuity changes under an isometry', curve=cv, A=A, want=cont)
        for p, path in enumerate(paths):
            im = bm(A) * path
            want = [ref.blink(A, l) for l in fg[p]]
            cs = [ref.bcube(A, cv.div, c) for c in cv.pats[p][0]]
            if A[1]:
                want, cs = want[::-1], cs[::-1]
            expect(rpath(im) == (tuple(cs), tuple(want)), 'image of a path', curve=cv, A=A, pattern=p)
            expect(rlink(im.link) == ref.blink(A, ref.gates(cv, p)), 'global gates of the image path', curve=cv, A=A, pattern=p)
            expect(~(~path) == path, 'double reversal of a path', curve=cv, pattern=p)
        n += 1
    expect(accepts(~cu) == cont, 'continuity changes under time reversal', curve=cv, want=cont)
    if cont and sub:
        for k in range(1, sub + 1):
            expect(accepts(cu.get_subdivision(k)), 'subdivision of a continuous curve is not continuous', curve=cv, k=k)
            n += 1
    return n + 2


def corrupt(cv, rng):
    """small changes that may break continuity somewhere"""
    p = rng.randrange(len(cv.pats))
    cs, ss = map(list, cv.pats[p])
    i = rng.randrange(len(cs))
    r = rng.random()
    if r < .6:
        ss[i] = (ref.rnd_bm(rng, cv.dim), ss[i][1] if r < .4 else rng.randrange(len(cv.pats)))
    elif r < .8:
        j = rng.randrange(len(cs))
        cs[i], cs[j] = cs[j], cs[i]
    else:
        ss[-1] = (ref.rnd_bm(rng, cv.dim), ss[-1][1])
    return cv._replace(pats=cv.pats[:p] + ((tuple(cs), tuple(ss)),) + cv.pats[p + 1:])


def corp(seed, names, nvar, ncor, sub):
    def fn():
        rng = random.Random(seed)
        n = 0
        cs = load_corpus()
        for nm in names:
            for cv in [cs[nm]] + list(variants(cs[nm], rng, nvar)):
                expect(ref.is_continuous(cv), 'reference: corpus curve not continuous')
                n += check(cv, rng, sub)
                for _ in range(ncor):
                    n += check(corrupt(cv, rng), rng, sub, 1)
        return n
    return fn


def last_pair(seed, names):
    """corruption at every single position: exactly one consecutive pair broken"""
    def fn():
        rng = random.Random(seed)
        n = 0
        cs = load_corpus()
        for nm in names:
            cv = cs[nm]
            for p in range(len(cv.pats)):
                for i in range(len(cv.pats[p][1])):
                    cub, ss = map(list, cv.pats[p])
                    ss[i] = (ref.rnd_bm(rng, cv.dim), ss[i][1])
                    n += check(cv._replace(pats=cv.pats[:p] + ((tuple(cub), tuple(ss)),) + cv.pats[p + 1:]), rng, 0, 1)
        return n
    return fn


def rnd(seed, d, div, mult, cnt):
    def fn():
        rng = random.Random(seed)
        return sum(check(ref.rnd_curve(rng, d, div, mult), rng, 0) for _ in range(cnt))
    return fn


def pathlevel(seed, cnt=200):
    """Path.is_continuous on hand-made pointed paths: exit of one = entrance of the next, cubes any distance apart"""
    def fn():
        rng = random.Random(seed)
        n = 0
        for _ in range(cnt):
            d = rng.choice((1, 2, 3)); div = rng.choice((2, 3, 4)); L = rng.randint(2, 6)
            cubes = [tuple(rng.randrange(div) for _ in range(d)) for _ in range(L)]
            if rng.random() < .7:
                cubes = [tuple(min(div - 1, max(0, c + rng.randint(-1, 1))) for c in cubes[0]) for _ in range(L)]
            ls = []
            prev = None
            for i in range(L):
                e = tuple(F(rng.randint(0, 3), 3) for _ in range(d))
                if prev is not None and rng.random() < .85:
                    e = tuple(a + x - b for a, x, b in zip(cubes[i - 1], prev, cubes[i]))
                x = tuple(F(rng.choice((0, 1, 1, 2)), 2) for _ in range(d)) if rng.random() < .3 else tuple(F(rng.choice((0, 1))) for _ in range(d))
                ls.append((e, x)); prev = x
            want = all(tuple(a + x for a, x in zip(cubes[i], ls[i][1])) == tuple(a + x for a, x in zip(cubes[i + 1], ls[i + 1][0])) for i in range(L - 1))
            path = Path(Proto(d, div, cubes), [link(l) for l in ls])
            expect(bool(path.is_continuous()) == want, 'continuity of a path', cubes=cubes, links=ls, want=want)
            g = (tuple((c + x) / div for c, x in zip(cubes[0], ls[0][0])), tuple((c + x) / div for c, x in zip(cubes[-1], ls[-1][1])))
            expect(rlink(path.link) == g, 'global gates', cubes=cubes, links=ls)
            n += 2
        return n
    return fn


def cases(tier, seed, hints):
    k = 6 if tier == 'thorough' else 1
    out = []
    groups = [(('hilbert', 'beta_omega'), 4, 4, 2), (('ARW',), 4, 4, 2), (('peano', 'bauman', 'coil'), 2, 3, 1), (('ye', 'peano5'), 1, 3, 0), (('luna', 'neptunus'), 2, 3, 1), (('iupiter', 'spring'), 2, 3, 1),
              (('tokarev', 'haverkort_a26', 'haverkort_f'), 2, 3, 1), (('4d_facet_gated',), 1, 2, 0)]
    for i, g in enumerate(groups):
        for r in range(k):
            out.append(('corpus-%s-%d' % (g[0][0], r), corp(seed + i + 100 * r, *g)))
    out += [('single-%d' % i, last_pair(seed, ns)) for i, ns in enumerate([('hilbert', 'beta_omega', 'ARW'), ('peano', 'bauman'), ('luna', 'spring'), ('haverkort_f', 'tokarev')])]
    out += [('rnd-%d-%d-%d' % c[:3], rnd(seed, *c)) for c in [(1, 2, 1, 20), (1, 3, 2, 10), (2, 2, 1, 30), (2, 2, 3, 10), (2, 3, 2, 5), (3, 2, 2, 5)]]
    out += [('path-%d' % r, pathlevel(seed + r)) for r in range(2 * k)]
    return out
