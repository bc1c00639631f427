"""C07 bounded oracle: entrance, exit, face moments."""
import random, itertools
from fractions import Fraction as F
import ref
from ref import expect, C
from api import bm, rbm, spec, rspec, curve, rcurve, load_corpus, variants, fs, f, FuzzyCurve, rawpats

BOUND = 'random curves (dim<=4, div<=5, <=6 patterns) and corpus curves with variants; all 3^d faces (incl. whole cube), first and last, every pattern; moments also checked against depth-2/3 interval enumeration'


def bracket(cv, face, p, last, depth):
    """independent bracket: interval of the first/last touching fraction at the given depth"""
    fr = ref.fractions(cv, p, depth)
    D = cv.div ** depth
    idx = [i for i, (c, _) in enumerate(fr) if ref.touches(c, face, D)]
    i = idx[-1] if last else idx[0]
    return F(i, len(fr)), F(i + 1, len(fr)), tuple(F(x, D) for x in fr[i][0]), F(1, D)


def check(cv, rng, faces=None, depth=2):
    cu = curve(cv)
    n = 0
    allf = list(itertools.product((0, 1, None), repeat=cv.dim))
    use = allf if faces is None or len(allf) <= faces else rng.sample(allf, faces)
    for p in range(len(cv.pats)):
        for got, which, nm in ((cu.get_entrance(p), 0, 'entrance'), (cu.get_exit(p), -1, 'exit')):
            expect(fs(got) == ref.limit(cv, p, which), nm, curve=cv, pnum=p, got=fs(got), want=ref.limit(cv, p, which))
            n += 1
        for face in use:
            for last in (False, True):
                t, x = ref.face_moment(cv, face, p, last)
                got = cu.get_face_moment(face, p, last)
                expect(f(got) == t, 'face moment', curve=cv, pnum=p, face=face, last=last, got=f(got), want=t)
                cp = cu.get_face_moment(face, pnum=p, last=last, find_point=True)
                expect(f(cp.t) == t and fs(cp.x) == x, 'face point', curve=cv, pnum=p, face=face, last=last, got=(f(cp.t), fs(cp.x)), want=(t, x))
                expect(all(e is None or xi == e for xi, e in zip(fs(cp.x), face)), 'point not on the face', curve=cv, pnum=p, face=face, last=last)
                n += 3
                if rng.random() < .3:
                    lo, hi, c, w = bracket(cv, face, p, last, depth)
                    expect(lo <= t <= hi and all(a <= b <= a + w for a, b in zip(c, x)), 'moment outside the first/last touching fraction', curve=cv, pnum=p, face=face, last=last, t=t)
                    n += 1
        vm = cu.get_vertex_moments(p)
        vs = list(itertools.product((0, 1), repeat=cv.dim))
        expect(sorted(vm) == vs, 'vertices', curve=cv)
        for v in vs:
            expect(f(vm[v]) == ref.face_moment(cv, v, p, False)[0], 'vertex moment', curve=cv, pnum=p, v=v, got=f(vm[v]))
            n += 1
    p = cv.pnum
    expect(fs(cu.get_entrance()) == ref.limit(cv, p, 0) and fs(cu.get_exit()) == ref.limit(cv, p, -1), 'default pattern entrance/exit', curve=cv)
    fc = rng.choice(allf)
    expect(f(cu.get_face_moment(fc)) == ref.face_moment(cv, fc, p)[0], 'default pattern face moment', curve=cv, face=fc)
    expect({k: f(v) for k, v in cu.get_vertex_moments().items()} == {v: ref.face_moment(cv, v, p)[0] for v in vs}, 'default pattern vertex moments', curve=cv)
    A = ref.rnd_bm(rng, cv.dim)
    im = bm(A) * cu
    g = ref.blink(A, ref.gates(cv, p))
    expect((fs(im.get_entrance()), fs(im.get_exit())) == g, 'gates of the image', curve=cv, A=A)
    return n + 4


def partial(seed, cnt=20):
    """entrance/exit of partly specified curves need the first/last cubes and specs only"""
    def fn():
        rng = random.Random(seed)
        n = 0
        for _ in range(cnt):
            d, div = rng.choice(((1, 3), (2, 2), (2, 3), (3, 2), (2, 5)))
            mult = rng.randint(1, 4)
            cv = ref.rnd_curve(rng, d, div, mult)
            keep = lambda xs: tuple(x if i in (0, len(xs) - 1) else None for i, x in enumerate(xs))
            pv = cv._replace(pats=tuple((keep(c), keep(s)) for c, s in cv.pats))
            fc = FuzzyCurve(dim=d, div=div, patterns=rawpats(pv), pnum=pv.pnum)
            for p in range(mult):
                expect(fs(fc.get_entrance(p)) == ref.limit(cv, p, 0), 'entrance of a partly specified curve', curve=pv, p=p)
                expect(fs(fc.get_exit(p)) == ref.limit(cv, p, -1), 'exit of a partly specified curve', curve=pv, p=p)
                n += 2
        return n
    return fn


def rnd(seed, d, div, mult, cnt, faces=None, depth=2):
    def fn():
        rng = random.Random(seed)
        return sum(check(ref.rnd_curve(rng, d, div, mult), rng, faces, depth) for _ in range(cnt))
    return fn


def corp(seed, names, faces=None):
    def fn():
        rng = random.Random(seed)
        n = 0
        cs = load_corpus()
        for nm in names:
            for cv in [cs[nm]] + list(variants(cs[nm], rng, 2)):
                n += check(cv, rng, faces)
        return n
    return fn


def cases(tier, seed, hints):
    k = 6 if tier == 'thorough' else 1
    conf = [(1, 2, 1, 10), (1, 3, 3, 10), (2, 2, 1, 10), (2, 2, 4, 6), (2, 3, 1, 8), (2, 3, 3, 5), (2, 5, 2, 3), (3, 2, 1, 5), (3, 2, 4, 3), (3, 3, 1, 2), (4, 2, 1, 2), (2, 2, 6, 4), (2, 2, 11, 2)]
    out = [('rnd-%d-%d-%d-%d' % (d, dv, m, r), rnd(seed + i + 100 * r, d, dv, m, c)) for i, (d, dv, m, c) in enumerate(conf) for r in range(k)]
    for h in hints:
        if 2 <= h <= 12:
            out.append(('rnd-hint-div%d' % h, rnd(seed, 2, h, 2, 1, depth=1)))
            out.append(('rnd-hint-mult%d' % h, rnd(seed, 2, 2, h, 1, depth=1)))
        if 2 <= h <= 7:
            out.append(('rnd-hint-dim%d' % h, rnd(seed, h, 2, 1, 1, 30, depth=1)))
    out += [('partial-%d' % r, partial(seed + r)) for r in range(k)]
    out += [('corpus-%d' % i, corp(seed, ns, fc)) for i, (ns, fc) in enumerate([
        (('hilbert', 'ARW', 'beta_omega', 'peano'), None), (('bauman', 'coil', 'r', 'ye', 'peano5', 'scepin_bauman', 'meurthe', 'serpentine'), None), (('luna', 'neptunus'), None), (('iupiter', 'spring'), 12),
        (('tokarev', 'haverkort_a26', 'haverkort_f', '3d_l1_best'), None), (('4d_facet_gated',), 30)])]
    return out
