"""C06 bounded oracle: deep specs and subdivisions."""
import random, itertools
import ref
from ref import expect, C
from api import bm, rbm, spec, rspec, curve, rcurve, load_corpus, variants, Curve

BOUND = 'random curves (dim<=4, div<=4, <=5 patterns), corpus curves and variants; nested addresses up to depth 12; subdivisions k=0..3 of all patterns, exhaustively compared'


def deep(cv, p, nums):
    s = (ref.ident(cv.dim), p)
    for c in nums:
        s = ref.frac_children(cv, s)[c][1]
    return s


def check(cv, rng, ks, nspec=40):
    cu = curve(cv)
    n = 0
    G = cv.div ** cv.dim
    for _ in range(nspec):
        p = rng.randrange(len(cv.pats))
        nums = [rng.choice((rng.randrange(G), 0, G - 1)) for _ in range(rng.choice((0, 1, 2, 3, 5, 12)))]
        arg = nums if rng.random() < .5 else tuple(nums)
        got = rspec(cu.get_deep_spec(p, arg))
        expect(got == deep(cv, p, nums), 'deep spec', curve=cv, pnum=p, cnums=nums, got=got, want=deep(cv, p, nums))
        # action of that spec gives the fraction
        im = ref.fractions(rcurve(spec(got) * cu), got[1], 1)
        S = deep(cv, p, nums)
        want = [(c, s) for c, s in ref.frac_children(cv, S)]
        expect([c for c, _ in im] == [c for c, _ in want], 'action of the deep spec does not give the fraction', curve=cv, pnum=p, cnums=nums)
        n += 2
    for k in ks:
        sub = rcurve(cu.get_subdivision(k))
        expect(sub.dim == cv.dim and sub.div == cv.div ** (k + 1) and sub.pnum == cv.pnum and len(sub.pats) == len(cv.pats), 'shape of subdivision', k=k, curve=cv)
        for p in range(len(cv.pats)):
            want = ref.fractions(cv, p, k + 1)
            have = list(zip(*sub.pats[p]))
            expect([c for c, _ in have] == [c for c, _ in want], 'cubes of subdivision', k=k, pnum=p, curve=cv)
            expect(have == want, 'orientations of subdivision', k=k, pnum=p, curve=cv, diff=[(a, b) for a, b in zip(have, want) if a != b][:2])
            n += len(want)
        expect(rcurve(cu) == cv, 'original changed by subdivision', curve=cv)
    expect(rcurve(cu.get_subdivision()) == rcurve(cu.get_subdivision(1)), 'default subdivision', curve=cv)
    return n


def rnd(seed, d, div, mult, cnt, ks):
    def fn():
        rng = random.Random(seed)
        return sum(check(ref.rnd_curve(rng, d, div, mult), rng, ks) for _ in range(cnt))
    return fn


def corp(seed, names, ks):
    def fn():
        rng = random.Random(seed)
        n = 0
        cs = load_corpus()
        for nm in names:
            for cv in [cs[nm]] + list(variants(cs[nm], rng, 2)):
                n += check(cv, rng, ks, 20)
        return n
    return fn


def cases(tier, seed, hints):
    k = 6 if tier == 'thorough' else 1
    conf = [(1, 2, 1, 8, (0, 1, 2, 3)), (1, 3, 2, 8, (0, 1, 2, 3)), (2, 2, 1, 8, (0, 1, 2, 3)), (2, 2, 3, 6, (0, 1, 2, 3)), (2, 3, 2, 5, (0, 1, 2)), (2, 4, 2, 3, (1,)),
            (3, 2, 1, 6, (0, 1, 2)), (3, 2, 5, 3, (1, 2)), (4, 2, 2, 2, (1,)), (3, 3, 2, 2, (1,)), (2, 5, 2, 2, (1,)), (2, 2, 11, 2, (1, 2))]
    out = [('rnd-%d-%d-%d-%d' % (d, dv, m, r), rnd(seed + i + 100 * r, d, dv, m, c, ks)) for i, (d, dv, m, c, ks) in enumerate(conf) for r in range(k)]
    for h in hints:
        if 2 <= h <= 12:
            out.append(('rnd-hint-div%d' % h, rnd(seed, 2, h, 2, 1, (1,))))
            out.append(('rnd-hint-mult%d' % h, rnd(seed, 2, 2, h, 1, (1,))))
        if 2 <= h <= 8:
            out.append(('rnd-hint-k%d' % h, rnd(seed, 1, 2, 2, 2, (h,))))
            out.append(('rnd-hint-dim%d' % h, rnd(seed, h, 2, 2, 1, (0,))))
    out += [('corpus-%d' % i, corp(seed, ns, ks)) for i, (ns, ks) in enumerate([
        (('hilbert', 'ARW', 'beta_omega'), (1, 2, 3)), (('peano', 'bauman', 'coil', 'r'), (1, 2)), (('ye',), (1,)), (('luna', 'neptunus'), (1, 2)), (('iupiter', 'spring'), (1,)), (('tokarev', 'haverkort_a26', 'haverkort_f'), (1,))])]
    return out
