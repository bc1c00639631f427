"""C05 bounded oracle: actions on curves, against the images of fractions at depths 1..3."""
import random, itertools
import ref
from ref import expect, C
from api import (bm, rbm, spec, rspec, curve, rcurve, rawpats, load_corpus, variants, paths_of, rpath, rlink, rproto,
                 BaseMap, Spec, Curve, FuzzyCurve, PathFuzzyCurve, Proto, Path)

BOUND = ('random (not necessarily continuous) curves with dim<=4, div<=4, up to 5 patterns, corpus curves and their gate-compatible variants; '
         'base maps: all of dims 1,2, random above; fractions compared at depths 1..3; partly specified curves')


def image_fractions(A, cv, p, depth):
    """images of the fractions of cv under A in the new time order"""
    out = []
    for cube, s in ref.fractions(cv, p, depth):
        # orientation: as a map applied to the *original* curve, the fraction of A*f over the image cube is A s f
        out.append((ref.bcube(A, cv.div ** depth, cube), (ref.mul((A[0], False), s[0]), s[1])))
    return out[::-1] if A[1] else out


def check_image(A, cv, got, pnum, depths):
    """got = plain image curve; its fractions, seen as maps of the original curve, are the images"""
    n = 0
    ident = ref.ident(cv.dim)
    for p in range(len(cv.pats)):
        for depth in depths:
            want = image_fractions(A, cv, p, depth)
            have = ref.fractions(got, p, depth)
            # have specs are maps of the image curve; image curve = A * original, so fraction = s * A * f.
            # A time reversal of the whole keeps the time direction inside fractions (s reverses iff s_orig does)
            hv = [(c, (ref.mul(s[0], (A[0], False)), s[1])) for c, s in have]
            wt = [(c, s) for c, s in want]
            expect([c for c, _ in hv] == [c for c, _ in wt], 'cubes/visiting order of the image', A=A, curve=cv, pattern=p, depth=depth)
            expect(hv == wt, 'orientation of fractions of the image', A=A, curve=cv, pattern=p, depth=depth,
                   diff=[(a, b) for a, b in zip(hv, wt) if a != b][:2])
            n += len(wt)
    expect(got.pnum == pnum, 'selected pattern', A=A, curve=cv, got=got.pnum, want=pnum)
    return n


def rnd(seed, d, div, mult, cnt, depths=(1, 2)):
    def fn():
        rng = random.Random(seed)
        n = 0
        for _ in range(cnt):
            cv = ref.rnd_curve(rng, d, div, mult)
            cu = curve(cv)
            expect(rcurve(cu) == cv, 'constructor', curve=cv)
            bms = ref.all_bms(d) if d <= 2 and cnt <= 3 else [ref.rnd_bm(rng, d) for _ in range(6)] + [ref.ident(d), (ref.ident(d)[0], True)]
            for A in bms:
                im = bm(A) * cu
                n += check_image(A, cv, rcurve(im), cv.pnum, depths)
                expect(rcurve(cu) == cv, 'the original curve was changed', A=A, curve=cv)
                pn = rng.randrange(mult)
                n += check_image(A, cv, rcurve(spec((A, pn)) * cu), pn, (1,))
                B = rng.choice(bms)
                expect(rcurve(bm(A) * (bm(B) * cu)) == rcurve((bm(A) * bm(B)) * cu), 'product does not act as composition', A=A, B=B, curve=cv)
                p2 = rng.randrange(mult)
                expect(rcurve(spec((A, pn)) * (spec((B, p2)) * cu)) == rcurve((spec((A, pn)) * spec((B, p2))) * cu), 'product of specs does not act as composition', A=A, B=B, pn=pn, p2=p2, curve=cv)
                expect(rcurve(spec((A, pn)) * (bm(B) * cu)) == rcurve((spec((A, pn)) * bm(B)) * cu), 'spec*map', A=A, B=B, curve=cv)
                expect(rcurve(bm(A) * (spec((B, p2)) * cu)) == rcurve((bm(A) * spec((B, p2))) * cu), 'map*spec', A=A, B=B, curve=cv)
                n += 4
            tr = ~cu
            n += check_image((ref.ident(d)[0], True), cv, rcurve(tr), cv.pnum, depths)
            expect(rcurve(~tr) == cv and ~tr == cu, 'double time reversal is not neutral', curve=cv)
            for p in range(mult):
                expect(rcurve(Spec(BaseMap.id_map(d), p) * cu) == cv._replace(pnum=p), 'pattern selection', curve=cv, p=p)
        return n
    return fn


def specalg(seed):
    def fn():
        rng = random.Random(seed)
        n = 0
        for _ in range(600):
            d = rng.randint(1, 6)
            A, B = ref.rnd_bm(rng, d), ref.rnd_bm(rng, d)
            p, r = rng.randrange(12), rng.randrange(12)
            S, T = spec((A, p)), spec((B, r))
            expect(rspec(S * T) == (ref.mul(A, B), p), 'spec product', A=A, B=B)
            expect(rspec(S * bm(B)) == (ref.mul(A, B), p), 'spec * map', A=A, B=B)
            expect(rspec(bm(A) * T) == (ref.mul(A, B), r), 'map * spec', A=A, B=B)
            expect(rspec(~S) == ((A[0], not A[1]), p), 'spec time reversal', A=A)
            expect(rspec(S.conjugate_by(bm(B))) == (ref.mul(ref.mul(B, A), ref.inv(B)), p), 'spec conjugation', A=A, B=B)
            expect((S == T) == ((A, p) == (B, r)), 'spec equality', A=A, B=B)
            expect(S == spec((A, p)) and hash(S) == hash(spec((A, p))), 'spec hash', A=A)
            expect(S != spec((A, p + 1)) and S != ~S, 'spec inequality', A=A)
            n += 8
        return n
    return fn


def fuzzy(seed, cnt=12):
    """partly specified curves: None specs and None cubes"""
    def fn():
        rng = random.Random(seed)
        n = 0
        for _ in range(cnt):
            d, div = rng.choice(((1, 3), (2, 2), (2, 3), (3, 2)))
            mult = rng.randint(1, 4)
            cv = ref.rnd_curve(rng, d, div, mult)
            pats = tuple((tuple(c if rng.random() < .8 else None for c in cs), tuple(s if rng.random() < .5 else None for s in ss)) for cs, ss in cv.pats)
            cv = cv._replace(pats=pats)
            fc = FuzzyCurve(dim=d, div=div, patterns=rawpats(cv), pnum=cv.pnum)
            for _ in range(6):
                A = ref.rnd_bm(rng, d)
                want = ref.apply(A, cv)
                expect(rcurve(bm(A) * fc) == want, 'image of a partly specified curve', A=A, curve=cv, got=rcurve(bm(A) * fc), want=want)
                pn = rng.randrange(mult)
                expect(rcurve(spec((A, pn)) * fc) == want._replace(pnum=pn), 'spec image of a partly specified curve', A=A, curve=cv)
                expect(rcurve(fc) == cv, 'original changed', curve=cv)
                n += 3
            expect(rcurve(~fc) == ref.apply((ref.ident(d)[0], True), cv), 'time reversal of a partly specified curve', curve=cv)
            expect(rcurve(~~fc) == cv, 'double reversal', curve=cv)
        return n
    return fn


def pathfuzzy(seed, names):
    """pointed fuzzy curves keep type and images under the actions, with some specs fixed"""
    def fn():
        rng = random.Random(seed)
        n = 0
        corp = load_corpus()
        for nm in names:
            cv = corp[nm]
            comp = ref.compatible_specs(cv)
            fc = PathFuzzyCurve.init_from_paths(paths_of(cv))
            for _ in range(4):
                p = rng.randrange(len(cv.pats)); c = rng.randrange(len(comp[p]))
                fc = fc.specify(p, c, spec(rng.choice(comp[p][c]))) if rcurve(fc).pats[p][1][c] is None else fc
            base = rcurve(fc)
            for _ in range(5):
                A = ref.rnd_bm(rng, cv.dim); B = ref.rnd_bm(rng, cv.dim)
                im = bm(A) * fc
                expect(rcurve(im) == ref.apply(A, base), 'image of a pointed fuzzy curve', curve=nm, A=A)
                expect(rcurve(fc) == base, 'original changed', curve=nm)
                a1 = bm(B) * im; a2 = (bm(B) * bm(A)) * fc
                expect(rcurve(a1) == rcurve(a2), 'composition', curve=nm, A=A, B=B)
                for p in range(len(cv.pats)):
                    for c in range(len(comp[p])):
                        s1 = {rspec(s) for s in a1.gen_allowed_specs(p, c)}
                        expect(s1 == {rspec(s) for s in a2.gen_allowed_specs(p, c)}, 'allowed specs after composition', curve=nm, A=A, B=B, p=p, c=c)
                n += 3
            expect(rcurve(~~fc) == base, 'double reversal', curve=nm)
        return n
    return fn


def equality(seed, cnt=40):
    def fn():
        rng = random.Random(seed)
        n = 0
        for _ in range(cnt):
            d, div = rng.choice(((1, 2), (2, 2), (2, 3), (3, 2)))
            mult = rng.randint(1, 3)
            cv = ref.rnd_curve(rng, d, div, mult)
            a, b = curve(cv), curve(cv)
            expect(a == b and hash(a) == hash(b) and not (a != b), 'equal curves', curve=cv)
            # every single difference makes them unequal
            muts = []
            if mult > 1:
                muts.append(cv._replace(pnum=(cv.pnum + 1) % mult))
            for p in range(mult):
                cs, ss = cv.pats[p]
                i = rng.randrange(len(ss))
                s = ss[i]
                for s2 in ((s[0], (s[1] + 1) % mult), ((s[0][0], not s[0][1]), s[1]), (ref.mul(s[0], (((0, True),) + ref.ident(d)[0][1:], False)), s[1])):
                    if s2 != s:
                        muts.append(cv._replace(pats=cv.pats[:p] + ((cs, ss[:i] + (s2,) + ss[i + 1:]),) + cv.pats[p + 1:]))
                j = rng.randrange(len(cs) - 1)
                cs2 = cs[:j] + (cs[j + 1], cs[j]) + cs[j + 2:]
                muts.append(cv._replace(pats=cv.pats[:p] + ((cs2, ss),) + cv.pats[p + 1:]))
            for m in muts:
                o = curve(m)
                expect(not (a == o), 'different curves compare equal', a=cv, b=m)
                expect(bool(a != o), 'different curves do not compare unequal', a=cv, b=m)
                n += 1
            n += 1
        return n
    return fn


def corpus(seed, names, depths):
    def fn():
        rng = random.Random(seed)
        n = 0
        corp = load_corpus()
        for nm in names:
            for cv in [corp[nm]] + list(variants(corp[nm], rng, 1)):
                cu = curve(cv)
                for A in [ref.rnd_bm(rng, cv.dim) for _ in range(3)]:
                    n += check_image(A, cv, rcurve(bm(A) * cu), cv.pnum, depths)
                    expect(rcurve(cu) == cv, 'original changed', curve=nm)
        return n
    return fn


def protos(seed):
    def fn():
        rng = random.Random(seed)
        n = 0
        for _ in range(150):
            d, div = rng.choice(((1, 4), (2, 2), (2, 3), (3, 2), (2, 5), (4, 2)))
            cs = list(itertools.product(range(div), repeat=d)); rng.shuffle(cs)
            A, B = ref.rnd_bm(rng, d), ref.rnd_bm(rng, d)
            pr = Proto(d, div, cs)
            want = [ref.bcube(A, div, c) for c in cs]
            want = tuple(want[::-1] if A[1] else want)
            im = bm(A) * pr
            expect(rproto(im) == want and im.dim == d and im.div == div, 'image of prototype', A=A, cubes=cs)
            expect(rproto(~pr) == tuple(cs[::-1]), 'reversed prototype', cubes=cs)
            expect(bm(B) * im == (bm(B) * bm(A)) * pr, 'composition on prototypes', A=A, B=B, cubes=cs)
            n += 3
        return n
    return fn


def cases(tier, seed, hints):
    out = []
    conf = [(1, 2, 1, 6, (1, 2, 3)), (1, 3, 2, 6, (1, 2, 3)), (2, 2, 1, 3, (1, 2, 3)), (2, 2, 2, 3, (1, 2, 3)), (2, 2, 5, 6, (1, 2)), (2, 3, 2, 6, (1, 2)),
            (2, 4, 3, 4, (1, 2)), (3, 2, 1, 6, (1, 2)), (3, 2, 3, 6, (1, 2)), (4, 2, 2, 3, (1,)), (5, 2, 1, 1, (1,)), (3, 3, 2, 2, (1,)), (2, 2, 11, 2, (1,))]
    k = 5 if tier == 'thorough' else 1
    for i, (d, dv, m, c, dp) in enumerate(conf):
        for r in range(k):
            out.append(('rnd-%d-%d-%d-%d' % (d, dv, m, r), rnd(seed + i + 1000 * r, d, dv, m, c, dp)))
    for h in hints:
        if 2 <= h <= 15:
            out.append(('rnd-hint-div%d' % h, rnd(seed, 2, h, 2, 1, (1,))))
            out.append(('rnd-hint-mult%d' % h, rnd(seed, 2, 2, h, 1, (1,))))
    out += [('specalg', specalg(seed)), ('protos', protos(seed))]
    out += [('fuzzy-%d' % r, fuzzy(seed + r)) for r in range(2 * k)]
    out += [('eq-%d' % r, equality(seed + r)) for r in range(k)]
    out += [('pathfuzzy-%d' % i, pathfuzzy(seed, ns)) for i, ns in enumerate([('hilbert', 'ARW'), ('beta_omega', 'bauman'), ('coil',), ('ye',), ('haverkort_f',), ('luna',), ('spring',)])]
    out += [('corpus-%d' % i, corpus(seed, ns, (1, 2))) for i, ns in enumerate([('hilbert', 'ARW', 'beta_omega', 'peano', 'bauman'), ('coil', 'ye', 'r', 'peano5'), ('luna', 'neptunus', 'iupiter'), ('tokarev', 'haverkort_a26', 'haverkort_f', 'spring', '3d_l1_best')])]
    return out
