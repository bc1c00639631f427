"""C18 bounded oracle: points, facet subsets and links as geometric sets."""
import random, itertools
from collections import Counter
from fractions import Fraction as F
import ref
from ref import expect
from api import bm, rbm, pt, fs, f, q, link, rlink, Point, Link, FacetDivSubset

BOUND = ('random rational points (dim<=6, also outside the unit cube where documented), all facet subsets of dim 2-4, div 2-4, nesting <=2 (random deeper ones), all / random isometries; '
         'sets represented as exact intervals per coordinate')


# a facet subset as a set: coordinate fixed + open intervals
def box(s):
    fc, fv = s.facet
    iv = []
    m = 0
    for j in range(s.dim):
        if j == fc:
            iv.append((F(fv), F(fv)))
        else:
            lo, h = F(0), F(1)
            for c in s.cubes:
                h /= s.div
                lo += c[m] * h
            iv.append((lo, lo + h))
            m += 1
    return tuple(iv)


def bbox(a, b):
    """image of a box under base map"""
    return tuple((1 - b[k][1], 1 - b[k][0]) if n else b[k] for k, n in a[0])


def meet(x, y):
    """do products of points / open intervals share a point"""
    for (a, b), (c, d) in zip(x, y):
        if a == b and c == d:
            if a != c:
                return False
        elif a == b:
            if not c < a < d:
                return False
        elif c == d:
            if not a < c < b:
                return False
        elif max(a, c) >= min(b, d):
            return False
    return True


def shift(x, v, k=1):
    return tuple(((a + t) * k, (b + t) * k) for (a, b), t in zip(x, v))


def rnd_facet(rng, dim, div, depth=None):
    depth = rng.choice((0, 0, 1, 1, 2, 3)) if depth is None else depth
    return FacetDivSubset(dim, div, (rng.randrange(dim), rng.randrange(2)), [tuple(rng.randrange(div) for _ in range(dim - 1)) for _ in range(depth)])


def rnd_pt(rng, d, unit=True):
    out = []
    for _ in range(d):
        den = rng.choice((1, 1, 2, 2, 3, 4, 5, 7, 12))
        out.append(F(rng.randint(0, den), den) if unit else F(rng.randint(-2 * den, 2 * den), den))
    return tuple(out)


def facets(seed, dim, div, cnt):
    def fn():
        rng = random.Random(seed)
        group = ref.all_bms(dim, False)
        n = 0
        allsub = []
        for fc in range(dim):
            for fv in (0, 1):
                for depth in (0, 1):
                    for cubes in itertools.product(itertools.product(range(div), repeat=dim - 1), repeat=depth):
                        allsub.append(FacetDivSubset(dim, div, (fc, fv), cubes))
        subs = allsub if len(allsub) <= 60 else rng.sample(allsub, 60)
        subs = subs + [rnd_facet(rng, dim, div) for _ in range(cnt)]
        for s in subs:
            B = box(s)
            for A in (group if len(group) <= 8 else rng.sample(group, 12)):
                im = bm(A) * s
                expect(isinstance(im, FacetDivSubset) and box(im) == bbox(A, B) and (im.dim, im.div) == (dim, div), 'image of a facet subset', s=str(s), A=A, got=str(im))
                n += 1
            for t in rng.sample(subs, min(20, len(subs))):
                expect(bool(s.intersects(t)) == meet(B, box(t)), 'facet subsets intersect', s=str(s), t=str(t))
                got = Counter(rbm(x) for x in s.argmul_intersect(t))
                want = Counter(A for A in group if meet(bbox(A, B), box(t)))
                expect(got == want, 'isometries making the image intersect', s=str(s), t=str(t), missing=list(want - got)[:1], extra=list(got - want)[:1])
                sub = rng.sample(group, min(6, len(group)))
                got = Counter(rbm(x) for x in s.argmul_intersect(t, bms=[bm(A) for A in sub]))
                expect(got == Counter(A for A in sub if meet(bbox(A, B), box(t))), 'argmul_intersect within given maps', s=str(s), t=str(t))
                expect((s == t) == (B == box(t)) and (s != t or hash(s) == hash(t)), 'equality of facet subsets', s=str(s), t=str(t))
                expect((s < t) + (t < s) + (s == t) == 1, 'facet subsets are totally ordered', s=str(s), t=str(t))
                n += 5
            # placing and dividing
            for _ in range(3):
                cube = [rng.randrange(div) for _ in range(dim)]
                cube[s.facet[0]] = 0 if s.facet[1] == 0 else div - 1
                m = s.map_to_cube(div, tuple(cube))
                expect(box(m) == shift(B, cube, F(1, div)), 'placing a facet subset into a cube', s=str(s), cube=cube, got=str(m))
                expect([(tuple(c), box(x)) for c, x in m.divide(div)] == [(tuple(cube), B)], 'dividing the placed subset gives it back', s=str(s), cube=cube)
                n += 2
            got = [(tuple(c), box(x)) for c, x in s.divide(div)]
            expect(len({c for c, _ in got}) == len(got), 'dividing lists a cube twice', s=str(s))
            want = {}
            for c in itertools.product(range(div), repeat=dim):
                # portion of S in the closed cube c/div: rescaled, interior of the facet cell
                cell = tuple((F(x, div), F(x + 1, div)) for x in c)
                port = []
                ok = True
                for (a, b), (l, h) in zip(B, cell):
                    if a == b:
                        if not l <= a <= h:
                            ok = False
                        port.append(((a - l) * div, (a - l) * div))
                    else:
                        x, y = max(a, l), min(b, h)
                        if x >= y:
                            ok = False
                        port.append(((x - l) * div, (y - l) * div))
                if ok:
                    want[c] = tuple(port)
            expect(dict(got) == want, 'dividing a facet subset', s=str(s), got=got[:3], want=list(want.items())[:3])
            got = [(tuple(c), box(x)) for c, x in s.gen_neighbours()]
            fc, fv = s.facet
            nb = tuple((1 if fv else -1) if j == fc else 0 for j in range(dim))
            expect(got == [(nb, shift(B, [-x for x in nb]))], 'neighbour cube of a facet subset', s=str(s), got=got)
            st = s.std()
            expect(st == min((bm(A) * s for A in group)) and any(bbox(A, B) == box(st) for A in group), 'standard form of a facet subset', s=str(s))
            A = rng.choice(group)
            expect((bm(A) * s).std() == st, 'standard form is the same for equivalent subsets', s=str(s), A=A)
            n += 5
        return n
    return fn


def pcubes(x):
    rg = []
    for v in x:
        k = v.numerator // v.denominator
        rg.append((k - 1, k) if v.denominator == 1 else (k,))
    return set(itertools.product(*rg))


def points(seed, cnt, dims):
    def fn():
        rng = random.Random(seed)
        n = 0
        for _ in range(cnt):
            d = rng.choice(dims)
            x = rnd_pt(rng, d)
            p = pt(x)
            A = ref.rnd_bm(rng, d, False)
            im = bm(A) * p
            expect(isinstance(im, Point) and fs(im) == ref.bx(A, x), 'image of a point', x=x, A=A, got=im)
            y = rnd_pt(rng, d) if rng.random() < .6 else x
            expect(bool(p.intersects(pt(y))) == (x == y), 'points intersect iff equal', x=x, y=y)
            sc, sh = F(rng.randint(-4, 9), rng.choice((1, 2, 3))), tuple(rng.choice((rng.randint(-3, 3), F(rng.randint(-5, 5), 3))) for _ in range(d))
            expect(fs(p.transform(scale=q(sc), shift=[q(v) for v in sh])) == tuple(a * sc + b for a, b in zip(x, sh)), 'transform: scale, then shift', x=x, scale=sc, shift=sh)
            expect(fs(p.transform(shift=[q(v) for v in sh])) == tuple(a + b for a, b in zip(x, sh)), 'transform: shift', x=x)
            expect(fs(p.transform(scale=q(sc))) == tuple(a * sc for a in x), 'transform: scale', x=x)
            ish = tuple(rng.randint(-3, 3) for _ in range(d))
            expect(fs(p.transform(shift=ish)) == tuple(a + b for a, b in zip(x, ish)), 'transform: integer shift', x=x)
            expect(fs(p) == x, 'transform does not change the point')
            div = rng.choice((2, 3, 4, 5, 7, 10))
            cube = tuple(rng.randrange(div) for _ in range(d))
            m = p.map_to_cube(div, cube)
            expect(fs(m) == tuple((a + c) / div for a, c in zip(x, cube)), 'placing a point into a cube', x=x, div=div, cube=cube)
            dv = [(tuple(c), fs(s)) for c, s in m.divide(div)]
            expect((cube, x) in dv, 'dividing the placed point gives it back', x=x, div=div, cube=cube)
            for base in (x, fs(m)):
                got = [(tuple(c), fs(s)) for c, s in pt(base).divide(div)]
                want = {(c, tuple(v * div - k for v, k in zip(base, c))) for c in pcubes(tuple(v * div for v in base)) if all(0 <= k < div for k in c)}
                expect(len(got) == len(want) and set(got) == want, 'dividing a point', x=base, div=div, got=got[:3])
            got = [(tuple(c), fs(s)) for c, s in p.gen_neighbours()]
            want = {(c, tuple(v - k for v, k in zip(x, c))) for c in pcubes(x) if any(c)}
            expect(len(got) == len(want) and set(got) == want, 'neighbour cubes of a point', x=x, got=got[:3])
            expect(p.face_dim() == sum(v not in (0, 1) for v in x), 'face dimension', x=x)
            st = p.std()
            expect(fs(st) == tuple(sorted(min(v, 1 - v) for v in x)), 'standard form of a point', x=x, got=st)
            expect((bm(A) * p).std() == st, 'standard form is the same for equivalent points', x=x, A=A)
            if d <= 4:
                got = Counter(rbm(b) for b in p.argstd())
                want = Counter(B for B in ref.all_bms(d, False) if ref.bx(B, x) == fs(st))
                expect(got == want, 'isometries to the standard form', x=x)
                ims = {ref.bx(B, x) for B in ref.all_bms(d, False)}
                expect(fs(st) in ims and fs(st) == min(ims), 'standard form is the smallest image', x=x)
                y = rnd_pt(rng, d) if rng.random() < .3 else ref.bx(ref.rnd_bm(rng, d), x)
                got = Counter(rbm(b) for b in p.argmul_intersect(pt(y)))
                expect(got == Counter(B for B in ref.all_bms(d, False) if ref.bx(B, x) == y), 'isometries carrying the point to another', x=x, y=y)
            n += 14
        return n
    return fn


def links(seed, cnt, dims):
    def fn():
        rng = random.Random(seed)
        n = 0
        for _ in range(cnt):
            d = rng.choice(dims)
            l = (rnd_pt(rng, d), rnd_pt(rng, d))
            if rng.random() < .35:
                # equal standard forms of entrance and exit
                l = (l[0], ref.bx(ref.rnd_bm(rng, d), l[0]))
            L = link(l)
            A = ref.rnd_bm(rng, d)
            expect(rlink(bm(A) * L) == ref.blink(A, l), 'image of a gate pair', l=l, A=A)
            expect(rlink(~L) == (l[1], l[0]), 'reversed gate pair', l=l)
            st = L.std()
            allim = {ref.blink(B, l) for B in ref.all_bms(d)}
            expect(rlink(st) in allim, 'standard form is a member of the class', l=l, got=rlink(st))
            expect(rlink(st) == min(allim), 'standard form is the smallest member', l=l, got=rlink(st), want=min(allim))
            expect((bm(A) * L).std() == st and (~L).std() == st, 'standard form is the same for equivalent gate pairs', l=l, A=A)
            m = (rnd_pt(rng, d), rnd_pt(rng, d)) if rng.random() < .3 else ref.blink(ref.rnd_bm(rng, d), l)
            M = link(m)
            got = Counter(rbm(b) for b in L.argmul_intersect(M))
            expect(got == Counter(B for B in ref.all_bms(d) if ref.blink(B, l) == m), 'isometries carrying a gate pair to another', l=l, m=m)
            expect(bool(L.intersects(M)) == (l == m), 'gate pairs intersect', l=l, m=m)
            expect((L == M) == (l == m) and (l != m or hash(L) == hash(M)) and (L < M) == (l < m), 'order and equality of gate pairs', l=l, m=m)
            sh = tuple(rng.randint(-3, 3) for _ in range(d))
            expect(rlink(L.transform(shift=sh)) == tuple(tuple(a + b for a, b in zip(x, sh)) for x in l), 'shifted gate pair', l=l)
            n += 9
        return n
    return fn


def flinks(seed, dim, div, cnt):
    def fn():
        rng = random.Random(seed)
        n = 0
        for _ in range(cnt):
            a, b, c, e = [rnd_facet(rng, dim, div, rng.choice((0, 0, 1))) for _ in range(4)]
            L, M = Link(a, b), Link(c, e)
            g = ref.all_bms(dim)
            B = lambda X: (box(X.entrance), box(X.exit))

            def im(A, l):
                x, y = bbox(A, l[0]), bbox(A, l[1])
                return (y, x) if A[1] else (x, y)
            A = ref.rnd_bm(rng, dim)
            expect(B(bm(A) * L) == im(A, B(L)), 'image of a facet link', A=A, L=str(L))
            got = Counter(rbm(x) for x in L.argmul_intersect(M))
            want = Counter(x for x in g if all(meet(p, r) for p, r in zip(im(x, B(L)), B(M))))
            expect(got == want, 'isometries making facet links intersect', L=str(L), M=str(M))
            expect(bool(L.intersects(M)) == all(meet(p, r) for p, r in zip(B(L), B(M))), 'facet links intersect', L=str(L), M=str(M))
            st = L.std()
            expect(any(im(x, B(L)) == B(st) for x in g), 'standard form of a facet link is in its class', L=str(L))
            expect((bm(A) * L).std() == st and (~L).std() == st, 'standard form is the same for equivalent facet links', L=str(L), A=A)
            n += 5
        return n
    return fn


def cases(tier, seed, hints):
    k = 8 if tier == 'thorough' else 1
    out = []
    for r in range(k):
        s = seed + 100 * r
        for dim, div in ((2, 2), (2, 3), (3, 2), (3, 3), (2, 4), (4, 2)):
            out.append(('facet-%d%d-%d' % (dim, div, r), facets(s + dim * 10 + div, dim, div, 30)))
        for i in range(4):
            out.append(('points-%d-%d' % (i, r), points(s + i, 250, (1, 2, 3, 4, 5, 6))))
            out.append(('links-%d-%d' % (i, r), links(s + i, 120, (1, 2, 2, 3, 3, 4) if i else (4,))))
        for dim, div in ((2, 2), (3, 2), (2, 3)):
            out.append(('flinks-%d%d-%d' % (dim, div, r), flinks(s + dim, dim, div, 60)))
    return out
