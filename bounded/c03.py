"""C03 bounded oracle: text notations."""
import random, itertools
from fractions import Fraction as F
import ref
from ref import expect, LET
from api import bm, rbm, spec, rspec, q, qs, fs, f, pt, link, rlink, rproto, BaseMap, Spec, Proto, Point, Link, Curve, rcurve, load_corpus, curve
from peano.curves import Pattern

BOUND = ('base maps: every map of dims 1..5 and 1/8 of dim 6 (all of dim 6 in the thorough tier) - the notation has six letters; specs: pattern numbers 0..9; '
         'prototypes: random king-walk Hamiltonian prototypes and corpus; chain codes: random walks; points/gates: random rationals')


def bms(d, tr, part=None):
    def fn():
        n = 0
        for i, A in enumerate(ref.all_bms(d, tr)):
            if part and i % part[1] != part[0]:
                continue
            t = ref.bm_text(A)
            m = BaseMap.parse(t)
            expect(rbm(m) == A, 'parsed base map does not mean the images of basis vectors', text=t, got=rbm(m), want=A)
            expect(str(bm(A)) == t, 'text of base map', A=A, got=str(bm(A)), want=t)
            expect(BaseMap.parse(str(bm(A))) == bm(A), 'round trip', A=A)
            n += 3
        return n
    return fn


def specs(seed):
    def fn():
        rng = random.Random(seed)
        n = 0
        for d in (1, 2, 3, 4, 5, 6):
            L = ref.all_bms(d) if d <= 3 else [ref.rnd_bm(rng, d) for _ in range(60)]
            for A in L:
                for p in (range(10) if d <= 2 or rng.random() < .2 else (rng.randrange(10),)):
                    s = spec((A, p))
                    expect(rspec(Spec.parse(str(s))) == (A, p), 'spec round trip', A=A, p=p, text=str(s))
                    expect(rspec(Spec.parse('%d%s' % (p, ref.bm_text(A)))) == (A, p), 'spec meaning', A=A, p=p)
                    n += 2
                expect(rspec(Spec.parse(ref.bm_text(A))) == (A, 0), 'spec without pattern number', A=A)
                n += 1
        return n
    return fn


def king_path(rng, d, div):
    """random Hamiltonian king walk by randomised DFS with Warnsdorff order"""
    if div == 2:        # any two cubes are neighbours
        p = list(itertools.product(range(2), repeat=d))
        rng.shuffle(p)
        return p
    if d >= 4 or div ** d > 130:      # a randomly oriented snake
        p = [()]
        for _ in range(d):
            p = [c + (x,) for i, c in enumerate(p) for x in (range(div) if i % 2 == 0 else range(div - 1, -1, -1))]
        A = ref.rnd_bm(rng, d)
        p = [ref.bcube(A, div, c) for c in p]
        return p[::-1] if A[1] else p
    grid = set(itertools.product(range(div), repeat=d))
    deltas = [x for x in itertools.product((-1, 0, 1), repeat=d) if any(x)]
    for _ in range(200):
        cur = rng.choice(sorted(grid))
        path, left = [cur], set(grid) - {cur}
        while left:
            nb = [c for c in (tuple(a + b for a, b in zip(cur, x)) for x in deltas) if c in left]
            if not nb:
                break
            rng.shuffle(nb)
            nb.sort(key=lambda c: sum(tuple(a + b for a, b in zip(c, x)) in left for x in deltas) + rng.random())
            cur = nb[0]
            path.append(cur); left.discard(cur)
        if not left:
            return path
    return None


def code(cubes):
    out = []
    for a, b in zip(cubes, cubes[1:]):
        g = [LET[j] if y - x == 1 else LET[j].upper() for j, (x, y) in enumerate(zip(a, b)) if y != x]
        out.append(g[0] if len(g) == 1 else '(' + ''.join(g) + ')')
    return ''.join(out)


def protos(seed, dims, cnt):
    def fn():
        rng = random.Random(seed)
        n = 0
        for d, div in dims:
            for _ in range(cnt):
                p = king_path(rng, d, div)
                if p is None:
                    continue
                pr = Proto(d, div, p)
                t = str(pr)
                expect(t == code(p), 'chain code of prototype', cubes=p, got=t)
                back = Proto.parse(t)
                expect(rproto(back) == tuple(p) and back.dim == d and back.div == div, 'prototype round trip', cubes=p, text=t, got=rproto(back), dim=back.dim, div=back.div)
                expect(back == pr, 'round trip equality', cubes=p)
                n += 3
        return n
    return fn


def chains(seed, cnt=150):
    """parsing an arbitrary chain: steps are the listed shifts, normalised"""
    def fn():
        rng = random.Random(seed)
        n = 0
        while n < cnt:
            d = rng.choice((1, 2, 3, 4, 5, 6))
            div = rng.choice((2, 3, 4) if d <= 2 else (2, 3) if d <= 3 else (2,))
            p = king_path(rng, d, div)
            if p is None:
                continue
            off = tuple(rng.randint(-4, 4) for _ in range(d))
            # letters inside a group in any order
            txt = []
            for a, b in zip(p, p[1:]):
                g = [LET[j] if y - x == 1 else LET[j].upper() for j, (x, y) in enumerate(zip(a, b)) if y != x]
                rng.shuffle(g)
                txt.append(g[0] if len(g) == 1 and rng.random() < .8 else '(' + ''.join(g) + ')')
            got = Proto.parse(''.join(txt))
            expect(rproto(got) == tuple(p), 'parsed chain does not step by the listed shifts', text=''.join(txt), want=p, got=rproto(got))
            expect(got.dim == d and got.div == div, 'dim/div of the parsed chain', text=''.join(txt), dim=got.dim, div=got.div)
            n += 1
        return n
    return fn


def points(seed):
    def fn():
        rng = random.Random(seed)
        n = 0
        for _ in range(600):
            d = rng.randint(1, 7)
            a = tuple(F(rng.randint(-20, 20), rng.randint(1, 12)) for _ in range(d))
            b = tuple(F(rng.randint(-20, 20), rng.randint(1, 12)) for _ in range(d))
            if rng.random() < .2:
                b = tuple(F(rng.choice((0, 1))) for _ in range(d))
            p = pt(a)
            expect(fs(Point.parse(str(p))) == a, 'point round trip', a=a, text=str(p))
            expect(Point.parse(str(p)) == p, 'point round trip equality', a=a)
            txt = '(' + ','.join(str(x) for x in a) + ')'
            expect(fs(Point.parse(txt)) == a, 'point meaning', text=txt)
            l = link((a, b))
            expect(rlink(Link.parse_gates(str(l))) == (a, b), 'gates round trip', a=a, b=b, text=str(l))
            expect(Link.parse_gates(str(l)) == l, 'gates round trip equality', a=a, b=b)
            t2 = '(%s)->(%s)' % (','.join(map(str, a)), ','.join(map(str, b)))
            expect(rlink(Link.parse_gates(t2)) == (a, b), 'gates meaning', text=t2)
            n += 6
        return n
    return fn


def curves():
    def fn():
        n = 0
        for nm, cv in load_corpus().items():
            txt = [(code(cubes), ','.join('%d%s' % (s[1], ref.bm_text(s[0])) for s in ss)) for cubes, ss in cv.pats]
            for form in (txt, [(c, s.split(',')) for c, s in txt]):
                expect(rcurve(Curve.parse(form)).pats == cv.pats, 'parsed curve', curve=nm)
            for p in curve(cv).patterns:
                c, s = str(p).split('|')
                back = Pattern.parse(c.strip(), s.strip())
                expect(back == p, 'pattern round trip', curve=nm)
                n += 1
            n += 2
        return n
    return fn


def cases(tier, seed, hints):
    out = [('bm-d%d' % d, bms(d, None)) for d in (1, 2, 3, 4)]
    out += [('bm-d5-%s' % t, bms(5, t)) for t in (False, True)]
    k = 8
    for i in range(k if tier == 'thorough' else 1):
        for t in (False, True):
            out.append(('bm-d6-%s-%d' % (t, i), bms(6, t, ((i + seed) % k, k))))
    out += [('spec', specs(seed)), ('points', points(seed)), ('curves', curves())]
    out += [('proto-%d' % i, protos(seed + i, dims, 12)) for i, dims in enumerate([[(1, 2), (1, 7), (2, 2)], [(2, 3), (2, 4), (2, 5)], [(2, 7), (2, 12)], [(3, 2), (3, 3)], [(4, 2), (5, 2)], [(6, 2), (4, 3)]])]
    out += [('chain-%d' % i, chains(seed + 50 + i)) for i in range(8 if tier == 'thorough' else 3)]
    hd = [h for h in hints if 2 <= h <= 40]
    if hd:
        out.append(('proto-hint', protos(seed, [(2, h) for h in hd[:6]] + [(1, h) for h in hd[:6]], 2)))
    return out
