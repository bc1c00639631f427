"""C08 bounded oracle: junction enumeration."""
import random, itertools
from collections import Counter
import ref
from ref import expect, C
from api import bm, rbm, spec, rspec, curve, rcurve, load_corpus, variants, rjunc
from peano.curves import RegularJunction

BOUND = ('corpus curves and random gate-compatible variants (dim<=4, div<=5, <=5 patterns) and their images; junction sets and depths compared with the reference closure, '
         'which for small curves is itself cross-checked against the consecutive pairs of all fractions at depths 1..4; standard form on random pairs')


def raw_occurrences(cv, depth):
    """standardised junctions among consecutive fractions of exact depth (brute force)"""
    out = set()
    for p in range(len(cv.pats)):
        fr = ref.fractions(cv, p, depth)
        for (c1, s1), (c2, s2) in zip(fr, fr[1:]):
            out.add(ref.std_class(s1, s2, tuple(b - a for a, b in zip(c1, c2))))
    return out


def check(cv, brute=0):
    cu = curve(cv)
    want = ref.junctions_by_depth(cv, 200)
    js = list(cu.gen_regular_junctions())
    got = [(rjunc(j), j.depth) for j in js]
    cnt = Counter(j for j, _ in got)
    expect(max(cnt.values()) == 1, 'junction listed twice', curve=cv, j=[j for j, c in cnt.items() if c > 1][:1])
    for j in cnt:
        expect(j[0][1] <= j[1][1] and j[0][0][0] == ref.ident(cv.dim)[0], 'junction not in standard form', curve=cv, j=j)
    g = {}
    for j, d in got:
        k = ref.junction_class(j)
        g[k] = min(d, g.get(k, d))
    expect(set(g) == set(want), 'set of junctions', curve=cv, missing=list(set(want) - set(g))[:2], extra=list(set(g) - set(want))[:2])
    bad = [(j, g[j], want[j]) for j in g if g[j] != want[j]]
    expect(not bad, 'junction depth is not minimal', curve=cv, bad=bad[:3])
    expect(cu.get_depth() == max(d for _, d in got), 'curve depth', curve=cv, got=cu.get_depth(), want=max(d for _, d in got))
    expect(all(j.depth is not None and j.depth >= 1 for j in js), 'depth recorded', curve=cv)
    n = len(g) * 3
    if brute:
        seen = {}
        for d in range(1, brute + 1):
            for j in raw_occurrences(cv, d):
                seen.setdefault(j, d)
        expect(all(g.get(j) == d for j, d in seen.items()), 'junction occurring in the subdivision is missing or has a wrong depth', curve=cv,
               bad=[(j, d, g.get(j)) for j, d in seen.items() if g.get(j) != d][:2])
        expect(all(j in seen for j, d in g.items() if d <= brute), 'listed junction does not occur at its depth', curve=cv)
        n += len(seen)
    expect(all(j == k and hash(j) == hash(k) for j, k in zip(js, list(cu.gen_regular_junctions()))), 'second enumeration differs', curve=cv)
    aj = list(cu.gen_auto_junctions())
    expect([(rspec(j.spec1), rspec(j.spec2), tuple(j.delta_x), j.delta_t) for j in aj] ==
           [((ref.ident(cv.dim), p), (ref.ident(cv.dim), p), (0,) * cv.dim, 0) for p in range(len(cv.pats))], 'auto junctions', curve=cv)
    return n


def corp(seed, names, nvar, brute):
    def fn():
        rng = random.Random(seed)
        n = 0
        cs = load_corpus()
        for nm in names:
            for cv in [cs[nm]] + list(variants(cs[nm], rng, nvar)):
                n += check(cv, brute)
            A = ref.rnd_bm(rng, cv.dim)
            n += check(ref.apply(A, cv), 0)
        return n
    return fn


def std(seed, cnt=500):
    def fn():
        rng = random.Random(seed)
        for _ in range(cnt):
            d = rng.randint(1, 6)
            A, B = ref.rnd_bm(rng, d), ref.rnd_bm(rng, d)
            p, r = rng.randrange(4), rng.randrange(4)
            dx = tuple(rng.randint(-1, 1) for _ in range(d))
            j = RegularJunction(spec((A, p)), spec((B, r)), dx, depth=3)
            got = rjunc(j)
            s1, s2, dd = got
            expect(s1[1] <= s2[1], 'pattern numbers not ordered', A=A, B=B, p=p, r=r, dx=dx, got=got)
            expect(s1[0][0] == ref.ident(d)[0], 'first orientation not the identity', A=A, B=B, got=got)
            expect(j.depth == 3, 'depth kept')
            # same relative position: exists g with (g s1, g s2, g dx) = given pair or its time-reversed swap
            same = False
            for (a, pa), (b, pb), v in (((A, p), (B, r), dx), (((B[0], not B[1]), r), ((A[0], not A[1]), p), tuple(-x for x in dx))):
                g = ref.cubemap(a)
                if (ref.mul(g, s1[0]), s1[1]) == (a, pa) and (ref.mul(g, s2[0]), s2[1]) == (b, pb) and ref.bvec(g, dd) == v:
                    same = True
            expect(same, 'standardised junction is not the same relative position', A=A, B=B, p=p, r=r, dx=dx, got=got)
            # the reversed pair has the same standard form unless both directions are already standard
            k = RegularJunction(spec((A, p)), spec((B, r)), dx)
            expect(k == j and hash(k) == hash(j), 'equality ignores depth', A=A, B=B)
            if p != r or A[1] == B[1]:
                m = RegularJunction(~spec((B, r)), ~spec((A, p)), tuple(-x for x in dx))
                expect(m == j, 'pair and its time reversal get different standard forms', A=A, B=B, p=p, r=r, dx=dx)
        return cnt * 5
    return fn


def cases(tier, seed, hints):
    k = 8 if tier == 'thorough' else 1
    out = [('std-%d' % r, std(seed + r)) for r in range(2 * k)]
    groups = [(('hilbert',), 15, 4), (('beta_omega',), 15, 4), (('ARW',), 15, 4), (('peano', 'bauman'), 8, 3), (('coil', 'r', 'serpentine', 'meurthe', 'scepin_bauman'), 6, 2), (('ye', 'peano5'), 4, 2),
              (('luna',), 8, 2), (('neptunus',), 8, 2), (('spring',), 8, 2), (('iupiter',), 8, 2), (('tokarev', '3d_l1_best'), 6, 2), (('haverkort_a26', 'haverkort_f'), 6, 2), (('4d_facet_gated',), 2, 1)]
    for i, (ns, v, b) in enumerate(groups):
        for r in range(k):
            out.append(('corpus-%s-%d' % (ns[0], r), corp(seed + i + 1000 * r, ns, v, b)))
    return out
