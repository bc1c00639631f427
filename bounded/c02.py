"""C02 bounded oracle: enumerations of base maps against brute force."""
import random, itertools
from collections import Counter
from fractions import Fraction as F
import ref
from ref import expect
from api import bm, rbm, qs, BaseMap, Q

BOUND = 'gen_base_maps: dims 1..5 with each time option, exhaustively (dim 6 in the thorough tier); gen_constraint_fast: all pairs of points over {0,1/3,1/2,2/3,1}^d for d<=2, random pairs of d<=5 biased to coincident/complementary coordinates'


def gen_all(d, tr, twice=False):
    def fn():
        want = set(ref.all_bms(d, tr))
        for _ in range(2):
            got = [rbm(m) for m in (BaseMap.gen_base_maps(d) if tr is None else BaseMap.gen_base_maps(d, time_rev=tr))]
            c = Counter(got)
            expect(len(c) == len(got), 'repeated base map', dim=d, time_rev=tr, dup=[k for k, v in c.items() if v > 1][:2])
            expect(set(c) == want, 'enumeration incomplete or with extra maps', dim=d, time_rev=tr,
                   missing=list(want - set(c))[:2], extra=list(set(c) - want)[:2])
        return 2 * len(want)
    return fn


def check_pair(src, dst, bms):
    got = [rbm(m) for m in BaseMap.gen_constraint_fast(qs(src), qs(dst))]
    c = Counter(got)
    want = {A for A in bms if ref.bx(A, src) == tuple(dst)}
    expect(len(c) == len(got), 'repeated map', src=src, dst=dst)
    expect(set(c) == want, 'constrained enumeration wrong', src=src, dst=dst, missing=list(want - set(c))[:2], extra=list(set(c) - want)[:2])
    return 1 + len(want)


VALS = [F(0), F(1, 3), F(1, 2), F(2, 3), F(1)]


def constr_all(d):
    def fn():
        bms = ref.all_bms(d, False)
        return sum(check_pair(s, t, bms) for s in itertools.product(VALS, repeat=d) for t in itertools.product(VALS, repeat=d))
    return fn


def constr_rnd(d, seed, cnt, vals):
    def fn():
        rng = random.Random(seed * 31 + d)
        bms = ref.all_bms(d, False)
        n = 0
        for _ in range(cnt):
            src = tuple(rng.choice(vals) for _ in range(d))
            if rng.random() < .75:
                dst = ref.bx(rng.choice(bms), src)
                if rng.random() < .15:
                    dst = list(dst); dst[rng.randrange(d)] = rng.choice(vals); dst = tuple(dst)
            else:
                dst = tuple(rng.choice(vals) for _ in range(d))
            n += check_pair(src, dst, bms)
        return n
    return fn


V2 = [F(0), F(1), F(1, 2)]
V3 = [F(1, 4), F(3, 4), F(1, 2), F(-1, 2), F(3, 2), F(2, 5), F(3, 5), F(7)]


def cases(tier, seed, hints):
    out = []
    for d in (1, 2, 3, 4, 5) + ((6,) if tier == 'thorough' or 6 in hints else ()):
        for tr in (None, True, False):
            out.append(('all-d%d-%s' % (d, tr), gen_all(d, tr)))
    out += [('constr-all-d%d' % d, constr_all(d)) for d in (1, 2)]
    k = 10 if tier == 'thorough' else 1
    for nm, v in (('v', VALS), ('half', V2), ('far', V3)):
        for d, c in ((3, 400), (4, 80), (5, 6)):
            out.append(('constr-%s-d%d' % (nm, d), constr_rnd(d, seed, c * k, v)))
    return out
