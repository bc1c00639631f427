"""C13 bounded oracle: bounds of a pair of fractions, division of a pair (internal interfaces of the estimator)."""
import random, itertools
from collections import Counter, namedtuple
from fractions import Fraction as F
import ref, refdil
from ref import expect, C
from api import curve, rspec, load_corpus, variants, paths_of, spec, f, fs, q, METRICS, bm
import peano.dilation as dil
from peano.curves import PathFuzzyCurve, RegularJunction

BOUND = ('corpus curves and random continuous / non-continuous curves (dim<=4, div<=5, <=5 patterns): all first-order pairs of every junction and random descents to depth 7; '
         'ratios l1, l2, l2_squared, linf and weighted monotone ones; suprema bracketed by branch-and-bound on exact positions')


def weighted(ws):
    def r(d, dx, dt):
        return sum(abs(x) * w for x, w in zip(dx, ws)) ** d * q(1) / dt
    return r


def rweighted(ws):
    def r(d, dx, dt):
        return F(sum(abs(F(x)) * w for x, w in zip(dx, ws)) ** d) / F(dt)
    return r


def child(cv, sp, i):
    return ref.frac_children(cv, sp)[i]


def locate(cv, pnum, cnums):
    """(integer cube, integer time, spec) of the nested fraction in the pattern"""
    sp, x, t = (ref.ident(cv.dim), pnum), (0,) * cv.dim, 0
    G = cv.div ** cv.dim
    cubes = []
    for c in cnums:
        cube, sp = child(cv, sp, c)
        cubes.append(cube)
        x = tuple(a * cv.div + b for a, b in zip(x, cube))
        t = t * G + c
    return cubes, x, t, sp


def place(cv, jsp, cnums):
    """absolute cell of the nested fraction in the junction frame: (integer cube, integer time, spec, depth)"""
    cubes, x, t, sp = locate(cv, jsp[1], cnums)
    k = len(cnums)
    bmj = jsp[0]
    X = ref.bcube(bmj, cv.div ** k, x)
    T = (cv.div ** cv.dim) ** k - 1 - t if bmj[1] else t
    return X, T, (ref.mul(bmj, sp[0]), sp[1]), k


class Pair:
    """exact pair in the junction frame; scale: depth of the first"""
    def __init__(self, cv, j, c1, c2):
        self.cv = cv
        s1, s2, dx, dt = j
        X1, T1, S1, k1 = place(cv, s1, c1)
        X2, T2, S2, k2 = place(cv, s2, c2)
        N, G = cv.div, cv.div ** cv.dim
        self.a = (tuple(F(x, N ** k1) for x in X1), F(1, N ** k1), F(T1, G ** k1), F(1, G ** k1), S1)
        self.b = (tuple(F(x, N ** k2) + y for x, y in zip(X2, dx)), F(1, N ** k2), F(T2, G ** k2) + dt, F(1, G ** k2), S2)


def box(a, b):
    """(max |dx| per coordinate, min dt, max dt) of two cells"""
    (x, h, t, g, _), (y, l, u, m, _) = a, b
    mx = [max(abs(p + h - r), abs(r + l - p)) for p, r in zip(x, y)]
    return mx, u - t - g, u + m - t


def sub(cv, a):
    x, h, t, g, sp = a
    N, G = cv.div, cv.div ** cv.dim
    return [(tuple(p + c * h / N for p, c in zip(x, cube)), h / N, t + i * g / G, g / G, s) for i, (cube, s) in enumerate(ref.frac_children(cv, sp))]


def sup_at_least(cv, a, b, val, ratio, limit=3000):
    """False only if the supremum over the pair is provably < val"""
    cur = [(a, b)]
    n = 0
    while cur:
        nxt = []
        for p, r in cur:
            mx, lo, up = box(p, r)
            if ratio(cv.dim, mx, up) >= val:
                return True                      # attained: the far faces are met by both fractions
            if lo <= 0 or ratio(cv.dim, mx, lo) >= val:
                nxt.append((p, r))
        n += len(nxt)
        if n > limit:
            return True                          # not decided within the limit
        cur = []
        for p, r in nxt:
            if p[1] >= r[1]:
                cur += [(s, r) for s in sub(cv, p)]
            else:
                cur += [(p, s) for s in sub(cv, r)]
    return False


def rj(j):
    return (rspec(j.spec1), rspec(j.spec2), fs(j.delta_x), f(j.delta_t))


def check_bounds(cv, est, ratio, pair, rng, conts, pts=None, ppts=None):
    j = rj(pair.junc)
    for pos, s in ((pair.pos1, j[0]), (pair.pos2, j[1])):
        cubes, x, t, _ = locate(cv, s[1], pos.cnums)
        expect(tuple(tuple(c) for c in pos.cubes) == tuple(cubes), 'cubes of a fraction position', curve=cv, cnums=pos.cnums, got=pos.cubes, want=cubes)
        gx, gt = pos.get_int_coords()
        expect((tuple(gx), gt) == (x, t), 'integer coordinates of a fraction', curve=cv, cnums=pos.cnums, got=(gx, gt), want=(x, t))
    P = Pair(cv, j, pair.pos1.cnums, pair.pos2.cnums)
    lo, up, arg = est._get_bounds(pair, curve_points=pts) if pts is not None else est._get_bounds(pair)
    lo, up = f(lo), f(up)
    data = dict(curve=cv, junc=j, cnums=(pair.pos1.cnums, pair.pos2.cnums), lo=lo, up=up)
    expect(lo <= up, 'lower bound above upper bound', **data)
    # up against real points
    for _ in range(4):
        a, b = P.a, P.b
        for _d in range(rng.randint(0, 3)):
            a, b = rng.choice(sub(cv, a)), rng.choice(sub(cv, b))
        mx, tl, tu = box(a, b)
        expect(up >= ratio(cv.dim, mx, tu), 'upper bound below a ratio attained in the pair', attained=ratio(cv.dim, mx, tu), **data)
    # greedy: the best sub-pair
    a, b = P.a, P.b
    for _d in range(2):
        if cv.div ** cv.dim > 9:
            break
        cand = [(ratio(cv.dim, *(lambda z: (z[0], z[2]))(box(p, r))), p, r) for p in sub(cv, a) for r in sub(cv, b)]
        v, a, b = max(cand, key=lambda z: z[0])
        expect(up >= v, 'upper bound below a ratio attained in the pair', attained=v, **data)
    if pts is None:
        expect(arg is None, 'extremal pair without curve points')
        expect(sup_at_least(cv, P.a, P.b, lo, ratio), 'lower bound above the supremum', **data)
    else:
        x1, t1, x2, t2 = fs(arg['x1']), f(arg['t1']), fs(arg['x2']), f(arg['t2'])
        v = ratio(cv.dim, [p - r for p, r in zip(x1, x2)], t2 - t1)
        expect(v == lo, 'lower bound is not the ratio at the reported pair', attained=v, **data)
        for (x, t), (c, h, t0, g, sp) in (((x1, t1), P.a), ((x2, t2), P.b)):
            rel = tuple((p - o) / h for p, o in zip(x, c)), (t - t0) / g
            base = ref.bx(ref.inv(sp[0]), rel[0]), (1 - rel[1] if sp[0][1] else rel[1])
            expect(base in ppts[sp[1]], 'reported point is not a curve point of its fraction', point=rel, **data)
        best = max(ratio(cv.dim, [(o + h * p) - (O + H * r) for p, o, r, O in zip(ref.bx(P.a[4][0], xa), P.a[0], ref.bx(P.b[4][0], xb), P.b[0])],
                         (P.b[2] + P.b[3] * ref.bt(P.b[4][0], tb)) - (P.a[2] + P.a[3] * ref.bt(P.a[4][0], ta)))
                   for xa, ta in ppts[P.a[4][1]] for xb, tb in ppts[P.b[4][1]] for h, H in ((P.a[1], P.b[1]),))
        expect(best <= up, 'upper bound below the ratio of two curve points', attained=best, **data)
    return 6


def ratio_of(kind, d, rng):
    if kind == 'w':
        ws = [rng.choice((1, 2, 3, 5)) for _ in range(d)]
        return weighted(ws), rweighted(ws)
    return METRICS[kind], (lambda dd, dx, dt, k=kind: ref.norm_pow(k, dd, dx, F(dt)))


It = namedtuple('It', 'pair lo up')


def regular(seed, name, nvar, rnd=False):
    def fn():
        rng = random.Random(seed)
        n = 0
        if rnd:
            cvs = [ref.rnd_curve(rng, *name) for _ in range(nvar)]
        else:
            c0 = load_corpus()[name]
            cvs = [c0] + list(variants(c0, rng, nvar))
        for cv in cvs:
            cu = curve(cv)
            kinds = ['l1', 'linf', 'l2_squared', 'w'] + (['l2'] if cv.dim % 2 == 0 else [])
            est_k = rng.sample(kinds, 2)
            for kind in est_k:
                real, exact = ratio_of(kind, cv.dim, rng)
                est = dil.Estimator(real)
                usepts = not rnd and rng.random() < .5
                pts = ppts = None
                if usepts:
                    ppts = {}
                    for p in range(len(cv.pats)):
                        s = {(e, t) for t, e in (ref.face_moment(cv, v, p) for v in itertools.product((0, 1), repeat=cv.dim))}
                        s |= {(ref.limit(cv, p, 0), F(0)), (ref.limit(cv, p, -1), F(1))}
                        ppts[p] = sorted(s)
                    from peano.curves import CurvePoint
                    from peano.subsets import Point
                    pts = {p: tuple(CurvePoint(Point([q(a) for a in x]), q(t)) for x, t in v) for p, v in ppts.items()}
                G = cv.div ** cv.dim
                if rnd:
                    items = []
                    for _i in range(60):
                        if rng.random() < .4 and G > 2:
                            junc = rng.choice(list(cu.gen_auto_junctions()))
                            c1 = rng.randrange(G - 2)
                            c2 = rng.randrange(c1 + 2, G)
                        else:
                            s1, s2 = [(ref.rnd_bm(rng, cv.dim), rng.randrange(len(cv.pats))) for _k in range(2)]
                            junc = RegularJunction(spec(s1), spec(s2), tuple(rng.randint(-1, 1) for _ in range(cv.dim)))
                            J = rj(junc)
                            while True:
                                c1, c2 = rng.randrange(G), rng.randrange(G)
                                if (c1, c2) != (0 if J[0][0][1] else G - 1, G - 1 if J[1][0][1] else 0):
                                    break
                        pr = dil._CurvePiecePair.init_first_order(cu, junc, c1, c2)
                        lo, up, _a = est._get_bounds(pr)
                        items.append(It(pr, lo, up))
                else:
                    tree = est._create_tree(cu)
                    items = list(tree.items())
                    # every pair of non-adjacent first-order fractions of every junction, once
                    got = Counter((rj(it.pair.junc), it.pair.pos1.cnums, it.pair.pos2.cnums) for it in items)
                    expect(max(got.values()) == 1, 'initial pair repeated', curve=cv)
                    want = set()
                    for p in range(len(cv.pats)):
                        s = (ref.ident(cv.dim), p)
                        want |= {((s, s, (0,) * cv.dim, 0), (a,), (b,)) for a in range(G) for b in range(a + 2, G)}
                    for j in cu.gen_regular_junctions():
                        J = rj(j)
                        for a in range(G):
                            for b in range(G):
                                ta = G - 1 - a if J[0][0][1] else a
                                tb = G - 1 - b if J[1][0][1] else b
                                if G + tb - ta >= 2:
                                    want.add((J, (a,), (b,)))
                    expect(set(got) == want, 'initial pairs', curve=cv, missing=list(want - set(got))[:2], extra=list(set(got) - want)[:2])
                    n += len(want)
                if len(items) > 80:
                    items = rng.sample(items, 80)
                for it in items:
                    n += check_bounds(cv, est, exact, it.pair, rng, not rnd, pts, ppts)
                    b = est._get_bounds(it.pair)
                    expect((f(it.lo), f(it.up)) == (f(b[0]), f(b[1])), 'bounds stored with the pair')
                for _ in range(8):
                    pair = rng.choice(items).pair
                    for _d in range(rng.randint(1, 12 if cv.div ** cv.dim <= 9 else 5)):
                        subs = list(pair.divide_balanced())
                        d1, d2 = pair.pos1.depth, pair.pos2.depth
                        if d1 > d2:
                            w = [(pair.pos1.cnums, pair.pos2.cnums + (c,)) for c in range(G)]
                        else:
                            w = [(pair.pos1.cnums + (c,), pair.pos2.cnums) for c in range(G)]
                        expect(sorted((s.pos1.cnums, s.pos2.cnums) for s in subs) == sorted(w), 'sub-pairs of a divided pair', curve=cv)
                        expect(all(rj(s.junc) == rj(pair.junc) for s in subs), 'junction of a sub-pair')
                        pair = rng.choice(subs)
                        n += check_bounds(cv, est, exact, pair, rng, not rnd, pts, ppts)
        return n
    return fn


def fuzzy(seed, name, cnt):
    def fn():
        rng = random.Random(seed)
        cv0 = load_corpus()[name]
        n = 0
        comp0 = ref.compatible_specs(cv0)
        G = cv0.div ** cv0.dim
        mult = len(cv0.pats)
        for _ in range(cnt):
            fz = PathFuzzyCurve.init_from_paths(paths_of(cv0))
            known = {}
            for _s in range(rng.randrange(4)):
                p, c = rng.randrange(mult), rng.randrange(G)
                known[p, c] = rng.choice(comp0[p][c]) if (p, c) not in known else known[p, c]
                fz = fz.specify(p, c, spec(known[p, c]))
            # junction: an auto junction or a random pair
            s1, s2 = [(ref.rnd_bm(rng, cv0.dim), rng.randrange(mult)) for _k in range(2)]
            if rng.random() < .5:
                junc = rng.choice(list(fz.gen_auto_junctions()))
                c1 = rng.randrange(G - 2)
                c2 = rng.randrange(c1 + 2, G)
            else:
                junc = RegularJunction(spec(s1), spec(s2), tuple(rng.randint(-1, 1) for _ in range(cv0.dim)))
                J = rj(junc)
                while True:
                    c1, c2 = rng.randrange(G), rng.randrange(G)
                    if (c1, c2) != (0 if J[0][0][1] else G - 1, G - 1 if J[1][0][1] else 0):
                        break
            pair = dil._CurvePiecePair.init_first_order(fz, junc, c1, c2)
            J = rj(junc)
            kn = dict(known)
            for _d in range(rng.randint(1, 6)):
                first = not (pair.pos1.depth > pair.pos2.depth)
                pos = pair.pos1 if first else pair.pos2
                pn = J[0][1] if first else J[1][1]

                def descend(kn, cnums):
                    sp = (ref.ident(cv0.dim), pn)
                    cubes = []
                    for c in cnums:
                        i = G - 1 - c if sp[0][1] else c
                        cubes.append(ref.bcube(sp[0], cv0.div, cv0.pats[sp[1]][0][i]))
                        key = (sp[1], i)
                        last = (sp, key)
                        s = kn.get(key)
                        sp = None if s is None else (ref.mul(sp[0], s[0]), s[1])
                        if sp is None and c is not cnums[-1] and len(cubes) < len(cnums):
                            return None
                    return cubes, last, sp
                cubes, (psp, key), _x = descend(kn, pos.cnums)
                alts = [kn[key]] if key in kn else comp0[key[0]][key[1]]
                want = Counter()
                for s in alts:
                    k2 = dict(kn); k2[key] = s
                    for c in range(G):
                        cc, _, _ = descend(k2, pos.cnums + (c,))
                        want[(tuple(sorted(k2.items())), pos.cnums + (c,), tuple(cc))] += 1
                subs = list(pair.divide_balanced())
                got = Counter()
                for s in subs:
                    ps, other, same = (s.pos1, s.pos2, pair.pos2) if first else (s.pos2, s.pos1, pair.pos1)
                    expect(other.cnums == same.cnums and other.cubes == same.cubes and rj(s.junc) == J, 'other fraction / junction kept')
                    got[(tuple(sorted(((p, c), rspec(x)) for p, c, x in s.curve.gen_defined_specs())), tuple(ps.cnums), tuple(tuple(c) for c in ps.cubes))] += 1
                expect(got == want, 'dividing a pair of a fuzzy curve', curve=cv0, known=kn, cnums=(pair.pos1.cnums, pair.pos2.cnums),
                       missing=list((want - got))[:1], extra=list((got - want))[:1])
                n += len(subs)
                pair = rng.choice(subs)
                kn = {(p, c): rspec(x) for p, c, x in pair.curve.gen_defined_specs()}
        return n
    return fn


def cases(tier, seed, hints):
    k = 8 if tier == 'thorough' else 1
    out = []
    for r in range(k):
        s = seed + 1000 * r
        for i, (nm, v) in enumerate((('hilbert', 4), ('peano', 3), ('beta_omega', 3), ('ARW', 2), ('coil', 2), ('meurthe', 2), ('ye', 1), ('luna', 1), ('neptunus', 1), ('tokarev', 1), ('spring', 1), ('iupiter', 0), ('4d_facet_gated', 0))):
            out.append(('reg-%s-%d' % (nm, r), regular(s + i, nm, v)))
        for i, (d, div, m) in enumerate(((1, 2, 1), (1, 3, 2), (2, 2, 1), (2, 2, 3), (2, 3, 1), (3, 2, 2), (2, 4, 1))):
            out.append(('rnd-%d%d%d-%d' % (d, div, m, r), regular(s + 50 + i, (d, div, m), 3, True)))
        for i, nm in enumerate(('hilbert', 'peano', 'beta_omega', 'ARW', 'luna', 'tokarev', 'iupiter')):
            out.append(('fuzzy-%s-%d' % (nm, r), fuzzy(s + 80 + i, nm, 40)))
    return out
