"""C14 bounded oracle: dilation estimates of regular curves."""
import random, itertools
from fractions import Fraction as F
import ref, refdil
from ref import expect, C
from api import curve, rspec, load_corpus, variants, f, fs, q, METRICS
from peano.dilation import Estimator

BOUND = ('corpus curves and random continuous variants, images and subdivisions (dim<=4, div<=5, <=5 patterns), 4 metrics and a mixed norm; tolerance, iteration, depth and face-moment options; '
         'true dilation bracketed by an independent branch-and-bound (lower end attained exactly); estimator re-use')
TOL = 2e-4


def wmetric(c):
    """a norm invariant under signed coordinate permutations: |x|_1 + c |x|_inf"""
    real = lambda d, dx, dt: q(1) * (sum(abs(x) for x in dx) + c * max(abs(x) for x in dx)) ** d / dt
    ex = lambda d, dx, dt: (sum(abs(x) for x in dx) + c * max(abs(x) for x in dx)) ** d / dt
    return real, ex


def metric(kind, d, rng):
    if kind == 'w':
        return wmetric(rng.choice((1, 2, 3)))
    return METRICS[kind], kind


def kinds(d):
    return ['l1', 'linf', 'l2_squared', 'w'] + (['l2'] if d % 2 == 0 else [])


def truth(cv, ex, tol=TOL):
    return refdil.dilation(cv, ex, tol, maxit=40000)


def verify(cv, ex, res, ab, opts):
    a, b = ab
    lo, up = f(res['lo']), f(res['up'])
    data = dict(curve=cv, opts=opts, lo=lo, up=up, true=(a, b))
    expect(lo <= F(b) * (1 + F(1, 10 ** 8)), 'lower bound above the dilation', **data)
    expect(up >= a, 'upper bound below the dilation', **data)
    expect(lo <= up, 'lower bound above upper bound', **data)
    r = opts.get('rel_tol_inv', 100)
    if r is not None and opts.get('max_iter') is None and opts.get('max_depth') is None:
        expect(up <= lo * F(r + 1, r), 'relative tolerance not satisfied', **data)
    n = 3
    if opts.get('use_face_moments'):
        expect('argmax' in res, 'extremal pair missing', **data)
        m = res['argmax']
        x1, t1, x2, t2 = fs(m['x1']), f(m['t1']), fs(m['x2']), f(m['t2'])
        v = refdil.exact(ex, cv.dim, [p - r for p, r in zip(x1, x2)], t2 - t1)
        expect(v == lo, 'ratio of the reported pair is not the lower bound', pair=(x1, t1, x2, t2), ratio=v, **data)
        j = m['junc']
        dx, dt = fs(j.delta_x), f(j.delta_t)
        for sp, x, t in ((rspec(j.spec1), x1, t1), (rspec(j.spec2), tuple(p - s for p, s in zip(x2, dx)), t2 - dt)):
            xx = ref.bx(ref.inv(sp[0]), x)
            tt = 1 - t if sp[0][1] else t
            expect(0 <= tt <= 1 and refdil.at(cv, sp[1], tt) == xx, 'reported point is not a point of the curve', point=(x, t), spec=sp, **data)
        cls = ref.junction_class((rspec(j.spec1), rspec(j.spec2), tuple(int(z) for z in dx))) if dt == 1 else None
        expect((dt == 0 and not any(dx) and rspec(j.spec1) == rspec(j.spec2)) or cls in ref.junctions_by_depth(cv, 500), 'reported junction does not occur in the curve', **data)
        n += 4
    return n


def strip(res):
    m = res.get('argmax')
    return (f(res['lo']), f(res['up']), None if m is None else (fs(m['x1']), f(m['t1']), fs(m['x2']), f(m['t2'])))


def optlist(rng, d, heavy):
    o = [dict(), dict(rel_tol_inv=3), dict(rel_tol_inv=20, use_face_moments=True), dict(max_iter=rng.choice((0, 1, 2, 5))), dict(rel_tol_inv=None, max_iter=rng.choice((3, 10, 40))),
         dict(rel_tol_inv=1000, max_depth=rng.choice((1, 2))), dict(rel_tol_inv=None, max_depth=1, use_face_moments=True),
         dict(use_face_moments=True, face_dim=rng.randrange(d)), dict(max_iter=rng.choice((1, 4, 25)), use_face_moments=True, face_dim=rng.randrange(d)),
         dict(rel_tol_inv=2, max_iter=30, max_depth=2)]
    if not heavy:
        o += [dict(rel_tol_inv=1000), dict(rel_tol_inv=3000, use_face_moments=True), dict(rel_tol_inv=200, max_iter=3, max_depth=1)]
    return o


def run_curve(cv, rng, nk, heavy, est_shared):
    n = 0
    cu = curve(cv)
    for kind in rng.sample(kinds(cv.dim), nk):
        real, ex = metric(kind, cv.dim, rng)
        ab = truth(cv, ex)
        ol = optlist(rng, cv.dim, heavy)
        est = Estimator(real)
        other = est_shared.setdefault(kind, Estimator(real)) if kind != 'w' else est
        for opts in ol:
            res = est.estimate_dilation_regular(cu, **opts)
            n += verify(cv, ex, res, ab, opts)
        for opts in rng.sample(ol, 2):
            fresh = Estimator(real, cache_max_size=rng.choice((1, 10, 2 ** 18))).estimate_dilation_regular(cu, **opts)
            again = other.estimate_dilation_regular(cu, **opts)
            expect(strip(fresh) == strip(again), 're-used estimator differs from a fresh one', curve=cv, opts=opts, metric=kind, fresh=strip(fresh), reused=strip(again))
            n += 1
    return n


def case(seed, names, nvar, nk, heavy):
    def fn():
        rng = random.Random(seed)
        cs = load_corpus()
        n = 0
        shared = {}
        for nm in names:
            cv0 = cs[nm]
            for cv in [cv0] + list(variants(cv0, rng, nvar)):
                n += run_curve(cv, rng, nk, heavy, shared)
            if nvar:
                cv = ref.apply(ref.rnd_bm(rng, cv0.dim), cv0)
                n += run_curve(cv, rng, 1, heavy, shared)
        return n
    return fn


def onedim(seed):
    def fn():
        rng = random.Random(seed)
        I = ((0, False),)
        n = 0
        for div in (3, 4, 5):
            # f(t) = t, and with reversed inner orientations (time and space reversed together)
            for _ in range(3):
                specs = tuple((((0, z),), z) for z in (rng.random() < .5 for _i in range(div)))
                cv = C(1, div, ((tuple((i,) for i in range(div)), tuple((s, 0) for s in specs)),), 0)
                for kind in ('l1', 'linf', 'l2_squared'):
                    est = Estimator(METRICS[kind])
                    for opts in (dict(rel_tol_inv=2), dict(max_iter=3), dict(rel_tol_inv=3, use_face_moments=True)):
                        res = est.estimate_dilation_regular(curve(cv), **opts)
                        n += verify(cv, kind, res, (F(1), 1.0), opts)
        return n
    return fn


def cases(tier, seed, hints):
    k = 6 if tier == 'thorough' else 1
    out = [('onedim', onedim(seed))]
    for r in range(k):
        s = seed + 1000 * r
        for i, (ns, v, nk, heavy) in enumerate(((('hilbert',), 6, 3, False), (('beta_omega',), 5, 2, False), (('ARW',), 3, 2, False), (('peano', 'coil'), 2, 2, False), (('meurthe', 'r'), 2, 2, False),
                                                (('serpentine', 'bauman', 'scepin_bauman'), 1, 2, False), (('ye', 'peano5'), 0, 2, False),
                                                (('luna',), 0, 1, True), (('neptunus',), 0, 1, True), (('tokarev',), 1, 1, True), (('haverkort_f',), 1, 1, True), (('haverkort_a26',), 1, 1, True),
                                                (('spring',), 0, 1, True), (('iupiter',), 0, 1, True), (('3d_l1_best',), 0, 2, True))):
            out.append(('%s-%d' % (ns[0], r), case(s + i, ns, v, nk, heavy)))
    return out
