"""C15 bounded oracle: minimal dilation over fuzzy curves and sequences."""
import random, itertools, io, contextlib, runpy, sys, os
from fractions import Fraction as F
import ref, refdil
from ref import expect, C
from api import curve, rspec, rcurve, load_corpus, paths_of, spec, bm, f, q, METRICS
from peano.curves import PathFuzzyCurve
from peano.dilation import Estimator

BOUND = ('fuzzy curves with at most ~48 compatible curves (2d and 3d corpus paths with pre-specified fractions, images), each compatible curve bracketed by an independent branch-and-bound; '
         'bisections with random thresholds and limits, estimates with start/stop bounds, sequences as lists and generators with and without upper bound')
TOL = 1e-4


class Fz:
    def __init__(self, cv, rng, limit, kind, act=None, tol=TOL, keep=None):
        comp = [[list(x) for x in row] for row in ref.compatible_specs(cv)]
        fz = PathFuzzyCurve.init_from_paths(paths_of(cv))
        pos = [(p, c) for p, row in enumerate(comp) for c in range(len(row))]
        rng.shuffle(pos)
        for p, c in pos:
            t = 1
            for row in comp:
                for x in row:
                    t *= len(x)
            if t <= limit:
                break
            s = cv.pats[p][1][c] if (keep and rng.random() < keep) else rng.choice(comp[p][c])
            comp[p][c] = [s]
            fz = fz.specify(p, c, spec(s))
        protos = [cubes for cubes, _ in cv.pats]
        if act is not None:
            fz = bm(act) * fz
            ci = ref.inv(ref.cubemap(act))
            protos = [tuple(ref.bcube(act, cv.div, x) for x in cubes) for cubes in protos]
            comp = [[[(ref.mul(ref.mul(ref.cubemap(act), s[0]), ci), s[1]) for s in x] for x in row] for row in comp]
            if act[1]:
                protos = [x[::-1] for x in protos]
                comp = [x[::-1] for x in comp]
        self.fz, self.kind = fz, kind
        self.D = {}
        for ch in itertools.product(*[x for row in comp for x in row]):
            it = iter(ch)
            pats = tuple((tuple(protos[p]), tuple(next(it) for _ in row)) for p, row in enumerate(comp))
            self.D[pats] = refdil.dilation(C(cv.dim, cv.div, pats, 0), kind, tol, maxit=30000)
        self.a = min(a for a, b in self.D.values())
        self.b = min(F(b) for a, b in self.D.values()) * (1 + F(1, 10 ** 8))

    def of(self, cu):
        k = rcurve(cu)
        expect(k.pats in self.D, 'returned curve is not compatible with the fuzzy curve', got=k)
        return self.D[k.pats]


def bisect(fzz, rng, cnt):
    n = 0
    for _ in range(cnt):
        est = Estimator(METRICS[fzz.kind])
        vals = sorted({float(a) for a, b in fzz.D.values()})
        c = F(rng.choice(vals[:6] if rng.random() < .7 else vals)).limit_denominator(1000) * F(rng.randint(90, 110), 100)
        g = c * F(rng.choice((101, 102, 105, 120, 150)), 100)
        if rng.random() < .3:
            bad, good = fzz.a * F(rng.choice((97, 99, 100, 101, 103)), 100), None
            good = bad * F(rng.choice((101, 103, 110)), 100)
        else:
            bad, good = c, g
        kw = {}
        if rng.random() < .4:
            kw['sat_iter_multiplier'] = rng.choice((1.0, 1.1, 2, 5))
        if rng.random() < .3:
            from peano._sat_adapters import CurveSATAdapter
            kw['init_sat_adapter'] = CurveSATAdapter(curve=fzz.fz)
            kw['init_pairs_tree'] = est._create_tree(fzz.fz)
        rep = 2 if kw.get('init_pairs_tree') is not None else 1
        for _r in range(rep):
            res = est.bisect_dilation_fuzzy(fzz.fz, good_threshold=q(good), bad_threshold=q(bad), **kw)
            data = dict(bad=bad, good=good, min=(fzz.a, float(fzz.b)), kind=fzz.kind, kw=[k for k in kw], protos=next(iter(fzz.D)))
            if res is None:
                expect(bad <= fzz.b, 'no curve returned although some compatible curve is below the bad threshold', **data)
            else:
                a, b = fzz.of(res)
                expect(a <= good, 'returned curve exceeds the good threshold', got=(a, b), **data)
            n += 1
    return n


def fuzzy(fzz, rng, cnt):
    n = 0
    for _ in range(cnt):
        est = Estimator(METRICS[fzz.kind])
        kw = dict(rel_tol_inv=rng.choice((2, 5, 20, 100, 400)))
        limited = False
        if rng.random() < .3:
            kw['max_iter'] = rng.choice((1, 5, 30)); limited = True
        if rng.random() < .3:
            kw['stop_upper_bound'] = q(fzz.a * F(rng.choice((80, 99, 101, 120)), 100)); limited = True
        start = None
        if rng.random() < .4:
            kw['start_lower_bound'] = q(fzz.a * F(rng.choice((50, 95, 100)), 100))
        if rng.random() < .4:
            pats, (a, b) = rng.choice(sorted(fzz.D.items(), key=lambda z: z[1])[:10])
            cu0 = curve(C(fzz.fz.dim, fzz.fz.div, pats, 0))
            kw['start_upper_bound'] = q(F(b).limit_denominator(10 ** 6) * F(1001, 1000))
            kw['start_curve'] = cu0
        res = est.estimate_dilation_fuzzy(fzz.fz, **kw)
        lo, up = f(res['lo']), f(res['up'])
        data = dict(lo=lo, up=up, min=(fzz.a, float(fzz.b)), kind=fzz.kind, kw={k: str(v)[:80] for k, v in kw.items()}, protos=next(iter(fzz.D)))
        expect(lo <= fzz.b, 'lower bound above the minimal dilation', **data)
        expect(up >= fzz.a, 'upper bound below the minimal dilation', **data)
        a, b = fzz.of(res['curve'])
        expect(a <= up and F(b) * (1 + F(1, 10 ** 8)) >= lo, 'dilation of the returned curve is outside the bounds', got=(a, b), **data)
        if not limited:
            expect(up <= lo * F(kw['rel_tol_inv'] + 1, kw['rel_tol_inv']), 'relative tolerance not satisfied', **data)
        elif 'max_iter' not in kw and up > lo * F(kw['rel_tol_inv'] + 1, kw['rel_tol_inv']):
            expect(lo > f(kw['stop_upper_bound']), 'stopped early although the stop bound is not exceeded', **data)
        n += 5
    return n


def sequence(fzs, rng, cnt):
    n = 0
    for _ in range(cnt):
        m = rng.randint(1, 5)
        seq = [rng.choice(fzs) for _ in range(m)]
        A, B = min(z.a for z in seq), min(z.b for z in seq)
        kw = dict(rel_tol_inv=rng.choice((3, 20, 100)))
        if rng.random() < .5:
            kw['rel_tol_inv_mult'] = rng.choice((2, 4, 10))
        mode = rng.random()
        ub = None
        if mode < .35:
            ub = B * F(rng.choice((1001, 1010, 1500)), 1000)
        elif mode < .55:
            ub = A * F(rng.choice((700, 900, 990)), 1000)
        if ub is not None:
            kw['upper_bound'] = q(F(ub).limit_denominator(10 ** 6))
            ub = f(kw['upper_bound'])
        est = Estimator(METRICS[fzs[0].kind])
        arg = [z.fz for z in seq]
        if rng.random() < .5:
            arg = (x for x in arg)
        res = est.estimate_dilation_sequence(arg, **kw)
        data = dict(mins=[(float(z.a), float(z.b)) for z in seq], kw={k: str(v) for k, v in kw.items()}, kind=fzs[0].kind)
        if res is None:
            expect(ub is not None and A > ub or ub is not None and B > ub, 'no result although some minimum is within the upper bound', **data)
        else:
            lo, up = f(res['lo']), f(res['up'])
            data.update(lo=lo, up=up, idxs=res['idxs'])
            expect(lo <= B, 'lower bound above the overall minimum', **data)
            if ub is None or B <= ub:
                expect(up >= A, 'upper bound below the overall minimum', **data)
                expect(up <= lo * F(kw['rel_tol_inv'] + 1, kw['rel_tol_inv']), 'relative tolerance not satisfied', **data)
                idxs = list(res['idxs'])
                expect(len(set(idxs)) == len(idxs) == len(res['curves']) and all(0 <= i < m for i in idxs), 'indices', **data)
                # the fuzzy curves attaining the minimum for sure: below every other one (same object = same minimum)
                for i, z in enumerate(seq):
                    if all(z is w or z.b < w.a for w in seq):
                        expect(i in idxs, 'a fuzzy curve attaining the minimum is not returned', missing=i, **data)
                for i, cu in zip(idxs, res['curves']):
                    if cu is not None:
                        a, b = seq[i].of(cu)
                        expect(F(b) * (1 + F(1, 10 ** 8)) >= lo, 'dilation of a returned curve is below the bounds', **data)
                # some returned example realises the upper bound
                if ub is None:
                    expect(any(cu is not None and seq[i].of(cu)[0] <= up for i, cu in zip(idxs, res['curves'])), 'no returned curve within the upper bound', **data)
        n += 5
    return n


def case(seed, names, kind, limit, nb, nf, ns, imgs=True):
    def fn():
        rng = random.Random(seed)
        cs = load_corpus()
        fzs = []
        for nm in names:
            cv = cs[nm]
            fzs.append(Fz(cv, rng, limit, kind, ref.rnd_bm(rng, cv.dim) if imgs and rng.random() < .5 else None, keep=.7))
        n = 0
        for z in fzs:
            n += bisect(z, rng, nb)
            n += fuzzy(z, rng, nf)
        if ns:
            n += sequence(fzs, rng, ns)
        return n
    return fn


def script(seed):
    """search.py as a whole: a given gate, an upper bound that is met / violated"""
    def fn():
        import peano.utils
        repo = os.path.dirname(os.path.dirname(os.path.abspath(peano.utils.__file__)))
        n = 0
        if not os.path.exists(os.path.join(repo, 'search.py')):
            return 0
        for ub, want in (('9/2', 'NOT FOUND'), ('7', 'lower bound'), (None, 'lower bound')):
            argv = ['search.py', '--dim', '2', '--div', '2', '--mult', '1', '--metric', 'l2', '--rel-tol-inv', '50'] + (['--upper-bound', ub] if ub else [])
            buf = io.StringIO()
            old = sys.argv
            try:
                sys.argv = argv
                with contextlib.redirect_stdout(buf):
                    runpy.run_path(os.path.join(repo, 'search.py'), run_name='__main__')
            finally:
                sys.argv = old
            txt = buf.getvalue()
            expect(want in txt, 'search.py output', args=argv, out=txt[-500:])
            if want == 'lower bound':
                lo = float(txt.split('lower bound (float):')[1].split()[0])
                up = float(txt.split('upper bound (float):')[1].split()[0])
                expect(lo <= 6.0000001 and up >= 5.9999999 and up <= lo * 1.0200001, 'search.py bounds for the 2d monofractal (hilbert, 6)', lo=lo, up=up)
            n += 1
        return n
    return fn


def cases(tier, seed, hints):
    k = 5 if tier == 'thorough' else 1
    out = [('search-script', script(seed))]
    for r in range(k):
        s = seed + 1000 * r
        for i, (ns, kind, lim, nb, nf, nq) in enumerate(((('hilbert',) * 5, 'l2', 48, 14, 5, 5), (('hilbert',) * 4, 'l1', 48, 14, 5, 4), (('peano', 'coil', 'r'), 'linf', 32, 10, 3, 3),
                                                         (('meurthe', 'serpentine', 'peano'), 'l2', 32, 10, 3, 3), (('beta_omega',) * 4, 'l2', 40, 12, 4, 4), (('beta_omega', 'ARW'), 'l2_squared', 32, 10, 3, 3),
                                                         (('ARW',) * 3, 'l1', 24, 8, 3, 3), (('tokarev',), 'linf', 4, 2, 1, 0), (('haverkort_f',), 'linf', 4, 2, 1, 0), (('neptunus', 'luna'), 'linf', 3, 2, 1, 1),
                                                         (('luna',), 'l1', 4, 2, 1, 1), (('peano',) * 3, 'l1', 32, 8, 3, 3), (('scepin_bauman', 'bauman'), 'l2', 32, 8, 3, 3))):
            out.append(('%s-%s-%d-%d' % (ns[0], kind, i, r), case(s + i, ns, kind, lim, nb, nf, nq)))
    return out
