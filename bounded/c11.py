"""C11 bounded oracle: the SAT encoding."""
import random, itertools
import ref
from ref import expect, C
from api import rspec, rcurve, load_corpus, paths_of, spec, rjunc, bm
from peano.curves import PathFuzzyCurve, AutoJunction
from peano._sat_adapters import CurveSATAdapter

BOUND = ('fuzzy curves with at most ~300 compatible curves (2d and 3d corpus paths with random pre-specified fractions, images, 1-4 patterns); random trees of copies with random forbid steps, '
         'satisfiability and the model curve compared with brute force over all compatible curves')


def setup(cv, rng, limit, act=None):
    comp = [[list(x) for x in row] for row in ref.compatible_specs(cv)]
    fz = PathFuzzyCurve.init_from_paths(paths_of(cv))
    pos = [(p, c) for p, row in enumerate(comp) for c in range(len(row))]
    rng.shuffle(pos)

    def tot():
        t = 1
        for row in comp:
            for x in row:
                t *= len(x)
        return t
    for p, c in pos:
        if tot() <= limit:
            break
        s = rng.choice(comp[p][c])
        comp[p][c] = [s]
        fz = fz.specify(p, c, spec(s))
    protos = [cubes for cubes, _ in cv.pats]
    if act is not None:
        fz = bm(act) * fz
        ci = ref.inv(ref.cubemap(act))
        protos = [tuple(ref.bcube(act, cv.div, x) for x in cubes) for cubes in protos]
        comp = [[[(ref.mul(ref.mul(ref.cubemap(act), s[0]), ci), s[1]) for s in x] for x in row] for row in comp]
        if act[1]:
            protos = [x[::-1] for x in protos]
            comp = [x[::-1] for x in comp]
    curves = []
    for ch in itertools.product(*[x for row in comp for x in row]):
        it = iter(ch)
        pats = tuple((tuple(protos[p]), tuple(next(it) for _ in row)) for p, row in enumerate(comp))
        K = C(cv.dim, cv.div, pats, 0)
        curves.append((K, frozenset(ref.junctions_by_depth(K, 300))))
    return fz, comp, curves


def check(cv, rng, limit, rounds, act=None):
    fz, comp, curves = setup(cv, rng, limit, act)
    forms = {}
    for j in fz.get_junction_templates():
        forms.setdefault(ref.junction_class(rjunc(j)), []).append(j)
    classes = sorted(forms)
    autos = list(fz.gen_auto_junctions())
    free = [(p, c) for p, row in enumerate(comp) for c in range(len(row))]
    n = 0
    for _ in range(rounds):
        nodes = [(CurveSATAdapter(curve=fz), frozenset(range(len(curves))))]
        lost = False

        def verify(ad, alive, what):
            sat = ad.solve()
            expect(bool(sat) == bool(alive), 'satisfiable iff some compatible curve is left: ' + what, sat=sat, left=len(alive), of=len(curves), curve=cv)
            if sat:
                m = rcurve(ad.get_model_curve())
                expect(any(curves[i][0].pats == m.pats for i in alive), 'model curve is not a compatible curve avoiding the forbidden combinations: ' + what, model=m)
        for step in range(25):
            i = rng.randrange(len(nodes))
            ad, alive = nodes[i]
            act_ = rng.random()
            if act_ < .3 and len(nodes) < 6:
                nodes.append((CurveSATAdapter(adapter=ad), alive))
            elif act_ < .85:
                # a sub-curve: random positions specified; prefer consistent with an alive curve
                sub = fz
                req = {}
                tgt = curves[rng.choice(sorted(alive))][0] if alive and rng.random() < .7 else curves[rng.randrange(len(curves))][0]
                for p, c in rng.sample(free, min(len(free), rng.choice((0, 1, 2, 3, 5)))):
                    s = tgt.pats[p][1][c]
                    req[p, c] = s
                    sub = sub.specify(p, c, spec(s))
                if rng.random() < .25:
                    js = [rng.choice(autos)]
                    has = lambda k: True
                elif rng.random() < .1:
                    k0 = classes[0]
                    t = rng.choice(fz.get_junction_templates()[forms[k0][0]])
                    sub = t
                    req = {(p, c): rspec(s) for p, c, s in t.gen_defined_specs()}
                    js = forms[k0]
                    has = lambda k, k0=k0: k0 in k
                else:
                    k0 = rng.choice(classes)
                    js = forms[k0]
                    has = lambda k, k0=k0: k0 in k
                for j in js:
                    ad.add_forbid_clause(j, sub)
                alive = frozenset(x for x in alive if not (has(curves[x][1]) and all(curves[x][0].pats[p][1][c] == s for (p, c), s in req.items())))
                nodes[i] = (ad, alive)
            else:
                verify(CurveSATAdapter(adapter=ad), alive, 'copy')
            n += 1
        for ad, alive in nodes:
            verify(ad, alive, 'at the end')
            # forbid on: the adapter stays usable after solving
            if alive:
                K = curves[rng.choice(sorted(alive))]
                sub = fz
                for p, c in free:
                    sub = sub.specify(p, c, spec(K[0].pats[p][1][c]))
                ad.add_forbid_clause(autos[0], sub)
                alive = frozenset(x for x in alive if curves[x][0].pats != K[0].pats)
                verify(ad, alive, 'after solving and forbidding one more curve')
            n += 2
        # enumerate all models by forbidding each found curve
        ad = CurveSATAdapter(curve=fz)
        seen = set()
        for _i in range(len(curves) + 1 if len(curves) <= 40 else 8):
            if not ad.solve():
                expect(len(seen) == len(curves), 'enumerating models misses curves', got=len(seen), want=len(curves), curve=cv)
                break
            m = rcurve(ad.get_model_curve())
            expect(m.pats not in seen and any(K.pats == m.pats for K, _ in curves), 'model repeated or not compatible', model=m)
            seen.add(m.pats)
            sub = fz
            for p, c in free:
                sub = sub.specify(p, c, spec(m.pats[p][1][c]))
            ad.add_forbid_clause(rng.choice(autos), sub)
            n += 1
    return n


def case(seed, name, limit, rounds, img):
    def fn():
        rng = random.Random(seed)
        cv = load_corpus()[name]
        return check(cv, rng, limit, rounds, ref.rnd_bm(rng, cv.dim) if img else None)
    return fn


def cases(tier, seed, hints):
    k = 24 if tier == 'thorough' else 4
    out = []
    for r in range(k):
        for i, (nm, lim, rounds) in enumerate((('hilbert', 300, 6), ('peano', 130, 4), ('coil', 130, 3), ('r', 64, 3), ('serpentine', 64, 3), ('beta_omega', 100, 4), ('ARW', 100, 3),
                                               ('tokarev', 64, 3), ('haverkort_f', 64, 2), ('neptunus', 40, 2), ('luna', 40, 2), ('spring', 40, 2), ('iupiter', 40, 2), ('bauman', 40, 2))):
            for img in (False, True):
                out.append(('%s-%d-%d' % (nm, img, r), case(seed + 100 * r + i + (50 if img else 0), nm, lim, rounds, img)))
    return out
