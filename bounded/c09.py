"""C09 bounded oracle: junction templates."""
import random
import ref
from ref import expect, C
from api import rspec, rjunc, load_corpus, paths_of, spec, curve, rbm, bm
from peano.curves import PathFuzzyCurve

BOUND = ('fuzzy curves with the pointed paths of corpus curves (2d: hilbert, peano, beta_omega, ARW, coil, meurthe, ...; 3d: one pattern; also with pre-specified fractions, '
         'images and reversals, restricted groups); every listed junction against random compatible curves and completions of every / sampled templates')


def defined(fz):
    return {(p, c): rspec(s) for p, c, s in fz.gen_defined_specs()}


def check(cv, rng, fixed=0, act=None, no_tr=False, ncurves=30, maxtmpl=400, expand=60):
    group = ref.all_bms(cv.dim, False) if no_tr else ref.all_bms(cv.dim)
    comp = [[list(x) for x in row] for row in ref.compatible_specs(cv, group)]
    if any(not x for row in comp for x in row):
        return 0
    fz = PathFuzzyCurve.init_from_paths(paths_of(cv), disable_time_rev=no_tr)
    G = cv.div ** cv.dim
    for _ in range(fixed):
        p, c = rng.randrange(len(cv.pats)), rng.randrange(G)
        s = rng.choice(comp[p][c])
        comp[p][c] = [s]
        fz = fz.specify(p, c, spec(s))
    base = cv
    protos = [cubes for cubes, _ in cv.pats]
    if act is not None:
        fz = bm(act) * fz
        ci = ref.inv(ref.cubemap(act))
        protos = [[ref.bcube(act, cv.div, x) for x in cubes] for cubes in protos]
        comp = [[[(ref.mul(ref.mul(ref.cubemap(act), s[0]), ci), s[1]) for s in x] for x in row] for row in comp]
        if act[1]:
            protos = [x[::-1] for x in protos]
            comp = [x[::-1] for x in comp]
    tm = fz.get_junction_templates()
    bycls = {}
    tmpl = []
    ids = {}
    for j, fzs in tm.items():
        k = ref.junction_class(rjunc(j))
        expect(len(fzs) > 0, 'junction listed without template', curve=cv, j=rjunc(j))
        for t in fzs:
            if id(t) not in ids:
                ids[id(t)] = len(tmpl)
                tmpl.append((t, defined(t)))
            bycls.setdefault(k, set()).add(ids[id(t)])
    # the generator of possible junctions lists the same ones
    expect({ref.junction_class(rjunc(j)) for j in fz.gen_regular_junctions()} == set(bycls), 'gen_regular_junctions differs from the templates', curve=cv)
    n = 0

    def mk(choice):
        return C(cv.dim, cv.div, tuple((tuple(protos[p]), tuple(choice[p])) for p in range(len(protos))), 0)

    def rnd(pre=None):
        ch = [[rng.choice(x) for x in row] for row in comp]
        for (p, c), s in (pre or {}).items():
            ch[p][c] = s
        return ch

    def verify(ch):
        K = mk(ch)
        has = set(ref.junctions_by_depth(K, 200))
        agree = {i for i, (t, d) in enumerate(tmpl) if all(ch[p][c] == s for (p, c), s in d.items())}
        got = {k for k, ts in bycls.items() if ts & agree}
        expect(got == has, 'templates and junctions of a compatible curve disagree', curve=K,
               agrees_but_has_not=list(got - has)[:2], has_but_no_template=list(has - got)[:2])
        return len(has)

    for _ in range(ncurves):
        n += verify(rnd())
    # completions of templates: every template is consistent with the fuzzy curve and really has its junctions
    owners = {}
    for k, ts in bycls.items():
        for i in ts:
            owners.setdefault(i, set()).add(k)
    idx = list(range(len(tmpl)))
    rng.shuffle(idx)
    for i in idx[:maxtmpl]:
        d = tmpl[i][1]
        expect(all(s in comp[p][c] for (p, c), s in d.items()), 'template uses a spec that is not allowed', curve=cv, d=d)
        K = mk(rnd(d))
        has = set(ref.junctions_by_depth(K, 200))
        expect(owners[i] <= has, 'a completion of the template does not have the junction', curve=K, missing=list(owners[i] - has)[:2])
        n += len(owners[i])
    # each listed junction occurs in some compatible curve
    ks = list(bycls)
    rng.shuffle(ks)
    for k in ks[:expand]:
        i = next(iter(bycls[k]))
        K = mk(rnd(tmpl[i][1]))
        expect(k in ref.junctions_by_depth(K, 200), 'listed junction occurs in no completion of its template', curve=K, j=k)
        n += 1
    return n


def case(seed, name, **kw):
    def fn():
        rng = random.Random(seed)
        cv = load_corpus()[name]
        if kw.pop('img', False):
            kw['act'] = ref.rnd_bm(rng, cv.dim, kw.pop('tr', None))
        return check(cv, rng, **kw)
    return fn


def fixall(seed, name, leave):
    """multi-pattern / 3d curves: fix all but a few fractions so that the template product stays small"""
    def fn():
        rng = random.Random(seed)
        cv = load_corpus()[name]
        n = 0
        for i in range(3):
            n += check_leave(cv, rng, leave, i > 0)
        return n
    return fn


def check_leave(cv, rng, leave, gatewise=False):
    comp = ref.compatible_specs(cv)
    free = set()
    if gatewise:
        p = rng.randrange(len(cv.pats))
        free.add((p, rng.choice((0, cv.div ** cv.dim - 1))))
        free.add((rng.randrange(len(cv.pats)), rng.choice((0, 1, cv.div ** cv.dim - 2, cv.div ** cv.dim - 1))))
    while len(free) < leave:
        free.add((rng.randrange(len(cv.pats)), rng.randrange(cv.div ** cv.dim)))
    fz = PathFuzzyCurve.init_from_paths(paths_of(cv))
    fixed = {}
    for p, row in enumerate(comp):
        for c, x in enumerate(row):
            if (p, c) not in free:
                fixed[p, c] = rng.choice(x)
                fz = fz.specify(p, c, spec(fixed[p, c]))
    tm = fz.get_junction_templates()
    bycls = {}
    for j, fzs in tm.items():
        bycls.setdefault(ref.junction_class(rjunc(j)), []).extend(defined(t) for t in fzs)
    n = 0
    seen_all = set()
    for _ in range(40):
        ch = [[fixed.get((p, c)) or rng.choice(comp[p][c]) for c in range(len(comp[p]))] for p in range(len(comp))]
        K = C(cv.dim, cv.div, tuple((cv.pats[p][0], tuple(ch[p])) for p in range(len(ch))), 0)
        has = set(ref.junctions_by_depth(K, 300))
        got = {k for k, ds in bycls.items() if any(all(ch[p][c] == s for (p, c), s in d.items()) for d in ds)}
        expect(got == has, 'templates and junctions of a compatible curve disagree', curve=K,
               agrees_but_has_not=list(got - has)[:2], has_but_no_template=list(has - got)[:2])
        n += len(has)
    for k, ds in list(bycls.items())[:200]:
        d = rng.choice(ds)
        ch = [[d.get((p, c)) or fixed.get((p, c)) or rng.choice(comp[p][c]) for c in range(len(comp[p]))] for p in range(len(comp))]
        K = C(cv.dim, cv.div, tuple((cv.pats[p][0], tuple(ch[p])) for p in range(len(ch))), 0)
        expect(k in ref.junctions_by_depth(K, 300), 'listed junction occurs in no completion of its template', curve=K, j=k)
        n += 1
    return n


def cases(tier, seed, hints):
    k = 6 if tier == 'thorough' else 1
    out = []
    for r in range(k):
        for nm in ('hilbert', 'peano', 'coil', 'serpentine', 'meurthe', 'r'):
            out.append(('plain-%s-%d' % (nm, r), case(seed + 10 * r, nm)))
            out.append(('fixed-%s-%d' % (nm, r), case(seed + 10 * r + 1, nm, fixed=2)))
            out.append(('image-%s-%d' % (nm, r), case(seed + 10 * r + 2, nm, img=True, tr=True, fixed=1)))
            out.append(('notr-%s-%d' % (nm, r), case(seed + 10 * r + 3, nm, no_tr=True, img=True)))
        for nm in ('beta_omega',):
            out.append(('multi-%s-%d' % (nm, r), case(seed + 10 * r + 4, nm, fixed=2, ncurves=15)))
        for nm, lv in (('ARW', 3), ('neptunus', 2), ('luna', 2), ('tokarev', 3), ('haverkort_f', 3), ('spring', 3), ('bauman', 3), ('iupiter', 3), ('ye', 3)):
            out.append(('leave-%s-%d' % (nm, r), fixall(seed + 10 * r + 5, nm, lv)))
    return out
