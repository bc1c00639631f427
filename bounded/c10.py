"""C10 bounded oracle: allowed specs of fuzzy curves."""
import random, itertools
from collections import Counter
import ref
from ref import expect, C
from api import rspec, rcurve, load_corpus, paths_of, spec, bm, rproto, link, variants, pt
from peano.curves import PathFuzzyCurve, Curve
from peano.paths import Path, Proto

BOUND = ('fuzzy curves from pointed paths of corpus curves and of random (not continuous) curves with specs in random subgroups (dim<=3, div<=4, <=4 patterns), '
         'group given as list / generator / default, with and without time reversal; random chains of isometries, reversals, pattern selections and specifications')


def closure(gens, d):
    S = {ref.ident(d)}
    todo = [ref.ident(d)]
    while todo:
        x = todo.pop()
        for g in gens:
            y = ref.mul(g, x)
            if y not in S:
                S.add(y); todo.append(y)
    return sorted(S)


def conj(act, s):
    c = ref.cubemap(act)
    return (ref.mul(ref.mul(c, s[0]), ref.inv(c)), s[1])


def allowed(fz, p, c):
    return [rspec(s) for s in fz.gen_allowed_specs(p, c)]


def agree(fz, want, protos, what, **data):
    n = 0
    for p, row in enumerate(want):
        expect(rproto(fz.patterns[p].proto) == tuple(protos[p]), 'prototype ' + what, **data)
        for c, w in enumerate(row):
            got = allowed(fz, p, c)
            cnt = Counter(got)
            expect(not cnt or max(cnt.values()) == 1, 'allowed spec repeated ' + what, p=p, c=c, got=got, **data)
            expect(set(got) == set(w), 'allowed specs ' + what, p=p, c=c, missing=list(set(w) - set(got))[:3], extra=list(set(got) - set(w))[:3], **data)
            n += 1
    return n


def total(want):
    t = 1
    for row in want:
        for w in row:
            t *= len(w)
    return t


def split(ch, want):
    it = iter(ch)
    return [[next(it) for _ in row] for row in want]


def check_enum(fz, want, protos, pnum, what, **data):
    t = total(want)
    expect(fz.count_possible_curves() == t, 'count of possible curves ' + what, got=fz.count_possible_curves(), want=t, **data)
    n = 1
    if t <= 400:
        got = Counter()
        for K in fz.gen_possible_curves():
            expect(isinstance(K, Curve), 'possible curve is a Curve', **data)
            k = rcurve(K)
            expect(k.pnum == pnum and (k.dim, k.div) == (fz.dim, fz.div), 'possible curve: dim, div, pattern', got=(k.dim, k.div, k.pnum), **data)
            expect([x for x, _ in k.pats] == [tuple(x) for x in protos], 'possible curve: prototype', **data)
            got[tuple(s for _, s in k.pats)] += 1
        wantset = {tuple(tuple(row) for row in split(ch, want)) for ch in itertools.product(*[w for row in want for w in row])}
        expect(set(got) == wantset and all(v == 1 for v in got.values()), 'possible curves ' + what, n=len(got), want=len(wantset), **data)
        n += t
    else:
        for K in itertools.islice(fz.gen_possible_curves(), 5):
            k = rcurve(K)
            expect(all(s in want[p][c] for p, (_, ss) in enumerate(k.pats) for c, s in enumerate(ss)), 'possible curve not compatible ' + what, **data)
            n += 1
    ex = fz.get_curve_example()
    k = rcurve(ex)
    expect(all(len(ss) == len(want[p]) and all(s in want[p][c] for c, s in enumerate(ss)) for p, (_, ss) in enumerate(k.pats)), 'example curve not possible ' + what, **data)
    expect([x for x, _ in k.pats] == [tuple(x) for x in protos] and k.pnum == pnum, 'example curve: prototype / pattern ' + what, **data)
    return n


def history(fz, want, protos, rng, group, data, steps=6):
    d, div = fz.dim, fz.div
    n = agree(fz, want, protos, 'after construction', **data)
    pnum = fz.pnum
    n += check_enum(fz, want, protos, pnum, 'after construction', **data)
    for _ in range(steps):
        k = rng.randrange(5)
        old, oldwant, oldprotos, oldp = fz, want, protos, pnum
        if k in (0, 1, 2):
            A = ref.rnd_bm(rng, d) if k == 0 else (rng.choice(group) if k == 1 else (ref.ident(d)[0], True))
            if k == 2 and rng.random() < .7:
                fz = ~fz
            elif rng.random() < .4:
                pnum = rng.randrange(len(want))
                fz = spec((A, pnum)) * fz
            else:
                fz = bm(A) * fz
            want = [[[conj(A, s) for s in w] for w in row] for row in want]
            protos = [[ref.bcube(A, div, c) for c in x] for x in protos]
            if A[1]:
                want = [row[::-1] for row in want]
                protos = [x[::-1] for x in protos]
            what = 'after an isometry / reversal'
        else:
            p = rng.randrange(len(want)); c = rng.randrange(len(want[p]))
            if k == 4:
                nots = [s for s in ((ref.rnd_bm(rng, d), rng.randrange(len(want))) for _ in range(20)) if s not in want[p][c]]
                if len(want[p][c]) > 1 and nots and rng.random() < .5:
                    nots = nots[:1]
                # also: an allowed spec of the fraction before fixing
                for s in nots[:2]:
                    ok = False
                    try:
                        fz.specify(p, c, spec(s))
                    except ValueError:
                        ok = True
                    expect(ok, 'disallowed spec was not refused', p=p, c=c, s=s, **data)
                what = 'after a refused specification'
            else:
                s = rng.choice(want[p][c])
                alts = [x for x in want[p][c] if x != s]
                fz = fz.specify(p, c, spec(s))
                want = [[list(w) for w in row] for row in want]
                want[p][c] = [s]
                for x in alts[:2]:
                    ok = False
                    try:
                        fz.specify(p, c, spec(x))
                    except ValueError:
                        ok = True
                    expect(ok, 'respecifying a fixed fraction with another spec was not refused', p=p, c=c, **data)
                same = fz.specify(p, c, spec(s))
                n += agree(same, want, protos, 'after specifying twice', **data)
                what = 'after specifying'
        n += agree(fz, want, protos, what, **data)
        expect(fz.pnum == pnum, 'selected pattern ' + what, **data)
        n += agree(old, oldwant, oldprotos, 'of the original curve ' + what, **data)
        if rng.random() < .4:
            n += check_enum(fz, want, protos, pnum, what, **data)
        expect(sorted((p, c, rspec(s)) for p, c, s in fz.gen_defined_specs()) ==
               sorted((p, c, w[0]) for p, row in enumerate(want) for c, w in enumerate(row) if fz.patterns[p].specs[c] is not None), 'defined specs ' + what, **data)
    return n


def run(cv, group, rng, mode, no_tr=False):
    data = dict(curve=cv, group_size=len(group), mode=mode, no_tr=no_tr)
    eff = [g for g in group if not (no_tr and g[1])]
    want = ref.compatible_specs(cv, eff)
    if any(not w for row in want for w in row):
        return 0
    kw = {}
    gl = list(group)
    rng.shuffle(gl)
    if mode == 'list':
        kw['base_maps_group'] = [bm(g) for g in gl]
    elif mode == 'gen':
        kw['base_maps_group'] = (bm(g) for g in gl)
    elif mode == 'tuple':
        kw['base_maps_group'] = tuple(bm(g) for g in gl)
    if no_tr:
        kw['disable_time_rev'] = True
    elif rng.random() < .3:
        kw['disable_time_rev'] = False
    fz = PathFuzzyCurve.init_from_paths(paths_of(cv), **kw)
    n = history(fz, want, [list(x) for x, _ in cv.pats], rng, eff, data)
    if mode == 'default':
        from api import curve
        fz = curve(cv).forget(**({'disable_time_rev': True} if no_tr else {}))
        n += agree(fz, want, [list(x) for x, _ in cv.pats], 'after forget', **data)
    return n


def corpus_case(seed, names):
    def fn():
        rng = random.Random(seed)
        cs = load_corpus()
        n = 0
        for nm in names:
            cv = cs[nm]
            full = ref.all_bms(cv.dim)
            n += run(cv, full, rng, 'default')
            n += run(cv, full, rng, 'default', True)
            n += run(cv, full, rng, 'gen')
            n += run(ref.apply(ref.rnd_bm(rng, cv.dim), cv), full, rng, 'list')
        return n
    return fn


def rand_case(seed, d, div, cnt):
    def fn():
        rng = random.Random(seed)
        n = 0
        for i in range(cnt):
            gens = [ref.rnd_bm(rng, d, None if i % 3 else False) for _ in range(rng.choice((1, 1, 2, 2, 3)))]
            H = closure(gens, d)
            mult = rng.choice((1, 1, 2, 3, 4))
            grid = list(itertools.product(range(div), repeat=d))
            pats = []
            for _ in range(mult):
                cs = grid[:]
                rng.shuffle(cs)
                pats.append((tuple(cs), tuple((rng.choice(H), rng.randrange(mult)) for _ in cs)))
            cv = C(d, div, tuple(pats), 0)
            nt = i % 4 == 3 and all(not s[0][1] for _, ss in cv.pats for s in ss)
            n += run(cv, H, rng, ('list', 'gen', 'tuple')[i % 3], nt)
            H2 = [h for h in H if not h[1]]
            pats = tuple((cs, tuple((rng.choice(H2), s[1]) for s in ss)) for cs, ss in cv.pats)
            n += run(C(d, div, pats, 0), H, rng, 'list', True)
        return n
    return fn


def cases(tier, seed, hints):
    k = 8 if tier == 'thorough' else 1
    out = []
    for r in range(k):
        s = seed + 100 * r
        for i, ns in enumerate((('hilbert', 'peano'), ('beta_omega', 'coil'), ('ARW', 'r'), ('bauman', 'serpentine'), ('meurthe', 'scepin_bauman'), ('neptunus',), ('luna',), ('tokarev',),
                                ('haverkort_f', 'haverkort_a26'), ('spring',), ('iupiter',), ('ye',))):
            out.append(('corpus-%s-%d' % (ns[0], r), corpus_case(s + i, ns)))
        for d, div, cnt in ((1, 2, 40), (1, 3, 30), (2, 2, 40), (2, 3, 20), (2, 4, 8), (3, 2, 12), (3, 3, 2)):
            out.append(('group-%d-%d-%d' % (d, div, r), rand_case(s + 50 + d * 10 + div, d, div, cnt)))
    return out
